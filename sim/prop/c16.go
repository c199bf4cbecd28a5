package prop

import (
	"strings"

	"midisim/gen"
	"midisim/rng"
	"midisim/run"
	"midisim/spec"
)

// ---- C16

func init() {
	register(&Prop{ID: "C16", New: newC16, Check: checkC16,
		Rule: "One command line on one set of inputs (one in five damaged) runs without options for diagnostics, and again with --verbose or --debug and with a standard error stream (and, where the output is a file, a standard output stream) that fails at one or at every write (I/O error, full disk, closed descriptor), takes part of a write, or is interrupted; exit status, output files and, where it is the output, standard output are compared. Non-trivial: a fault on a diagnostic write fired, or diagnostics were asked for; distinct: by scheduling decisions and system calls."})
}

func newC16(e *Env, r *rng.R) *Case {
	b := cliRun(r)
	quiet(b.Cmd)
	b = baseline(b)
	cwd := b.Spec.Cwd
	if r.P(20) {
		in := abs(cwd, b.Cmd.In)
		d, w := gen.Damage(r, getFile(b.Spec.Files, in), dfmt(b.Cmd.Format()))
		setFile(b.Spec.Files, in, d)
		Limits(&b.Spec, size(b.Spec.Files)+500)
		b.Role = "base, damaged: " + w
	}
	c := &Case{Kind: "cli", Runs: []Run{b}}
	for i := r.Range(2, 5); i > 0; i-- {
		v := variant(r, b)
		if r.P(75) && (!v.Cmd.Stdout() || r.P(40)) {
			v.Cmd.Flags = append(v.Cmd.Flags, rng.Pick(r, "--verbose", "--debug"))
			if r.P(20) {
				v.Cmd.Flags = append(v.Cmd.Flags, "--verbose", "--debug")
			}
		}
		add := func(cls string) {
			kind := rng.Pick(r, "EIO", "ENOSPC", "EBADF", "EAGAIN", "EINTR", "short", "torn")
			f := spec.Fault{Cls: cls, Nth: -1, Kind: kind}
			if kind == "short" || kind == "torn" || kind == "EINTR" || r.P(40) {
				f.Nth = rng.Pick(r, 0, 0, 1, r.N(5), r.N(40))
				f.Arg = int64(rng.Pick(r, 0, 1, r.N(30)))
			}
			v.Spec.Faults = append(v.Spec.Faults, f)
		}
		if r.P(85) {
			add("stderr")
			if r.P(20) {
				add("stderr")
			}
		}
		if !v.Cmd.Stdout() && r.P(50) {
			add("stdout")
		}
		c.Runs = append(c.Runs, v)
	}
	return c
}

func checkC16(e *Env, c *Case) (*Violation, error) {
	b := &c.Runs[0]
	base, err := e.Exec(b)
	if err != nil {
		return nil, err
	}
	if !ended(base) {
		return nil, nil
	}
	want := outputs(b.Cmd, b.Spec.Cwd, base.FS)
	for i := range c.Runs[1:] {
		v := &c.Runs[1+i]
		res, err := e.Exec(v)
		if err != nil {
			return nil, err
		}
		word := v.Cmd.Word
		if v.Cmd.Split {
			word = "split"
		}
		if len(res.Stderr) > 0 || hits(res, "stderr") > 0 {
			e.Probe("diagnostics on standard error")
		}
		if hits(res, "stderr") > 0 {
			e.Probe("standard error failed")
		}
		if d := res.Died(); d != "" {
			return bad("c16 "+word+" death", "%s: %s; without diagnostics it exits %d", describe(v, nil), res.Sig(), base.Exit), nil
		}
		if res.Exit != base.Exit {
			return bad("c16 "+word+" exit", "%s; without diagnostics, or when they can be written, it exits %d: %s", describe(v, res), base.Exit, clip(strings.TrimSpace(string(res.Stdout)+string(base.Stdout)))), nil
		}
		if v.Cmd.Stdout() && !chatty(v.Cmd) && string(res.Stdout) != string(base.Stdout) {
			return bad("c16 "+word+" stdout", "%s prints something else (%d bytes, not %d) when standard error cannot be written", describe(v, res), len(res.Stdout), len(base.Stdout)), nil
		}
		if base.Exit != 0 {
			continue
		}
		if d := asked(v.Cmd, v.Spec.Cwd, want, outputs(v.Cmd, v.Spec.Cwd, res.FS)); d != "" {
			return bad("c16 "+word+" output", "%s: %s", describe(v, res), d), nil
		}
	}
	return nil, nil
}

func hits(res *run.Result, cls string) int {
	n := 0
	for _, f := range res.FiredAt {
		if f.Cls == cls {
			n++
		}
	}
	return n
}
