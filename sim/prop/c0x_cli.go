package prop

import (
	"bytes"
	"fmt"
	"path"
	"slices"
	"strconv"
	"strings"
	"syscall"

	"midisim/gen"
	"midisim/rng"
	"midisim/run"
	"midisim/simfs"
	"midisim/spec"
)

// site is a system call of a fault-free run at which a fault can be placed.
type site struct {
	cls  string
	nth  int
	path string
	n    int // bytes transferred
}

func sites(res *run.Result, cwd string, pick func(cls, p string) bool) []site {
	var out []site
	k := map[string]int{}
	for _, o := range res.Ops {
		i := k[o.Cls]
		k[o.Cls]++
		p := o.Path
		if o.Cls != "stdout" && o.Cls != "stderr" {
			p = abs(cwd, p)
		}
		if pick(o.Cls, p) {
			out = append(out, site{o.Cls, i, p, o.Ret})
		}
	}
	return out
}

func ended(res *run.Result) bool { return !res.Crashed() && res.Died() == "" }

// prepare runs the quiet base of a drawn command.
func prepare(e *Env, r Run) (Run, *run.Result, bool) {
	b := baseline(r)
	res, err := e.Exec(&b)
	if err != nil {
		panic(harness{err})
	}
	return b, res, ended(res) && res.Exit == 0
}

// harness carries an error of the machinery out of a generator.
type harness struct{ error }

func variant(r *rng.R, b Run) Run {
	v := b
	v.Role = "variant"
	w := World(r)
	w.Uid, w.Cwd = b.Spec.Uid, b.Spec.Cwd
	w.Files = append([]spec.File{}, b.Spec.Files...)
	w.Budget, w.MaxAlloc, w.MaxTotal = b.Spec.Budget, b.Spec.MaxAlloc, b.Spec.MaxTotal
	v.Spec = w
	c := *b.Cmd
	c.Flags = append([]string{}, b.Cmd.Flags...)
	v.Cmd = &c
	return v
}

func setFile(fs []spec.File, p string, data []byte) {
	for i := range fs {
		if fs[i].Path == p {
			fs[i].Data = data
		}
	}
}

func getFile(fs []spec.File, p string) []byte {
	for i := range fs {
		if fs[i].Path == p {
			return fs[i].Data
		}
	}
	return nil
}

func chatty(c *Cmd) bool {
	for _, f := range c.Flags {
		if f == "--verbose" || f == "--debug" {
			return true
		}
	}
	return false
}

func quiet(c *Cmd) {
	var f []string
	for _, x := range c.Flags {
		if x != "--verbose" && x != "--debug" {
			f = append(f, x)
		}
	}
	c.Flags = f
}

// contents is what the command was asked to produce: its output files by role
// and, if that is where the output goes, standard output.
func contents(c *Cmd, cwd string, res *run.Result) map[string]string {
	out := outputs(c, cwd, res.FS)
	if !c.Split && c.Dest() != "" {
		out = map[string]string{}
		if _, _, n, e := res.FS.Walk(simfs.Root, abs(cwd, c.Dest()), 0, true); e == "" && n != nil && n.Kind == simfs.File {
			out["the output file"] = string(n.Data)
		}
	}
	if c.Stdout() && !chatty(c) {
		out["standard output"] = string(res.Stdout)
	}
	return out
}

// covers: everything in want is in got, with the same content.
func covers(want, got map[string]string) string {
	g := map[string]string{}
	for k := range want {
		if v, ok := got[k]; ok {
			g[k] = v
		}
	}
	return sameOutputs(want, g)
}

func asked(c *Cmd, cwd string, want, got map[string]string) string {
	if c.Split {
		return covers(want, got)
	}
	return sameOutputs(want, got)
}

// ---- C02

func init() {
	register(&Prop{ID: "C02", New: newC02, Check: checkC02,
		Rule: "An input that is accepted when complete is read again with a failure or a premature end at a drawn byte: by the library from a failing reader, or by a command from a file whose reads fail (EIO, ESTALE ...), end early or were stored truncated, also after short reads, and also for --templates. Non-trivial: the failure was delivered; distinct: by scheduling decisions and system calls."})
}

func newC02(e *Env, r *rng.R) *Case {
	if r.P(45) {
		op := rng.Pick(r, readOps...)
		in := anyInput(r, op, 0, true)
		c := &Case{Kind: "lib " + op}
		c.Runs = append(c.Runs, libRun("base", Plain(), readScenario(op, in, nil)))
		for i := r.Range(3, 8); i > 0; i-- {
			st := delivery(r)
			if op != "asmtext" && r.P(45) {
				st.Cut = 1 + min(len(in)-1, somewhere(r, in))
			} else {
				st.Fail, st.Err, st.With = 1+somewhere(r, in), rng.Pick(r, streamErrors...), r.P(30)
			}
			c.Runs = append(c.Runs, libRun("variant", World(r), readScenario(op, in, st)))
		}
		return c
	}
	base := cliRun(r)
	b, res, ok := prepare(e, base)
	c := &Case{Kind: "cli", Runs: []Run{b}}
	if !ok {
		return c
	}
	cwd := b.Spec.Cwd
	in := abs(cwd, b.Cmd.In)
	tm := "-"
	if b.Cmd.Tmpl != "" {
		tm = abs(cwd, b.Cmd.Tmpl)
	}
	reads := sites(res, cwd, func(cls, p string) bool { return cls == "read" && (p == in || p == tm) })
	opens := sites(res, cwd, func(cls, p string) bool { return cls == "open" && (p == in || p == tm) })
	for i := r.Range(2, 5); i > 0; i-- {
		v := variant(r, b)
		errno := rng.Pick(r, "EIO", "EIO", "ESTALE", "ENOMEM", "EACCES")
		early := b.Cmd.Format() != "text"
		switch k := r.N(10); {
		case k < 2 && early:
			d := getFile(v.Spec.Files, in)
			setFile(v.Spec.Files, in, d[:min(len(d)-1, somewhere(r, d))])
			v.Role = "truncated input"
		case k < 3 && len(opens) > 0:
			o := opens[r.N(len(opens))]
			v.Spec.Faults = []spec.Fault{{Cls: "open", Nth: o.nth, Kind: rng.Pick(r, "EIO", "EACCES", "EMFILE", "ENOENT", "ENFILE")}}
		case k < 6 && len(reads) > 0:
			s := reads[r.N(len(reads))]
			kind := errno
			if early && r.P(40) {
				kind = "eof"
			}
			v.Spec.Faults = []spec.Fault{{Cls: "read", Nth: s.nth, Kind: kind}}
		case len(reads) > 0:
			s := reads[r.N(len(reads))]
			kind := errno
			if early && r.P(40) {
				kind = "eof"
			}
			n := 1
			if s.n > 1 {
				n = r.Range(1, s.n-1)
			}
			v.Spec.Faults = []spec.Fault{{Cls: "read", Nth: s.nth, Kind: "short", Arg: int64(n)}}
			at := 1
			if r.P(30) {
				v.Spec.Faults = append(v.Spec.Faults, spec.Fault{Cls: "read", Nth: s.nth + 1, Kind: "short", Arg: int64(r.Range(1, 100))})
				at = 2
			}
			v.Spec.Faults = append(v.Spec.Faults, spec.Fault{Cls: "read", Nth: s.nth + at, Kind: kind})
		}
		c.Runs = append(c.Runs, v)
	}
	return c
}

func isInput(c *Cmd, cwd, p string) bool {
	p = abs(cwd, p)
	return p == abs(cwd, c.In) || (c.Tmpl != "" && p == abs(cwd, c.Tmpl))
}

func errnoKind(k string) bool { return len(k) > 1 && k[0] == 'E' && k != "EINTR" }

func checkC02(e *Env, c *Case) (*Violation, error) {
	base, err := e.Exec(&c.Runs[0])
	if err != nil {
		return nil, err
	}
	if !ended(base) {
		return nil, nil
	}
	if c.Runs[0].Bin == "lib" {
		b := results(base)
		op := strings.TrimPrefix(c.Kind, "lib ")
		k := [2]int{-1, mainOp(op)}
		if b[k].Err != "" || b[k].Panic != "" {
			return nil, nil // the complete input is not accepted
		}
		for i := range c.Runs[1:] {
			v := &c.Runs[1+i]
			res, err := e.Exec(v)
			if err != nil {
				return nil, err
			}
			x := results(res)[k]
			o := v.Lib.Setup[k[1]]
			if !x.Fired && o.R.Fail > 0 {
				continue
			}
			e.Probe("failure delivered: " + op)
			if died(res) != "" || x.Panic != "" {
				continue // C03
			}
			if x.Err == "" {
				if outcome(x) != outcome(b[k]) {
					return bad("c02 "+op+" differs", "%s succeeded with a result that differs from the complete input's: %s, not %s", opName(o), short(x), short(b[k])), nil
				}
				if o.R.Fail > 0 && o.R.Fail <= len(v.Lib.Inputs[o.In]) && op != "asmjson" {
					return bad("c02 "+op+" succeeds", "%s succeeded although its reader failed", opName(o)), nil
				}
				if op == "templates" {
					y, z := results(res)[[2]int{-1, 3}], b[[2]int{-1, 3}]
					if outcome(y) != outcome(z) {
						return bad("c02 templates differ", "%s succeeded, but what is then printed differs from what the complete template file gives", opName(o)), nil
					}
				}
			}
		}
		return nil, nil
	}
	if base.Exit != 0 {
		return nil, nil
	}
	want := contents(c.Runs[0].Cmd, c.Runs[0].Spec.Cwd, base)
	for i := range c.Runs[1:] {
		v := &c.Runs[1+i]
		res, err := e.Exec(v)
		if err != nil {
			return nil, err
		}
		if !ended(res) {
			continue
		}
		cwd := v.Spec.Cwd
		var hit string
		for _, f := range res.FiredAt {
			if (f.Cls == "read" || f.Cls == "open") && errnoKind(f.Kind) && isInput(v.Cmd, cwd, f.Path) {
				hit = f.Cls + " " + f.Kind
			}
		}
		if hit != "" {
			e.Probe("failure delivered: command")
		}
		word := v.Cmd.Word
		if res.Exit == 0 {
			if d := asked(v.Cmd, cwd, want, contents(v.Cmd, cwd, res)); d != "" {
				return bad("c02 "+word+" differs", "%s %s with a result that differs from the complete input's: %s", v.Role, describe(v, res), d), nil
			}
			if hit != "" {
				return bad("c02 "+word+" succeeds", "%s although reading its input failed (%s)", describe(v, res), hit), nil
			}
			continue
		}
		if !message(res, nil) {
			return bad("c02 "+word+" silent", "%s without a message", describe(v, res)), nil
		}
		if v.Cmd.Stdout() && !chatty(v.Cmd) {
			have := map[string]bool{}
			for _, l := range strings.Split(string(base.Stdout), "\n") {
				if l = strings.TrimSpace(l); len(l) > 8 {
					have[l] = true
				}
			}
			for _, l := range strings.Split(string(res.Stdout), "\n") {
				if l = strings.TrimSpace(l); have[l] {
					return bad("c02 "+word+" partial", "%s after printing part of the result (%q)", describe(v, res), clip(l)), nil
				}
			}
		}
	}
	return nil, nil
}

// ---- C03

func init() {
	register(&Prop{ID: "C03", New: newC03, Check: checkC03,
		Rule: "Stored inputs of every format are damaged in drawn ways (bits flipped, bytes overwritten, lost, duplicated or inserted, lengths and numbers made absurd, lines lost or repeated) and then used by a command or by every library operation that takes them, under a step budget and a memory limit in proportion to the input. Non-trivial: the input was damaged; distinct: by scheduling decisions and system calls."})
}

func newC03(e *Env, r *rng.R) *Case {
	c := &Case{Kind: "lib"}
	if r.P(30) {
		c.Kind = "cli"
		for i := r.Range(1, 3); i > 0; i-- {
			v := cliRun(r, "", "disassemble", "split", "export", "notes", "click", "transpose", "tsv", "assemble", "assemblejson", "humanise", "notes", "tsv", "click")
			in := abs(v.Spec.Cwd, v.Cmd.In)
			d, what := gen.Damage(r, getFile(v.Spec.Files, in), dfmt(v.Cmd.Format()))
			if v.Cmd.Tmpl != "" && r.P(40) {
				t, w := gen.DamageTemplates(r, getFile(v.Spec.Files, abs(v.Spec.Cwd, v.Cmd.Tmpl)))
				setFile(v.Spec.Files, abs(v.Spec.Cwd, v.Cmd.Tmpl), t)
				what = "templates: " + w
			} else {
				setFile(v.Spec.Files, in, d)
			}
			Limits(&v.Spec, size(v.Spec.Files)+500)
			v.Role = what
			c.Runs = append(c.Runs, v)
		}
		return c
	}
	sc := &spec.Scenario{}
	for i := r.Range(1, 4); i > 0; i-- {
		op := rng.Pick(r, "decode", "decode", "decode", "asmtext", "asmtext", "asmjson", "asmjson", "templates", "mfr")
		b, what := corrupt(r, op, source(r, formatOf(op)))
		c.Note = what
		sc.Inputs = append(sc.Inputs, b)
		in := len(sc.Inputs) - 1
		switch op {
		case "templates":
			sc.Inputs = append(sc.Inputs, referenceMIDI())
			sc.Setup = append(sc.Setup, spec.Op{Op: "newdis", Slot: 5}, spec.Op{Op: "templates", In: in, Slot: 5}, spec.Op{Op: "decode", In: in + 1, Slot: 5}, spec.Op{Op: "print", File: 5, Slot: 5})
		case "decode":
			sc.Setup = append(sc.Setup, spec.Op{Op: "decode", In: in, Slot: 1})
			for _, o := range []string{"validate", "print", "printmthd", "printmtrk", "export", "notes", "notesjson", "click", "encode", "transpose"} {
				x := spec.Op{Op: o, File: 1, Slot: 9}
				if o == "transpose" {
					x.N = rng.Pick(r, 1, -3, 12)
				}
				sc.Setup = append(sc.Setup, x)
			}
		default:
			sc.Setup = append(sc.Setup, spec.Op{Op: op, In: in, R: delivery(r)})
		}
	}
	settings(r, sc)
	c.Runs = []Run{libRun("damaged", World(r), sc)}
	return c
}

func checkC03(e *Env, c *Case) (*Violation, error) {
	for i := range c.Runs {
		v := &c.Runs[i]
		res, err := e.Exec(v)
		if err != nil {
			return nil, err
		}
		if res.Died() != "" {
			if v.Cmd != nil {
				return bad("c03 "+res.Sig(), "`%s` on damaged input (%s): %s", v.Cmd, v.Role, res.Sig()), nil
			}
			return bad("c03 "+res.Sig(), "library operations on damaged input (%s): %s", c.Note, res.Sig()), nil
		}
		for _, x := range res.Results {
			if x.Panic != "" {
				return bad("c03 "+x.Panic, "%s on damaged input (%s) panicked: %s", opName(v.Lib.Setup[x.I]), c.Note, clip(x.Panic)), nil
			}
		}
	}
	return nil, nil
}

// ---- C04

func init() {
	register(&Prop{ID: "C04", New: newC04, Check: checkC04,
		Rule: "A command that succeeds is run again with faults on its outputs only: failing creates, directory creation, writes (EIO, ENOSPC, EDQUOT, EFBIG, EPIPE, torn), closes (EIO, ENOSPC, EDQUOT, with and without losing what was written), a disk with too little free space, an output that is full; or a library operation writes to a writer that fails once or for good at a drawn byte. Non-trivial: an output fault fired; distinct: by scheduling decisions and system calls."})
}

var libWriters = []string{"print", "printmthd", "printmtrk", "encode", "export", "notes", "notesjson", "click"}

func newC04(e *Env, r *rng.R) *Case {
	if r.P(35) {
		c := &Case{Kind: "lib"}
		sc := &spec.Scenario{Inputs: [][]byte{source(r, "midi"), templates(r)}}
		sc.Setup = []spec.Op{{Op: "decode", In: 0, Slot: 1}}
		slot := 9
		if r.P(25) {
			slot = 1
			sc.Setup = append(sc.Setup, spec.Op{Op: "newdis", Slot: 1}, spec.Op{Op: "templates", In: 1, Slot: 1})
		}
		for i := r.Range(4, 10); i > 0; i-- {
			op := spec.Op{Op: rng.Pick(r, libWriters...), File: 1, Slot: slot, N: 0}
			op.W = &spec.Stream{Fail: 1 + rng.Pick(r, 0, r.N(20), r.N(200), r.N(2000), r.N(20000)), Err: rng.Pick(r, streamErrors...), Once: r.P(60), Yield: r.P(30)}
			sc.Setup = append(sc.Setup, op)
		}
		c.Runs = []Run{libRun("writers", World(r), sc)}
		return c
	}
	base := cliRun(r)
	if base.Cmd.Word == "transpose" && r.P(10) {
		base.Cmd.Out = "" // it is required
	}
	b, res, ok := prepare(e, base)
	c := &Case{Kind: "cli", Runs: []Run{b}}
	if !ok {
		return c
	}
	cwd := b.Spec.Cwd
	allowed := b.Cmd.Allowed(cwd)
	stdout := b.Cmd.Stdout()
	outs := sites(res, cwd, func(cls, p string) bool {
		if cls == "stdout" {
			return stdout
		}
		f, d := allowed(p)
		return f || d
	})
	total := 0
	for _, x := range outputs(b.Cmd, cwd, res.FS) {
		total += len(x)
	}
	for i := r.Range(2, 6); i > 0; i-- {
		v := variant(r, b)
		if r.P(30) {
			v.Spec.Files = earlier(r, v.Cmd, cwd, v.Spec.Uid, v.Spec.Files, nil)
		}
		switch k := r.N(12); {
		case k < 2 && total > 0:
			v.Spec.Free = int64(r.N(total))
		case k < 3 && v.Cmd.Dest() != "" && !v.Cmd.Split && total > 0:
			fs := v.Spec.Files[:0:0]
			for _, f := range v.Spec.Files {
				if f.Path != abs(cwd, v.Cmd.Dest()) {
					fs = append(fs, f)
				}
			}
			v.Spec.Files = append(fs, spec.File{Path: abs(cwd, v.Cmd.Dest()), Kind: "l", To: "/dev/full"})
		case len(outs) > 0:
			n := 1
			if r.P(15) {
				n = 2
			}
			for ; n > 0; n-- {
				byClass := map[string][]site{}
				var names []string
				for _, s := range outs {
					if byClass[s.cls] == nil {
						names = append(names, s.cls)
					}
					byClass[s.cls] = append(byClass[s.cls], s)
				}
				l := byClass[rng.Pick(r, names...)]
				s := l[r.N(len(l))]
				if r.P(20) {
					s = l[len(l)-1]
				}
				f := spec.Fault{Cls: s.cls, Nth: s.nth}
				switch s.cls {
				case "open":
					f.Kind = rng.Pick(r, "EACCES", "EIO", "ENOSPC", "EMFILE", "EROFS", "EDQUOT")
				case "write":
					f.Kind = rng.Pick(r, "EIO", "ENOSPC", "ENOSPC", "EDQUOT", "EFBIG", "torn", "torn")
				case "stdout":
					f.Kind = rng.Pick(r, "EIO", "ENOSPC", "EPIPE", "torn")
				case "close":
					f.Kind = rng.Pick(r, "EIO", "ENOSPC", "EDQUOT", "lost")
					f.Arg = int64(r.N(max(1, total)))
				case "mkdir":
					f.Kind = rng.Pick(r, "EACCES", "ENOSPC", "EROFS", "EIO")
				default:
					f.Kind = "EIO"
				}
				if f.Kind == "torn" {
					f.Arg = int64(r.N(max(1, s.n)))
				}
				if (s.cls == "write" || s.cls == "stdout") && s.n > 1 && r.P(25) {
					v.Spec.Faults = append(v.Spec.Faults, spec.Fault{Cls: s.cls, Nth: s.nth, Kind: "short", Arg: int64(r.Range(1, s.n-1))})
					f.Nth++
				}
				v.Spec.Faults = append(v.Spec.Faults, f)
			}
		}
		c.Runs = append(c.Runs, v)
	}
	return c
}

// printable: without --out and --split, the command prints the same.
func (c *Cmd) printable() bool {
	switch c.Word {
	case "", "disassemble":
		return c.Split && c.Tmpl == "" || !c.Split && c.Out != ""
	case "export", "notes", "click":
		return c.Out != ""
	case "tsv":
		return c.Out != "" && slices.Contains(c.Flags, "--tabular")
	}
	return false
}

// parts: the file, or the files of a divided disassembly together, hold all
// that is otherwise printed.
func parts(e *Env, b *Run, files map[string]string) (*Violation, error) {
	w := *b
	cmd := *b.Cmd
	cmd.Split, cmd.Out = false, ""
	w.Cmd = &cmd
	res, err := e.Exec(&w)
	if err != nil {
		return nil, err
	}
	if !ended(res) || res.Exit != 0 {
		return nil, nil
	}
	if !b.Cmd.Split {
		if d := sameOutputs(map[string]string{"the output file": string(res.Stdout)}, files); d != "" {
			return bad("c04 "+b.Cmd.Word+" printed", "%s exit 0, but without --out it prints something else: %s", describe(b, nil), d), nil
		}
		return nil, nil
	}
	have := map[string]int{}
	for _, x := range files {
		for _, l := range strings.Split(x, "\n") {
			have[strings.TrimSpace(l)]++
		}
	}
	for _, l := range strings.Split(string(res.Stdout), "\n") {
		if l = strings.TrimSpace(l); l != "" {
			if have[l]--; have[l] < 0 {
				return bad("c04 split parts", "%s exit 0, but its files do not hold the line %q of the undivided disassembly", describe(b, nil), clip(l)), nil
			}
		}
	}
	return nil, nil
}

func checkC04(e *Env, c *Case) (*Violation, error) {
	if c.Kind == "lib" {
		res, err := e.Exec(&c.Runs[0])
		if err != nil {
			return nil, err
		}
		for _, x := range res.Results {
			op := c.Runs[0].Lib.Setup[x.I]
			if x.Panic == "" && x.Fired && op.W != nil {
				e.Probe("writer failed: " + op.Op)
				if x.Err == "" {
					return bad("c04 lib "+op.Op, "%s reported success although its writer failed", opName(op)), nil
				}
			}
		}
		return nil, nil
	}
	base, err := e.Exec(&c.Runs[0])
	if err != nil {
		return nil, err
	}
	if !ended(base) || base.Exit != 0 {
		return nil, nil
	}
	want := contents(c.Runs[0].Cmd, c.Runs[0].Spec.Cwd, base)
	total := 0
	for _, x := range want {
		total += len(x)
	}
	if cmd := c.Runs[0].Cmd; len(want) == 0 && !(cmd.Stdout() && chatty(cmd)) {
		return bad("c04 nothing", "%s without producing anything", describe(&c.Runs[0], base)), nil
	}
	if cmd := c.Runs[0].Cmd; cmd.printable() && !chatty(cmd) {
		if v, err := parts(e, &c.Runs[0], want); v != nil || err != nil {
			return v, err
		}
	}
	for i := range c.Runs[1:] {
		v := &c.Runs[1+i]
		if total == 0 && slices.ContainsFunc(v.Spec.Files, func(f spec.File) bool { return f.To == "/dev/full" }) {
			continue // a full device refuses nothing when there is nothing to write
		}
		res, err := e.Exec(v)
		if err != nil {
			return nil, err
		}
		cwd := v.Spec.Cwd
		allowed := v.Cmd.Allowed(cwd)
		var hit string
		std, other := false, false
		for _, f := range res.FiredAt {
			fl, d := allowed(abs(cwd, f.Path))
			switch {
			case f.Cls == "stdout" || f.Cls == "stderr":
				std = true
				if v.Cmd.Stdout() && f.Cls == "stdout" && (errnoKind(f.Kind) || f.Kind == "torn") {
					hit = f.Cls + " " + f.Kind
				}
			case (fl || d) && (f.Cls == "open" || f.Cls == "write" || f.Cls == "close" || f.Cls == "mkdir"):
				if errnoKind(f.Kind) || f.Kind == "torn" || f.Kind == "lost" {
					hit = f.Cls + " " + f.Kind
				}
			case f.Kind != "short":
				other = true
			}
		}
		if hit != "" {
			e.Probe("output fault delivered")
		}
		if res.Died() != "" && !(std && res.Signal != "") {
			continue // C03
		}
		word := v.Cmd.Word
		if v.Cmd.Split {
			word = "split"
		}
		if res.Exit == 0 {
			if d := asked(v.Cmd, cwd, want, contents(v.Cmd, cwd, res)); d != "" {
				return bad("c04 "+word+" lost", "%s, but the output is not what a fault-free run stores: %s", describe(v, res), d), nil
			}
			if hit != "" && !other {
				return bad("c04 "+word+" "+hit, "%s although an operation on its output failed (%s)", describe(v, res), hit), nil
			}
			continue
		}
		if !std && !message(res, nil) {
			return bad("c04 "+word+" silent", "%s without a message", describe(v, res)), nil
		}
	}
	return nil, nil
}

// ---- C05

func init() {
	register(&Prop{ID: "C05", New: newC05, Check: checkC05,
		Rule: "A command is run again with drawn sequences of interrupted system calls, short reads and short writes, over existing outputs that are longer, shorter, empty or not readable, or with an output path that is the input under the same name, a hard link or a symbolic link. Non-trivial: a fault fired, or an output existed or aliased the input; distinct: by scheduling decisions and system calls."})
}

func newC05(e *Env, r *rng.R) *Case {
	base := cliRun(r)
	b, res, _ := prepare(e, base)
	c := &Case{Kind: "cli", Runs: []Run{b}}
	cwd := b.Spec.Cwd
	like := outputs(b.Cmd, cwd, res.FS)
	for i := r.Range(2, 5); i > 0; i-- {
		v := variant(r, b)
		k := r.N(10)
		if k < 3 && v.Cmd.Dest() != "" && !v.Cmd.Split {
			in := abs(cwd, v.Cmd.In)
			out := in
			for i := range v.Spec.Files {
				if v.Spec.Files[i].Path == in {
					v.Spec.Files[i].Mode |= 0o200
				}
			}
			switch r.N(4) {
			case 0:
				v.Role = "output is the input"
				v.Cmd.Out = rng.Pick(r, in, v.Cmd.In)
			case 1:
				out = "/w/hard" + path.Ext(v.Cmd.Dest())
				v.Spec.Files = append(v.Spec.Files, spec.File{Path: out, Kind: "h", To: in})
				v.Role = "output is a hard link to the input"
				v.Cmd.Out = out
			case 2:
				out = "/w/soft" + path.Ext(v.Cmd.Dest())
				v.Spec.Files = append(v.Spec.Files, spec.File{Path: out, Kind: "l", To: rng.Pick(r, in, strings.TrimPrefix(in, "/w/"))})
				v.Role = "output is a symbolic link to the input"
				v.Cmd.Out = out
			default:
				out = "/w/music/../" + strings.TrimPrefix(in, "/w/")
				v.Role = "output is the input by another path"
				v.Cmd.Out = out
			}
		} else if k < 8 {
			v.Spec.Files = earlier(r, v.Cmd, cwd, v.Spec.Uid, v.Spec.Files, like)
			v.Role = "existing output"
		}
		if r.P(75) {
			dense := r.P(40)
			for _, cls := range []string{"open", "read", "write", "stdout", "mkdir", "stat"} {
				m := res.Counts[cls]
				if m == 0 {
					continue
				}
				n := r.N(3)
				if dense {
					n = r.Range(1, min(40, 2*m+2))
				}
				for ; n > 0; n-- {
					f := spec.Fault{Cls: cls, Nth: r.N(m + 4), Kind: "EINTR"}
					if (cls == "read" || cls == "write" || cls == "stdout") && r.P(60) {
						f.Kind = "short"
						f.Arg = int64(rng.Pick(r, 1, 1, 2, r.Range(1, 20), r.Range(1, 600)))
					}
					v.Spec.Faults = append(v.Spec.Faults, f)
				}
			}
		} else if r.P(40) { // one call interrupted over and over
			cls := rng.Pick(r, "open", "read", "write", "stdout", "mkdir", "stat")
			if m := res.Counts[cls]; m > 0 {
				k := r.N(m)
				for n := rng.Pick(r, 4, 6, 11, 33, 101, 300); n > 0; n-- {
					v.Spec.Faults = append(v.Spec.Faults, spec.Fault{Cls: cls, Nth: k, Kind: "EINTR"})
					k++
				}
			}
		}
		c.Runs = append(c.Runs, v)
	}
	return c
}

func checkC05(e *Env, c *Case) (*Violation, error) {
	base, err := e.Exec(&c.Runs[0])
	if err != nil {
		return nil, err
	}
	if !ended(base) {
		return nil, nil
	}
	want := contents(c.Runs[0].Cmd, c.Runs[0].Spec.Cwd, base)
	for i := range c.Runs[1:] {
		v := &c.Runs[1+i]
		res, err := e.Exec(v)
		if err != nil {
			return nil, err
		}
		word := v.Cmd.Word
		if v.Cmd.Split {
			word = "split"
		}
		if d := res.Died(); d != "" {
			return bad("c05 "+word+" death", "%s: %s; undisturbed it exits %d", describe(v, nil), res.Sig(), base.Exit), nil
		}
		if res.Exit != base.Exit {
			return bad("c05 "+word+" exit", "%s (%s); undisturbed it exits %d: %s", describe(v, res), v.Role, base.Exit, clip(strings.TrimSpace(string(res.Stdout)+string(res.Stderr)))), nil
		}
		if base.Exit != 0 {
			continue
		}
		if d := asked(v.Cmd, v.Spec.Cwd, want, contents(v.Cmd, v.Spec.Cwd, res)); d != "" {
			return bad("c05 "+word+" output", "%s (%s): %s", describe(v, res), v.Role, d), nil
		}
	}
	return nil, nil
}

// ---- C06

func init() {
	register(&Prop{ID: "C06", New: newC06, Check: checkC06,
		Rule: "A command whose outputs exist from an earlier run is given an input that fails: missing, not permitted, a directory, an open or read error at a drawn point, truncated, damaged, or a template file that is missing, fails to read, does not parse or fails while it is executed; if the command fails the whole disk is compared with before. Non-trivial: the command failed; distinct: by scheduling decisions and system calls."})
}

func newC06(e *Env, r *rng.R) *Case {
	c := &Case{Kind: "cli"}
	for i := r.Range(2, 4); i > 0; i-- {
		v := cliRun(r)
		if v.Cmd.Format() == "midi" && (v.Cmd.Word == "" || v.Cmd.Word == "disassemble") && v.Cmd.Tmpl == "" && r.P(30) {
			v.Cmd.Tmpl = "t.json"
			v.Spec.Files = append(v.Spec.Files, spec.File{Path: abs(v.Spec.Cwd, "t.json"), Kind: "f", Mode: 0o644, Uid: v.Spec.Uid, Data: templates(r)})
		}
		cwd := v.Spec.Cwd
		in := abs(cwd, v.Cmd.In)
		if r.P(85) {
			v.Spec.Files = earlier(r, v.Cmd, cwd, v.Spec.Uid, v.Spec.Files, nil)
		}
		target := in
		if v.Cmd.Tmpl != "" && r.P(60) {
			target = abs(cwd, v.Cmd.Tmpl)
		}
		data := getFile(v.Spec.Files, target)
		drop := func() {
			var fs []spec.File
			for _, f := range v.Spec.Files {
				if f.Path != target {
					fs = append(fs, f)
				}
			}
			v.Spec.Files = fs
		}
		switch k := r.N(12); {
		case k == 0:
			drop()
			v.Role = "missing " + target
		case k == 1 && v.Spec.Uid != 0:
			for i := range v.Spec.Files {
				if v.Spec.Files[i].Path == target {
					v.Spec.Files[i].Mode = 0
				}
			}
			v.Role = "unreadable " + target
		case k == 2:
			drop()
			v.Spec.Files = append(v.Spec.Files, spec.File{Path: target, Kind: "d", Mode: 0o755, Uid: v.Spec.Uid})
			v.Role = "a directory in place of " + target
		case k == 3:
			v.Spec.Faults = []spec.Fault{{Cls: "open", Nth: r.N(2), Kind: rng.Pick(r, "EIO", "EMFILE")}}
			v.Role = "failing open"
			if v.Cmd.Tmpl == "" {
				v.Spec.Faults[0].Nth = 0
			}
		case k <= 5:
			v.Spec.Faults = []spec.Fault{{Cls: "read", Nth: 0, Kind: "short", Arg: int64(1 + r.N(max(1, len(data)-1)))}, {Cls: "read", Nth: 1 + r.N(3), Kind: rng.Pick(r, "EIO", "ESTALE", "eof")}}
			v.Role = "failing read"
		case k <= 7 && len(data) > 1:
			setFile(v.Spec.Files, target, data[:min(len(data)-1, somewhere(r, data))])
			v.Role = "truncated " + target
		case target != in && r.P(70):
			if r.P(40) {
				setFile(v.Spec.Files, target, badTemplates(r))
			} else {
				setFile(v.Spec.Files, target, failingTemplates(r))
			}
			v.Role = "failing templates"
		default:
			d, w := gen.Damage(r, data, dfmt(v.Cmd.Format()))
			setFile(v.Spec.Files, target, d)
			v.Role = target + " damaged: " + w
		}
		Limits(&v.Spec, size(v.Spec.Files)+500)
		c.Runs = append(c.Runs, v)
	}
	return c
}

// failingTemplates parse but fail when they are executed.
func failingTemplates(r *rng.R) []byte {
	name := rng.Pick(r, "trackname", "text", "noteon", "endoftrack", "tempo", "MTrk", "MThd", "event", "endoftrack", "MTrk")
	body := rng.Pick(r, `{{.NoSuchField}}`, `{{template \"nosuch\" .}}`, `{{index . 7}}`, `{{.Tag.X}}`, `x{{len 3}}`)
	return []byte(`{"templates": {"` + name + `": "` + body + `"}}`)
}

func checkC06(e *Env, c *Case) (*Violation, error) {
	for i := range c.Runs {
		v := &c.Runs[i]
		res, err := e.Exec(v)
		if err != nil {
			return nil, err
		}
		if res.Exit == 0 || res.Crashed() {
			continue
		}
		cwd := v.Spec.Cwd
		okInput := true // every fault hit the input, not the output
		for _, f := range res.FiredAt {
			if !isInput(v.Cmd, cwd, f.Path) {
				okInput = false
			}
		}
		if !okInput {
			continue
		}
		e.Probe("the command failed on its input")
		before, err := run.Populate(v.Spec.Files, v.Spec.Clock)
		if err != nil {
			return nil, err
		}
		allowed := v.Cmd.Allowed(cwd)
		seen := map[string]bool{}
		for _, p := range before.Paths() {
			seen[p] = true
			if d := changed(before.Must(p), res.FS.Must(p)); d != "" {
				return bad("c06 "+v.Cmd.Word+" damaged", "%s (%s): %s %s; it existed before", describe(v, res), v.Role, p, d), nil
			}
		}
		for _, p := range res.FS.Paths() {
			if !seen[p] {
				if _, dir := allowed(p); dir && res.FS.Must(p).Kind == simfs.Dir {
					continue
				}
				return bad("c06 "+v.Cmd.Word+" new", "%s (%s): %s was created", describe(v, res), v.Role, p), nil
			}
		}
	}
	return nil, nil
}

func changed(a, b *simfs.Inode) string {
	switch {
	case b == nil:
		return "is gone"
	case a.Kind != b.Kind:
		return "is of another kind"
	case a.Mode != b.Mode:
		return fmt.Sprintf("has mode %04o instead of %04o", b.Mode, a.Mode)
	case a.To != b.To:
		return "is a link to something else"
	case !bytes.Equal(a.Data, b.Data):
		return fmt.Sprintf("holds other contents (%d bytes instead of %d)", len(b.Data), len(a.Data))
	}
	return ""
}

// ---- C07

func init() {
	register(&Prop{ID: "C07", New: newC07, Check: checkC07,
		Rule: "A command runs on a disk with bystander files whose names resemble the input's and the output's, with faults on any system call or a kill at a drawn system call (in a write: after a drawn number of bytes); every single change of the disk is checked when it happens and the tree afterwards. Non-trivial: the command changed the disk or was killed; distinct: by scheduling decisions and system calls."})
}

func newC07(e *Env, r *rng.R) *Case {
	v := cliRun(r, "", "disassemble", "split", "split", "split", "export", "notes", "click", "transpose", "tsv", "assemble", "assemblejson", "humanise")
	cwd := v.Spec.Cwd
	if v.Cmd.Out != "" && !v.Cmd.Split && r.P(6) { // into a directory that is not there
		v.Cmd.Out = path.Join(path.Dir(v.Cmd.Out), rng.Pick(r, "nowhere", "no/where"), path.Base(v.Cmd.Out))
	} else if r.P(50) {
		v.Spec.Files = earlier(r, v.Cmd, cwd, v.Spec.Uid, v.Spec.Files, nil)
	}
	v.Spec.Files = bystanders(r, v.Cmd, cwd, v.Spec.Uid, v.Spec.Files)
	if n := smfTracks(getFile(v.Spec.Files, abs(cwd, v.Cmd.In))); v.Cmd.Split && n >= 0 && r.P(40) {
		// tracks of a piece that had more of them
		dir, b := path.Dir(abs(cwd, v.Cmd.In)), base(v.Cmd.In)
		if v.Cmd.Out != "" {
			dir, b = abs(cwd, v.Cmd.Out), base(v.Cmd.Out)
		}
		has := map[string]string{}
		for _, f := range v.Spec.Files {
			has[f.Path] = f.Kind
		}
		for k := n; k < n+r.Range(1, 3); k++ {
			if p := fmt.Sprintf("%s/%s-%d.MTrk", dir, b, k); has[dir] == "d" && has[p] == "" {
				v.Spec.Files = append(v.Spec.Files, spec.File{Path: p, Kind: "f", Mode: 0o644, Uid: v.Spec.Uid, Data: []byte("an earlier track")})
			}
		}
	}
	if r.P(15) {
		in := abs(cwd, v.Cmd.In)
		d, _ := gen.Damage(r, getFile(v.Spec.Files, in), dfmt(v.Cmd.Format()))
		setFile(v.Spec.Files, in, d)
	}
	Limits(&v.Spec, size(v.Spec.Files)+500)
	b := baseline(v)
	res, err := e.Exec(&b)
	if err != nil {
		panic(harness{err})
	}
	c := &Case{Kind: "cli", Runs: []Run{b}}
	for i := r.Range(2, 5); i > 0; i-- {
		v := variant(r, b)
		for k := r.Range(1, 2); k > 0; k-- {
			v.Spec.Faults = append(v.Spec.Faults, anyFault(r, res))
		}
		if r.P(15) {
			v.Spec.Free = int64(r.N(400))
		}
		c.Runs = append(c.Runs, v)
	}
	return c
}

// anyFault draws a fault at some system call of a run like res.
func anyFault(r *rng.R, res *run.Result) spec.Fault {
	if r.P(45) || len(res.Ops) == 0 {
		return spec.Fault{Cls: "any", Nth: r.N(len(res.Ops) + 2), Kind: "crash", Arg: int64(rng.Pick(r, 0, 1, r.N(30), r.N(500)))}
	}
	k := r.N(len(res.Ops))
	n := 0
	for i := 0; i < k; i++ {
		if res.Ops[i].Cls == res.Ops[k].Cls {
			n++
		}
	}
	f := spec.Fault{Cls: res.Ops[k].Cls, Nth: n}
	switch f.Cls {
	case "open":
		f.Kind = rng.Pick(r, "EIO", "EACCES", "EMFILE", "ENOSPC", "EINTR")
	case "read":
		f.Kind = rng.Pick(r, "EIO", "short", "eof", "EINTR")
		f.Arg = int64(1 + r.N(100))
	case "write":
		f.Kind = rng.Pick(r, "EIO", "ENOSPC", "torn", "short", "EINTR")
		f.Arg = int64(1 + r.N(100))
	case "stdout", "stderr":
		f.Kind = rng.Pick(r, "EIO", "EPIPE", "short")
		f.Arg = int64(1 + r.N(100))
	case "close":
		f.Kind = rng.Pick(r, "EIO", "ENOSPC", "lost")
		f.Arg = int64(r.N(100))
	case "mkdir":
		f.Kind = rng.Pick(r, "EACCES", "EIO", "ENOSPC")
	default:
		f.Kind = "EINTR"
	}
	return f
}

func checkC07(e *Env, c *Case) (*Violation, error) {
	for i := range c.Runs {
		v := &c.Runs[i]
		res, err := e.Exec(v)
		if err != nil {
			return nil, err
		}
		if len(res.Effects) > 0 {
			e.Probe("the command changed the disk")
		}
		if x := touched(v, res); x != nil {
			return x, nil
		}
	}
	return nil, nil
}

func touched(v *Run, res *run.Result) *Violation {
	cwd := v.Spec.Cwd
	f, err := run.Populate(v.Spec.Files, v.Spec.Clock)
	if err != nil {
		panic(harness{err})
	}
	allowed := v.Cmd.Allowed(cwd)
	if n := smfTracks(getFile(v.Spec.Files, abs(cwd, v.Cmd.In))); v.Cmd.Split && n >= 0 {
		// the files of tracks it does not have are not its outputs
		any := allowed
		allowed = func(p string) (bool, bool) {
			file, dir := any(p)
			if k := strings.LastIndex(p, "-"); file && strings.HasSuffix(p, ".MTrk") {
				if t, err := strconv.Atoi(strings.TrimSuffix(p[k+1:], ".MTrk")); err == nil && t >= n {
					return false, dir
				}
			}
			return file, dir
		}
	}
	type entry struct {
		dir  int
		name string
	}
	inodes := map[int]string{}    // protected inodes
	entries := map[entry]string{} // protected names
	out := map[int]bool{}
	for _, p := range f.Paths() {
		n := f.Must(p)
		if file, _ := allowed(p); file && n.Kind == simfs.File {
			out[n.Ino] = true
			continue
		}
		dir, name, _, _ := f.Walk(simfs.Root, p, 0, false)
		inodes[n.Ino] = p
		entries[entry{dir.Ino, name}] = p
	}
	for k := range out {
		delete(inodes, k)
	}
	inodes[simfs.Root] = "/"
	word := v.Cmd.Word
	for _, x := range res.Effects {
		hit := ""
		switch x.Op {
		case "write", "trunc", "chmod", "chown", "utime":
			if p, ok := inodes[x.Ino]; ok {
				n := f.Inodes[x.Ino]
				was := *n
				was.Data = append([]byte(nil), n.Data...)
				f.Apply(x)
				if !bytes.Equal(was.Data, n.Data) || was.Mode != n.Mode || was.Uid != n.Uid || (x.Op == "utime" && was.Mtime != n.Mtime) {
					hit = p
				} else {
					continue
				}
			}
		case "unlink":
			hit = entries[entry{x.Dir, x.Name}]
		case "rename":
			if hit = entries[entry{x.Ino, x.Name}]; hit == "" {
				hit = entries[entry{x.Dir, string(x.Data)}]
			}
		case "create", "link":
			hit = entries[entry{x.Dir, x.Name}]
		}
		if hit != "" {
			return bad("c07 "+word+" "+x.Op, "%s: %s, which is not an output, was changed (%s)", describe(v, res), hit, x.Op)
		}
		f.Apply(x)
	}
	if res.Crashed() || res.Died() != "" {
		return nil
	}
	before, _ := run.Populate(v.Spec.Files, v.Spec.Clock)
	for _, p := range res.FS.Paths() {
		if before.Must(p) != nil {
			continue
		}
		n := res.FS.Must(p)
		file, dir := allowed(p)
		if (file && n.Kind == simfs.File) || (dir && n.Kind == simfs.Dir) {
			continue
		}
		return bad("c07 "+word+" new", "%s: left %s behind, which is not an output", describe(v, res), p)
	}
	return nil
}

// ---- C08

func init() {
	register(&Prop{ID: "C08", New: newC08, Check: checkC08,
		Rule: "One command line on one set of inputs (one in six damaged) runs in 3 to 6 worlds that differ in goroutine schedule, map and hash seeds, select order, clock, process id, CPUs, environment, umask, user, working directory (with absolute paths), earlier outputs and, for output files, --verbose/--debug; exit status, standard output and output files are compared. Non-trivial: every world; distinct: by scheduling decisions and system calls."})
}

func newC08(e *Env, r *rng.R) *Case {
	b := cliRun(r)
	quiet(b.Cmd)
	b.Spec.Uid = 1000
	for i := range b.Spec.Files {
		if strings.HasPrefix(b.Spec.Files[i].Path, "/w") {
			b.Spec.Files[i].Uid = 1000
		}
	}
	b.Spec.Files = append(b.Spec.Files, spec.File{Path: "/elsewhere", Kind: "d", Mode: 0o755, Uid: 1000}, spec.File{Path: "/elsewhere/sub", Kind: "d", Mode: 0o755, Uid: 1000})
	b = baseline(b)
	cwd := b.Spec.Cwd
	absolute := r.P(50)
	talk := r.N(40) == 0 // help and version
	if talk {
		b.Cmd = &Cmd{Word: rng.Pick(r, "help", "help", "version"), In: rng.Pick(r, "", "nosuch", "help", "version", "disassemble", "assemble", "export", "notes", "click", "transpose", "tsv", "humanise")}
		absolute = false
	}
	if absolute {
		b.Cmd.In = abs(cwd, b.Cmd.In)
		if b.Cmd.Out != "" {
			b.Cmd.Out = abs(cwd, b.Cmd.Out)
		}
		if b.Cmd.Tmpl != "" {
			b.Cmd.Tmpl = abs(cwd, b.Cmd.Tmpl)
		}
	}
	if !talk && r.P(16) {
		in := abs(cwd, b.Cmd.In)
		d, w := gen.Damage(r, getFile(b.Spec.Files, in), dfmt(b.Cmd.Format()))
		setFile(b.Spec.Files, in, d)
		Limits(&b.Spec, size(b.Spec.Files)+500)
		b.Role = "base, damaged: " + w
	}
	if b.Cmd.Tmpl != "" && r.P(15) {
		setFile(b.Spec.Files, abs(cwd, b.Cmd.Tmpl), badTemplates(r))
	}
	c := &Case{Kind: "cli", Runs: []Run{b}}
	var like map[string]string
	if r.P(40) {
		res, err := e.Exec(&b)
		if err != nil {
			panic(harness{err})
		}
		like = outputs(b.Cmd, cwd, res.FS)
	}
	for i := r.Range(2, 5); i > 0; i-- {
		v := variant(r, b)
		v.Spec.Uid = rng.Pick(r, 0, 1000, 1000)
		v.Spec.Host = rng.Pick(r, "", "studio", "localhost")
		v.Spec.Std = rng.Pick(r, "", "nnn", "ttt", "ppp", "fff", "tft", "tpt", "ntt")
		if r.P(20) {
			v.Spec.Stdin = rng.Pick(r, []byte("y\n"), []byte("\n"), getFile(v.Spec.Files, abs(cwd, v.Cmd.In)))
		}
		if r.P(20) {
			v.Spec.EnvAny = rng.Pick(r, "1", "true", "0", "/w/in.txt", "-v")
		}
		if r.P(30) {
			v.Spec.Files = append(v.Spec.Files, zones(r)...)
		}
		if r.P(30) {
			at := rng.Pick[int64](r, 1, 1<<62, v.Spec.Clock, v.Spec.Clock+3600e9)
			for i := range v.Spec.Files {
				if isInput(v.Cmd, cwd, v.Spec.Files[i].Path) {
					v.Spec.Files[i].Mtime = at
				}
			}
		}
		if absolute && r.P(60) {
			v.Spec.Cwd = rng.Pick(r, "/", "/tmp", "/elsewhere/sub")
		}
		if r.P(40) {
			v.Spec.Files = earlier(r, v.Cmd, cwd, 1000, v.Spec.Files, like)
		}
		if !v.Cmd.Stdout() && r.P(20) {
			v.Cmd.Flags = append(v.Cmd.Flags, rng.Pick(r, "--verbose", "--debug"))
		}
		if r.P(25) {
			v.Spec.Files = lookedFor(e, r, v)
		}
		c.Runs = append(c.Runs, v)
	}
	return c
}

// lookedFor adds to the disk what the command looks for and does not find,
// other than its inputs and outputs.
func lookedFor(e *Env, r *rng.R, v Run) []spec.File {
	res, err := e.Exec(&v)
	if err != nil {
		panic(harness{err})
	}
	fs := v.Spec.Files
	allowed := v.Cmd.Allowed(v.Spec.Cwd)
	seen := map[string]bool{}
	for _, o := range res.Ops {
		p := abs(v.Spec.Cwd, o.Path)
		file, dir := allowed(p)
		if o.Err != syscall.ENOENT.Error() || o.Path == "" || seen[p] || file || dir || isInput(v.Cmd, v.Spec.Cwd, p) {
			continue
		}
		seen[p] = true
		if d := path.Dir(p); d != "/" {
			fs = mkdirs(fs, d, v.Spec.Uid)
		}
		fs = append(fs, spec.File{Path: p, Kind: "f", Mode: 0o644, Uid: v.Spec.Uid,
			Data: rng.Pick(r, []byte{}, []byte("1\n"), []byte("{}"), []byte("c4: true\ndebug: true\n"), templates(r), getFile(fs, abs(v.Spec.Cwd, v.Cmd.In)))})
		e.Probe("something the command looked for was put there")
	}
	return fs
}

func checkC08(e *Env, c *Case) (*Violation, error) {
	base, err := e.Exec(&c.Runs[0])
	if err != nil {
		return nil, err
	}
	if !ended(base) {
		return nil, nil
	}
	b := &c.Runs[0]
	want := outputs(b.Cmd, b.Spec.Cwd, base.FS)
	for i := range c.Runs[1:] {
		v := &c.Runs[1+i]
		res, err := e.Exec(v)
		if err != nil {
			return nil, err
		}
		word := v.Cmd.Word
		if v.Cmd.Split {
			word = "split"
		}
		if d := res.Died(); d != "" {
			return bad("c08 "+word+" death", "`%s`: %s; in another world it exits %d", v.Cmd, res.Sig(), base.Exit), nil
		}
		if res.Exit != base.Exit {
			return bad("c08 "+word+" exit", "`%s` exits %d; in another world (%s) %d: %s", v.Cmd, res.Exit, worldDiff(b, v), base.Exit, clip(strings.TrimSpace(string(res.Stdout)+string(base.Stdout)))), nil
		}
		if !chatty(v.Cmd) && !bytes.Equal(res.Stdout, base.Stdout) {
			k := common(string(base.Stdout), string(res.Stdout))
			return bad("c08 "+word+" stdout", "`%s` prints different things in different worlds (%s), from byte %d on: %q / %q", v.Cmd, worldDiff(b, v), k, around(base.Stdout, k), around(res.Stdout, k)), nil
		}
		if base.Exit != 0 {
			continue
		}
		if d := asked(v.Cmd, v.Spec.Cwd, want, outputs(v.Cmd, v.Spec.Cwd, res.FS)); d != "" {
			return bad("c08 "+word+" output", "`%s` writes different output in different worlds (%s): %s", v.Cmd, worldDiff(b, v), d), nil
		}
	}
	return nil, nil
}

func around(b []byte, k int) string {
	return string(b[max(0, k-30):min(len(b), k+30)])
}

func worldDiff(a, b *Run) string {
	var s []string
	add := func(d bool, x string) {
		if d {
			s = append(s, x)
		}
	}
	x, y := &a.Spec, &b.Spec
	add(x.Sched.Seed != y.Sched.Seed || len(y.Sched.Picks) > 0 || len(y.Sched.Yields) > 0 || x.Sched.Explicit != y.Sched.Explicit, "schedule")
	add(x.Rand != y.Rand, "hash seeds")
	add(x.Clock != y.Clock, "clock")
	add(x.Pid != y.Pid, "pid")
	add(x.NCPU != y.NCPU, "CPUs")
	add(x.Uid != y.Uid, "user")
	add(x.Umask != y.Umask, "umask")
	add(x.Cwd != y.Cwd, "working directory")
	add(strings.Join(x.Env, " ") != strings.Join(y.Env, " "), "environment")
	add(x.EnvAny != y.EnvAny, "an environment variable")
	add(x.Host != y.Host, "host name")
	add(x.Std != y.Std, "what the standard streams are")
	add(len(x.Files) != len(y.Files), "other files on the disk")
	add(a.Cmd.String() != b.Cmd.String(), "verbosity")
	return strings.Join(s, ", ")
}
