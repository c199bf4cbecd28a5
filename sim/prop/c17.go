package prop

import (
	"fmt"
	"path"
	"reflect"
	"strings"

	"midisim/rng"
	"midisim/run"
	"midisim/simfs"
	"midisim/spec"
)

// Turn: process Who makes N system calls (0: runs to its end; Kill: dies there).
type Turn struct {
	Who  int  `json:"who"`
	N    int  `json:"n,omitempty"`
	Kill bool `json:"kill,omitempty"`
}

func init() {
	register(&Prop{ID: "C17", New: newC17, Check: checkC17,
		Rule: "Two or three commands with different outputs, often the same input or directories, run at the same time on one disk; a drawn plan decides after how many system calls each is set aside for another, and may kill one. Each other command's exit status and outputs are compared with the same command alone. Non-trivial: a process was set aside between its first and last system call; distinct: by scheduling decisions and system calls."})
}

// proc is one of several processes on one disk. Its execution is built up by
// running it again from the start with what the others have done so far.
type proc struct {
	run    Run
	others []spec.Other
	pos    int            // system calls made
	own    []simfs.Effect // effects made
	done   bool
	killed bool
	res    *run.Result
}

// together executes the plan and gives each process's last execution and the
// disk at the end.
func together(e *Env, runs []Run, files []spec.File, plan []Turn) ([]*proc, *simfs.FS, int, error) {
	ps := make([]*proc, len(runs))
	for i := range runs {
		ps[i] = &proc{run: runs[i]}
		ps[i].run.Spec.Files = files
		ps[i].run.Spec.Clock = runs[0].Spec.Clock // one machine
		Limits(&ps[i].run.Spec, size(files)+500)
	}
	disk, err := run.Populate(files, runs[0].Spec.Clock)
	if err != nil {
		return nil, nil, 0, err
	}
	switches := 0
	turn := func(t Turn) error {
		p := ps[t.Who]
		if p.done {
			return nil
		}
		x := p.run
		x.Spec.Others = p.others
		to := p.pos + t.N
		if t.N > 0 {
			x.Spec.Faults = []spec.Fault{{Cls: "any", Nth: to, Kind: "pause"}}
			if t.Kill {
				x.Spec.Faults[0].Kind = "crash"
			}
		}
		res, err := e.Exec(&x)
		if err != nil {
			return err
		}
		if d := effectDiff(p.own, res.Effects); d != "" {
			return fmt.Errorf("simulator: a repeated prefix made other changes: %s", d)
		}
		now := res.Effects[len(p.own):]
		p.own = res.Effects
		p.pos = to
		p.res = res
		p.done = !res.Crashed()
		if res.Crashed() {
			switches++
			if t.Kill {
				p.done, p.killed = true, true
			}
		}
		for _, y := range now {
			disk.Apply(y)
		}
		if len(now) > 0 {
			for i, q := range ps {
				if i != t.Who && !q.done {
					q.others = append(q.others, spec.Other{At: q.pos, Effects: now})
				}
			}
		}
		return nil
	}
	for _, t := range plan {
		if t.Who < len(ps) {
			if err := turn(t); err != nil {
				return nil, nil, 0, err
			}
		}
	}
	for i := range ps {
		if err := turn(Turn{Who: i}); err != nil {
			return nil, nil, 0, err
		}
	}
	return ps, disk, switches, nil
}

func newC17(e *Env, r *rng.R) *Case {
	uid := rng.Pick(r, 0, 1000)
	n := rng.Pick(r, 2, 2, 2, 3)
	c := &Case{Kind: "together"}
	files := []spec.File{
		{Path: "/w", Kind: "d", Mode: 0o755, Uid: uid}, {Path: "/tmp", Kind: "d", Mode: 0o777},
		{Path: "/dev", Kind: "d", Mode: 0o755}, {Path: "/dev/null", Kind: "n", Mode: 0o666},
		{Path: "/w/music", Kind: "d", Mode: 0o755, Uid: uid}, {Path: "/w/o", Kind: "d", Mode: 0o755, Uid: uid},
	}
	have := map[string]bool{}
	put := func(p string, data func() []byte) {
		if !have[p] {
			have[p] = true
			files = append(files, spec.File{Path: p, Kind: "f", Mode: 0o644, Uid: uid, Data: data()})
		}
	}
	var first *Cmd
	for i := 0; i < n; i++ {
		cmd := drawCmd(r)
		if r.P(15) {
			cmd = drawCmd(r, "split")
		}
		if first != nil && r.P(50) { // the same job on the same or another file
			x := *first
			cmd = &x
		}
		if first == nil {
			first = cmd
		}
		name := rng.Pick(r, "in", "song", "take 2")
		cmd.In = rng.Pick(r, "", "/w/", "./") + name + path.Ext(cmd.In)
		if cmd.Tmpl != "" {
			cmd.Tmpl = "t.json"
		}
		switch {
		case cmd.Split:
			cmd.Out = fmt.Sprintf(rng.Pick(r, "parts%d", "new/parts%d", "new/deep/%d", "/w/o/p%d"), i)
		case cmd.Dest() != "":
			cmd.Out = fmt.Sprintf(rng.Pick(r, "out%d", "o/out%d", "/w/out%d", "music/%d"), i) + path.Ext(cmd.Dest())
		}
		s := World(r)
		s.Uid = uid
		s.Cwd = "/w"
		s.Pid = 1000 + 17*i + r.N(10)
		put(abs("/w", cmd.In), func() []byte { return source(r, cmd.Format()) })
		if cmd.Tmpl != "" {
			put("/w/t.json", func() []byte { return templates(r) })
		}
		c.Runs = append(c.Runs, Run{Role: "process", Bin: "cli", Cmd: cmd, Spec: s, Keep: i > 0})
	}
	c.Runs[0].Spec.Files = files
	// where the system calls are; most changes to the disk come last
	left := make([]int, n)
	mk := make([]int, n) // the first mkdir
	for i := range c.Runs {
		b := c.Runs[i]
		b.Spec.Files = files
		Limits(&b.Spec, size(files)+500)
		res, err := e.Exec(&b)
		if err != nil {
			panic(harness{err})
		}
		left[i] = len(res.Ops)
		for k, o := range res.Ops {
			if o.Cls == "mkdir" {
				mk[i] = k
				break
			}
		}
	}
	for i := r.Range(1, 6); i > 0; i-- {
		k := r.N(n)
		m := rng.Pick(r, 1, 1, 2, 3, r.Range(1, max(1, left[k])))
		if r.P(50) && left[k] > 1 {
			m = max(1, left[k]-r.N(12))
		}
		if mk[k] > 0 && r.P(50) { // between looking for a directory and making it
			m = max(1, mk[k]-rng.Pick(r, -2, -1, 0, 0, 1, 2))
			mk[k] = 0
		}
		left[k] -= m
		c.Plan = append(c.Plan, Turn{Who: k, N: m})
	}
	if r.P(25) {
		c.Plan[r.N(len(c.Plan))].Kill = true
	}
	return c
}

func checkC17(e *Env, c *Case) (*Violation, error) {
	files := c.Runs[0].Spec.Files
	want := make([]*run.Result, len(c.Runs))
	for i := range c.Runs {
		b := c.Runs[i]
		b.Role = "alone"
		b.Spec = Plain()
		b.Spec.Uid = c.Runs[i].Spec.Uid
		b.Spec.Files = files
		Limits(&b.Spec, size(files)+500)
		res, err := e.Exec(&b)
		if err != nil {
			return nil, err
		}
		if !ended(res) {
			return nil, nil // C03
		}
		want[i] = res
	}
	ps, disk, switches, err := together(e, c.Runs, files, c.Plan)
	if err != nil {
		return nil, err
	}
	if switches > 0 {
		e.Probe("commands overlapped")
	}
	var names []string
	for i := range c.Runs {
		names = append(names, "`"+c.Runs[i].Cmd.String()+"`")
	}
	for i, p := range ps {
		if p.killed {
			e.Probe("one of them was killed")
			continue
		}
		v := &c.Runs[i]
		word := v.Cmd.Word
		if v.Cmd.Split {
			word = "split"
		}
		if d := p.res.Died(); d != "" {
			return bad("c17 "+word+" death", "%s at the same time: %s: %s; alone it exits %d", strings.Join(names, " and "), names[i], p.res.Sig(), want[i].Exit), nil
		}
		if p.res.Exit != want[i].Exit {
			return bad("c17 "+word+" exit", "%s at the same time: %s exits %d; alone %d: %s", strings.Join(names, " and "), names[i], p.res.Exit, want[i].Exit, clip(strings.TrimSpace(string(p.res.Stdout)))), nil
		}
		if want[i].Exit != 0 {
			continue
		}
		final := *p.res
		final.FS = disk
		if d := asked(v.Cmd, "/w", contents(v.Cmd, "/w", want[i]), contents(v.Cmd, "/w", &final)); d != "" {
			return bad("c17 "+word+" output", "%s at the same time: after %s, %s", strings.Join(names, " and "), names[i], d), nil
		}
	}
	return nil, nil
}

func effectDiff(a, b []simfs.Effect) string {
	for i := range a {
		if i >= len(b) {
			return fmt.Sprintf("%d, not %d", len(b), len(a))
		}
		if !reflect.DeepEqual(a[i], b[i]) {
			return fmt.Sprintf("%d: %.200q, not %.200q", i, fmt.Sprint(b[i]), fmt.Sprint(a[i]))
		}
	}
	return ""
}
