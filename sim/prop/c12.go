package prop

import (
	"fmt"
	"strings"

	"midisim/rng"
	"midisim/run"
	"midisim/simfs"
	"midisim/spec"
)

// PowerCut: after the run the power fails; what was not synced may be lost.
type PowerCut struct {
	Seed uint64 `json:"seed"`
}

// survive is the disk after a power cut: of each file's changes that were not
// synced all, none, a prefix, any subset or only the length may have reached the disk, and a
// file created and not synced may not exist.
func survive(cut *PowerCut, files []spec.File, clock int64, res *run.Result) (*simfs.FS, error) {
	f, err := run.Populate(files, clock)
	if err != nil {
		return nil, err
	}
	type fate struct{ how, n int }
	fates := map[int]*fate{}
	count := map[int]int{}
	seen := map[int]int{}
	for _, ino := range res.EffIno {
		count[ino]++
	}
	gone := []simfs.Effect{}
	for i, x := range res.Effects {
		ino := res.EffIno[i]
		ft := fates[ino]
		if ft == nil {
			r := rng.New(rng.Derive(cut.Seed, fmt.Sprint(ino)))
			ft = &fate{r.N(6), r.N(count[ino] + 1)}
			fates[ino] = ft
		}
		k := seen[ino]
		seen[ino]++
		keep := true
		if i >= res.Synced[ino] && (x.Op == "write" || x.Op == "trunc") {
			switch ft.how {
			case 0:
				keep = false
			case 1, 2:
				keep = k < ft.n
			case 3:
				keep = rng.Derive(cut.Seed, fmt.Sprint(ino, k))%2 == 0
			}
			if x.Op == "write" && ft.how == 5 { // the length reached the disk, the data did not
				x.Data = make([]byte, len(x.Data))
			}
			if x.Op == "write" && keep && ft.how == 2 && k == ft.n-1 && len(x.Data) > 1 { // torn
				x.Data = x.Data[:1+rng.Derive(cut.Seed, "torn")%uint64(len(x.Data)-1)]
			}
		}
		if x.Op == "create" && x.Kind == simfs.File && res.Synced[ino] == 0 && ft.how == 0 && ft.n%2 == 0 {
			gone = append(gone, x)
		}
		if keep {
			f.Apply(x)
		}
	}
	for _, x := range gone {
		if d := f.Inodes[x.Dir]; d != nil && d.Kids[x.Name] != 0 {
			f.Apply(simfs.Effect{Op: "unlink", Dir: x.Dir, Name: x.Name})
		}
	}
	return f, nil
}

func init() {
	register(&Prop{ID: "C12", New: newC12, Check: checkC12,
		Rule: "A history of 3 to 9 commands on one disk, whose outputs are inputs and earlier outputs of one another; drawn commands are killed at a drawn system call (in a write: after a drawn number of bytes), hit by output or input faults or followed by a power cut that loses unsynced changes, and often run again; each command without a fault, and each that exits 0, is compared with the same command in a quiet world on a fresh disk holding only its inputs. Non-trivial: a command was killed, failed on a fault or lost data; distinct: by scheduling decisions and system calls."})
}

func historyCmd(r *rng.R) *Cmd {
	c := &Cmd{Word: rng.Pick(r, "", "disassemble", "split", "split", "export", "notes", "click", "transpose", "transpose", "tsv", "assemble", "assemble", "assemblejson")}
	in := func(xs ...string) string { return rng.Pick(r, xs...) }
	c.In = in("a.mid", "a.mid", "t1.mid", "t2.mid")
	switch c.Word {
	case "", "disassemble":
		c.Out = in("d1.txt", "d2.txt")
		if r.P(20) {
			c.Tmpl = "t.json"
		}
	case "split":
		c.Word = "disassemble"
		c.Split = true
		c.Out = in("parts", "", "deep/parts")
	case "export":
		c.Out = in("e1.json", "e2.json")
	case "notes":
		c.Out = "n.txt"
		if r.P(40) {
			c.Flags = []string{"--json"}
		}
	case "click":
		c.Out = "c.txt"
	case "transpose":
		c.Flags = []string{"--semitones", in("2", "-3", "7", "0")}
		c.Out = in("t1.mid", "t2.mid")
	case "tsv":
		c.Out = "x.tsv"
	case "assemble":
		c.In = in("a.txt", "a.txt", "d1.txt", "d2.txt")
		c.Out = in("t1.mid", "t2.mid")
	case "assemblejson":
		c.Word = "assemble"
		c.In = in("a.json", "e1.json", "e2.json")
		c.Out = in("t1.mid", "t2.mid")
	}
	return c
}

func newC12(e *Env, r *rng.R) *Case {
	c := &Case{Kind: "history"}
	uid := rng.Pick(r, 0, 1000)
	files := []spec.File{
		{Path: "/w", Kind: "d", Mode: 0o755, Uid: uid}, {Path: "/tmp", Kind: "d", Mode: 0o777},
		{Path: "/w/a.mid", Kind: "f", Mode: 0o644, Uid: uid, Data: source(r, "midi")},
		{Path: "/w/a.txt", Kind: "f", Mode: 0o644, Uid: uid, Data: source(r, "text")},
		{Path: "/w/a.json", Kind: "f", Mode: 0o644, Uid: uid, Data: source(r, "json")},
		{Path: "/w/t.json", Kind: "f", Mode: 0o644, Uid: uid, Data: templates(r)},
	}
	n := r.Range(3, 7)
	again, change := 45, 25
	if r.P(35) { // one command over and over, its input changing
		again, change = 90, 60
	}
	var last *Cmd
	disk := files
	for i := 0; i < n; i++ {
		cmd := historyCmd(r)
		switch {
		case last == nil:
		case r.P(again):
			cmd = last
		case r.P(30): // the same output from another input
			for try := 0; try < 20 && (cmd.Word != last.Word || cmd.Split != last.Split || cmd.Format() != last.Format()); try++ {
				cmd = historyCmd(r)
			}
			if cmd.Word == last.Word && cmd.Split == last.Split && cmd.Format() == last.Format() {
				cmd.Out = last.Out
			}
		}
		last = cmd
		s := World(r)
		s.Uid = uid
		s.Umask = 0o022
		if i == 0 {
			s.Files = files
		}
		v := Run{Role: "step", Bin: "cli", Cmd: cmd, Spec: s, Keep: i > 0}
		if i > 0 && r.P(change) {
			v.Edit = edit(r, cmd, s.Clock, disk)
			disk = edited(&v, disk)
		}
		// a trial tells where the system calls are
		trial := v
		trial.Spec.Files = disk
		Limits(&trial.Spec, size(disk)+500)
		res, err := e.Exec(&trial)
		if err != nil {
			panic(harness{err})
		}
		if i < n-1 && r.P(60) {
			for k := r.Range(1, 2); k > 0; k-- {
				f := anyFault(r, res)
				if n := len(res.Ops); f.Kind == "crash" && n > 3 && r.P(50) { // where outputs are written
					f.Nth = n - 1 - r.N(min(n, 12))
				}
				if f.Kind != "eof" {
					v.Spec.Faults = append(v.Spec.Faults, f)
				}
			}
			if r.P(15) {
				v.Spec.Free = int64(r.N(600))
			}
		}
		if i < n-1 && r.P(35) {
			v.Cut = &PowerCut{r.U64() >> 1}
		}
		c.Runs = append(c.Runs, v)
		next, _, err := step(e, &v, disk)
		if err != nil {
			panic(harness{err})
		}
		disk = next
	}
	// the last command once more, undisturbed
	if last != nil && r.P(80) {
		s := World(r)
		s.Uid = uid
		s.Umask = 0o022
		v := Run{Role: "step", Bin: "cli", Cmd: last, Spec: s, Keep: true}
		if r.P(change) {
			v.Edit = edit(r, last, s.Clock, disk)
		}
		c.Runs = append(c.Runs, v)
	}
	return c
}

// edit is the user changing the command's input between two runs: to another
// piece or in one place only, now, or by a clock that is behind, or keeping
// the time of the old one.
func edit(r *rng.R, c *Cmd, clock int64, disk []spec.File) []spec.File {
	in := abs("/w", c.In)
	for _, f := range disk {
		if f.Path != in || f.Kind != "f" {
			continue
		}
		kind := map[string]string{"midi": "midi", "text": "text", "json": "json"}[c.Format()]
		if kind == "" {
			continue
		}
		switch {
		case len(f.Data) > 0 && r.P(35):
			f.Data = append([]byte{}, f.Data...)
			for k := 0; k < 50; k++ { // one digit, or one data byte
				i := r.N(len(f.Data))
				if kind != "midi" && (f.Data[i] < '0' || f.Data[i] > '9') {
					continue
				}
				f.Data[i] ^= 1
				break
			}
		default:
			f.Data = source(r, kind)
		}
		switch r.N(4) {
		case 0:
			f.Mtime = clock
		case 1:
			f.Mtime = clock - 86400e9
		case 2:
			f.Mtime = clock + 86400e9
		}
		return []spec.File{f}
	}
	return nil
}

// edited is the disk after the user's changes.
func edited(v *Run, disk []spec.File) []spec.File {
	if len(v.Edit) == 0 {
		return disk
	}
	disk = append([]spec.File{}, disk...)
	for _, e := range v.Edit {
		for i := range disk {
			if disk[i].Path == e.Path {
				disk[i] = e
			}
		}
	}
	return disk
}

// step runs v on the disk and gives the disk it leaves.
func step(e *Env, v *Run, disk []spec.File) ([]spec.File, *run.Result, error) {
	x := *v
	x.Spec.Files = disk
	Limits(&x.Spec, size(disk)+500)
	res, err := e.Exec(&x)
	if err != nil {
		return nil, nil, err
	}
	f := res.FS
	if v.Cut != nil {
		if f, err = survive(v.Cut, disk, v.Spec.Clock, res); err != nil {
			return nil, nil, err
		}
	}
	return run.Files(f), res, nil
}

// alone is the same command in a quiet world on a fresh disk that holds only
// the inputs it has now.
func alone(v *Run, disk []spec.File) Run {
	b := *v
	b.Role = "alone"
	b.Cut = nil
	b.Spec = Plain()
	b.Spec.Uid = v.Spec.Uid
	b.Spec.Files = []spec.File{{Path: "/w", Kind: "d", Mode: 0o755, Uid: v.Spec.Uid}, {Path: "/tmp", Kind: "d", Mode: 0o777}}
	for _, f := range disk {
		if f.Kind == "f" && isInput(v.Cmd, "/w", f.Path) {
			b.Spec.Files = append(b.Spec.Files, f)
		}
	}
	Limits(&b.Spec, size(disk)+500)
	return b
}

func checkC12(e *Env, c *Case) (*Violation, error) {
	if len(c.Runs) == 0 {
		return nil, nil
	}
	disk := c.Runs[0].Spec.Files
	var story []string
	for i := range c.Runs {
		v := &c.Runs[i]
		disk = edited(v, disk)
		if len(v.Edit) > 0 {
			e.Probe("the input changed between runs")
			story = append(story, v.Edit[0].Path+" changed")
		}
		al := alone(v, disk)
		want, err := e.Exec(&al)
		if err != nil {
			return nil, err
		}
		next, res, err := step(e, v, disk)
		if err != nil {
			return nil, err
		}
		if !ended(want) {
			return nil, nil // C03
		}
		word := v.Cmd.Word
		if v.Cmd.Split {
			word = "split"
		}
		if len(res.Fired) > 0 {
			e.Probe("a command was disturbed")
		} else if i > 0 {
			e.Probe("a command ran undisturbed after others")
		}
		if len(res.Fired) == 0 {
			if d := res.Died(); d != "" {
				return bad("c12 "+word+" death", "after %s, %s: %s; on a fresh disk it exits %d", tell(story), describe(v, nil), res.Sig(), want.Exit), nil
			}
			if res.Exit != want.Exit {
				return bad("c12 "+word+" exit", "after %s, %s; on a fresh disk it exits %d: %s", tell(story), describe(v, res), want.Exit, clip(strings.TrimSpace(string(res.Stdout)+string(want.Stdout)))), nil
			}
		}
		if !res.Crashed() && res.Exit == 0 && want.Exit == 0 {
			if d := asked(v.Cmd, "/w", contents(v.Cmd, "/w", want), contents(v.Cmd, "/w", res)); d != "" {
				return bad("c12 "+word+" output", "after %s, %s: %s", tell(story), describe(v, res), d), nil
			}
		} else if !res.Crashed() && res.Exit == 0 {
			return bad("c12 "+word+" exit0", "after %s, %s; on a fresh disk it exits %d", tell(story), describe(v, res), want.Exit), nil
		}
		s := describe(v, res)
		if res.Crashed() {
			s += " (killed)"
		}
		if v.Cut != nil {
			s += " (then a power cut)"
		}
		story = append(story, s)
		disk = next
	}
	return nil, nil
}

func tell(s []string) string {
	if len(s) == 0 {
		return "nothing"
	}
	return strings.Join(s, "; ")
}
