package prop

import (
	"fmt"
	"path"
	"slices"
	"strconv"
	"strings"

	"midisim/gen"
	"midisim/rng"
	"midisim/spec"
)

// ---- C15: chains of commands conserve the music

func init() {
	register(&Prop{ID: "C15", New: newC15, Check: checkC15,
		Rule: "A drawn song, written as a MIDI file by an independent writer, goes through a drawn chain of conversions by the real commands on one simulated disk: disassemble and assemble the text, export and assemble the JSON, transpose. Steps run in drawn worlds and schedules; some are first killed at a drawn system call, hit by faults or followed by a power cut, and then run again. After each conversion the MIDI file on the disk is read by an independent reader and compared event by event with a reference model of the chain. Non-trivial: a chain of at least one completed conversion; distinct: by scheduling decisions and system calls."})
}

func newC15(e *Env, r *rng.R) *Case {
	o := gen.DrawLong(r, true)
	smpte := r.P(8)      // the text form does not have these
	big := r.N(120) == 0 // only through JSON: see DrawBig
	if big {
		o = gen.DrawBig(r, true)
	}
	o.Latin = !smpte && !big && r.P(12) // JSON does not have these
	c := &Case{Kind: "chain", Song: gen.Make(r, o)}
	if o.Running {
		c.Salt = 1
	}
	if r.P(5) {
		c.Song.Echo(r)
	}
	if !big && r.P(3) { // a whole number of blocks
		block := rng.Pick(r, 256, 512, 1024, 4096, 4096, 32768)
		c.Song.Fill(o.Running, (len(c.Song.MIDI(o.Running))/block+1)*block)
	}
	if smpte {
		c.Song.Division = rng.Pick(r, 0xe8, 0xe7, 0xe3, 0xe2)<<8 | rng.Pick(r, 4, 8, 10, 40, 80, 100, r.N(256))
	}
	uid := rng.Pick(r, 0, 1000)
	files := []spec.File{
		{Path: "/w", Kind: "d", Mode: 0o755, Uid: uid}, {Path: "/tmp", Kind: "d", Mode: 0o777},
	}
	cur := "a.mid"
	names := []string{"b.mid", "c.mid"}
	disturbed := r.P(60)
	add := func(cmd *Cmd) {
		s := World(r)
		s.Uid, s.Umask = uid, 0o022
		v := Run{Role: "step", Bin: "cli", Cmd: cmd, Spec: s, Keep: len(c.Runs) > 0}
		if len(c.Runs) == 0 {
			v.Spec.Files = files
		}
		if disturbed && r.P(30) {
			x := v
			x.Role = "disturbed"
			x.Spec.Sched = Sched(r)
			for k := r.Range(1, 2); k > 0; k-- {
				x.Spec.Faults = append(x.Spec.Faults, blindFault(r))
			}
			if r.P(40) {
				x.Cut = &PowerCut{r.U64() >> 1}
			}
			c.Runs = append(c.Runs, x)
			v.Spec.Files, v.Keep = nil, true
		}
		c.Runs = append(c.Runs, v)
	}
	for n := r.Range(1, 4); n > 0; n-- {
		next := rng.Pick(r, names...)
		for next == cur {
			next = rng.Pick(r, names...)
		}
		c4 := func(p int) []string {
			if r.P(p) {
				return []string{"--C4"}
			}
			return nil
		}
		k := r.N(5)
		if smpte || big {
			k = r.Range(2, 4)
		} else if o.Latin {
			k = rng.Pick(r, 0, 1, 1, 4)
		}
		switch k {
		case 0, 1: // the text names the notes, so the same convention both ways
			f := c4(25)
			add(&Cmd{Word: rng.Pick(r, "", "disassemble"), Flags: f, In: cur, Out: "x.txt"})
			add(&Cmd{Word: "assemble", Flags: f, In: "x.txt", Out: next})
		case 2, 3:
			add(&Cmd{Word: "export", Flags: c4(10), In: cur, Out: "x.json"})
			add(&Cmd{Word: "assemble", Flags: c4(10), In: "x.json", Out: next})
		case 4:
			add(&Cmd{Word: "transpose", Flags: []string{"--semitones", fmt.Sprint(rng.Pick(r, 0, 1, -1, 2, 3, -3, 5, 6, 7, -7, 12, -12, 11, 24, -40)), rng.Pick(r, "--C4=false", "--C4=false", "--C4")}, In: cur, Out: next})
		}
		if k := len(c.Runs) - 1; c.Runs[k].Cmd.Word == "assemble" && r.P(15) {
			c.Runs[k].Cmd.Out = ""
			next = c.Runs[k].Cmd.Dest()
		}
		cur = next
	}
	return c
}

// blindFault draws a fault without a trial run telling where calls are.
func blindFault(r *rng.R) spec.Fault {
	switch r.N(6) {
	case 0, 1:
		return spec.Fault{Cls: "any", Nth: r.N(40), Kind: "crash", Arg: int64(rng.Pick(r, 0, 1, r.N(30), r.N(500)))}
	case 2:
		return spec.Fault{Cls: "write", Nth: r.N(2), Kind: rng.Pick(r, "EIO", "ENOSPC", "torn", "short", "EINTR"), Arg: int64(1 + r.N(100))}
	case 3:
		return spec.Fault{Cls: "open", Nth: r.N(2), Kind: rng.Pick(r, "EIO", "EACCES", "EMFILE", "EINTR")}
	case 4:
		return spec.Fault{Cls: "close", Nth: r.N(2), Kind: rng.Pick(r, "EIO", "ENOSPC")}
	}
	return spec.Fault{Cls: "read", Nth: r.N(3), Kind: rng.Pick(r, "EIO", "short", "EINTR"), Arg: int64(1 + r.N(100))}
}

func checkC15(e *Env, c *Case) (*Violation, error) {
	if len(c.Runs) == 0 {
		return nil, nil
	}
	disk := append([]spec.File{}, c.Runs[0].Spec.Files...)
	midi := c.Song.MIDI(c.Salt == 1)
	disk = append(disk, spec.File{Path: "/w/a.mid", Kind: "f", Mode: 0o644, Uid: c.Runs[0].Spec.Uid, Data: midi})
	m, err := readModel(midi)
	if err != nil {
		panic(err)
	}
	models := map[string]*model{"a.mid": m}
	var story []string
	textC4 := false // the convention of the text on the disk
	for i := range c.Runs {
		v := &c.Runs[i]
		next, res, err := step(e, v, disk)
		if err != nil {
			return nil, err
		}
		disk = next
		if v.Role == "disturbed" {
			if len(res.Fired) > 0 {
				e.Probe("a step was disturbed")
			}
			story = append(story, describe(v, res))
			if res.Crashed() || res.Exit != 0 || v.Cut != nil {
				continue
			}
		}
		from := models[v.Cmd.In]
		if from == nil {
			return nil, nil // shrunk away
		}
		c4 := slices.Contains(v.Cmd.Flags, "--C4")
		if path.Ext(v.Cmd.Out) == ".txt" {
			textC4 = c4
		} else if path.Ext(v.Cmd.In) == ".txt" && c4 != textC4 {
			return nil, nil // shrunk to a source read with the other convention
		}
		if d := died(res); d != "" {
			return bad("c15 death", "%s, then %s: %s", tell(story), describe(v, nil), res.Sig()), nil
		}
		if res.Exit != 0 {
			return bad("c15 exit "+v.Cmd.Word, "%s, then %s: %s", tell(story), describe(v, res), clip(strings.TrimSpace(string(res.Stdout)))), nil
		}
		story = append(story, describe(v, res))
		if !strings.HasPrefix(path.Ext(v.Cmd.Dest()), ".mid") {
			models[v.Cmd.Out] = from
			continue
		}
		n := res.FS.Must("/w/" + v.Cmd.Dest())
		if n == nil {
			return bad("c15 no output", "%s: no output file", tell(story)), nil
		}
		got, err := readModel(n.Data)
		if err != nil {
			return bad("c15 unreadable", "%s: the file written is not a readable MIDI file: %v", tell(story), err), nil
		}
		steps := same
		if v.Cmd.Word == "transpose" {
			steps, _ = strconv.Atoi(v.Cmd.Flags[1])
		}
		if d, tag := from.differ(got, steps); d != "" {
			return bad("c15 "+v.Cmd.Word+path.Ext(v.Cmd.In)+" "+tag, "%s: %s", tell(story), d), nil
		}
		e.Probe("a conversion conserved the music")
		models[v.Cmd.Dest()] = got
	}
	return nil, nil
}

// model is what a MIDI file says.
type model struct {
	format, division int
	tracks           [][]gen.RefEvent
}

func readModel(b []byte) (*model, error) {
	f, d, t, err := gen.ReadSMF(b)
	return &model{f, d, t}, err
}

// differ compares got with m transposed by steps.
func (m *model) differ(got *model, steps int) (string, string) {
	if m.format != got.format || m.division != got.division || len(m.tracks) != len(got.tracks) {
		return fmt.Sprintf("format %d, division %d, %d tracks became format %d, division %d, %d tracks", m.format, m.division, len(m.tracks), got.format, got.division, len(got.tracks)), "header"
	}
	for t := range m.tracks {
		x, y := m.tracks[t], got.tracks[t]
		for i := 0; i < max(len(x), len(y)); i++ {
			switch {
			case i >= len(y):
				return fmt.Sprintf("track %d: %d events became %d; event %d (delta %d, % X) is lost", t, len(x), len(y), i, x[i].Delta, clip(x[i].Bytes)), "lost"
			case i >= len(x):
				return fmt.Sprintf("track %d: %d events became %d", t, len(x), len(y)), "extra"
			case x[i].Delta != y[i].Delta || !moved(x[i].Bytes, y[i].Bytes, steps):
				return fmt.Sprintf("track %d event %d: delta %d, % X became delta %d, % X", t, i, x[i].Delta, clip(x[i].Bytes), y[i].Delta, clip(y[i].Bytes)), fmt.Sprintf("event %02X", x[i].Bytes[:min(2, len(x[i].Bytes))])
			}
		}
	}
	return "", ""
}

// same: not transposed at all.
const same = 1 << 20

// moved: event y is event x some semitones up.
func moved(x, y string, steps int) bool {
	if steps == same {
		return x == y
	}
	if x == "" || len(x) != len(y) {
		return false
	}
	switch st := x[0] & 0xf0; {
	case st == 0x80 || st == 0x90:
		n := min(127, max(0, int(x[1])+steps))
		return y[0] == x[0] && int(y[1]) == n && y[2] == x[2]
	case x[0] == 0xff && x[1] == 0x59 && len(x) == 5:
		// the key steps semitones away, however it is spelled
		return y[:3] == x[:3] && y[4] == x[4] && int8(y[3]) >= -7 && int8(y[3]) <= 7 && ((int(int8(y[3]))-int(int8(x[3])))*7-steps)%12 == 0
	}
	return x == y
}
