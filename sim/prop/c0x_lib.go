package prop

import (
	"fmt"
	"reflect"
	"strings"

	"midisim/gen"
	"midisim/rng"
	"midisim/spec"
)

// ---- C09: concurrent operations do not affect one another

func init() {
	register(&Prop{ID: "C09", New: newC09, Check: checkC09,
		Rule: "Two to four concurrent callers run drawn sequences of library operations, on inputs of their own or on one decoded file (and disassembler) they share; the simulator picks the running goroutine at every statement it chooses to preempt. Each caller's results are compared with those of the same caller alone in a fresh process; the same scenarios also run in a race-detector build. Non-trivial: at least two callers were runnable at once; distinct: by scheduling decisions and system calls."})
}

func newC09(e *Env, r *rng.R) *Case {
	c := &Case{Kind: rng.Pick(r, "shared", "own", "mixed")}
	sc := &spec.Scenario{}
	nin := r.Range(1, 3)
	for i := 0; i < nin; i++ {
		if i > 0 && r.P(25) {
			sc.Inputs = append(sc.Inputs, twin(r, "midi", sc.Inputs[i-1]))
			continue
		}
		sc.Inputs = append(sc.Inputs, small(r, "midi"))
	}
	tIn := len(sc.Inputs)
	sc.Inputs = append(sc.Inputs, templates(r))
	txt := len(sc.Inputs)
	sc.Inputs = append(sc.Inputs, small(r, "text"))
	js := len(sc.Inputs)
	sc.Inputs = append(sc.Inputs, small(r, "json"))
	mf := len(sc.Inputs)
	sc.Inputs = append(sc.Inputs, manufacturers(r))
	bad := len(sc.Inputs)
	b, _ := gen.Damage(r, sc.Inputs[txt], "text")
	sc.Inputs = append(sc.Inputs, b)
	if c.Kind != "own" || r.P(30) { // otherwise nothing ran in this process before
		sc.Setup = []spec.Op{{Op: "decode", In: 0, Slot: 1, Shared: true}, {Op: "newdis", Slot: 1, Shared: true}}
	}
	if len(sc.Setup) > 0 && r.P(40) {
		sc.Setup = append(sc.Setup, spec.Op{Op: "templates", In: tIn, Slot: 1, Shared: true})
	}
	callers := r.Range(2, 4)
	if r.P(8) { // a crowd
		callers = rng.Pick(r, 6, 9, 17)
	}
	for t := callers; t > 0; t-- {
		var ops []spec.Op
		own := -1
		for k := r.Range(1, 4); k > 0; k-- {
			shared := c.Kind == "shared" || (c.Kind == "mixed" && r.P(50))
			if shared {
				op := fileOp(r, 1, true)
				if strings.HasPrefix(op.Op, "print") {
					op.Slot = rng.Pick(r, 0, 1)
				}
				if op.Op == "encode" { // an encoder has one writer: not shared
					op.Obj = 0
				}
				op.W = yielding(r)
				ops = append(ops, op)
				continue
			}
			switch {
			case own < 0 || r.P(30):
				switch r.N(6) {
				case 0, 1:
					ops = append(ops, spec.Op{Op: "asmtext", In: rng.Pick(r, txt, txt, bad), R: yielding(r), Obj: rng.Pick(r, 0, 1)})
				case 2:
					ops = append(ops, spec.Op{Op: "asmjson", In: js, R: yielding(r), Obj: rng.Pick(r, 0, 1)})
				case 3:
					ops = append(ops, spec.Op{Op: "mfr", In: mf, R: yielding(r)})
				default:
					own = r.N(nin)
					ops = append(ops, spec.Op{Op: "decode", In: own, Slot: 1, N: r.N(2), R: yielding(r), Obj: rng.Pick(r, 0, 1)})
				}
			default:
				op := fileOp(r, 1, false)
				if op.Op == "encode" {
					op.Obj = 0
				}
				op.W = yielding(r)
				ops = append(ops, op)
			}
		}
		sc.Threads = append(sc.Threads, ops)
	}
	if c.Kind == "own" && r.P(25) { // everybody does the same, each on a file of their own
		op := fileOp(r, 1, false)
		if op.Op == "encode" {
			op.Obj = 0
		}
		x := len(sc.Inputs)
		sc.Inputs = append(sc.Inputs, twin(r, "midi", sc.Inputs[0]))
		for t := range sc.Threads {
			in := 0
			if t%2 == 1 {
				in = x
			}
			op.W = yielding(r)
			sc.Threads[t] = []spec.Op{{Op: "decode", In: in, Slot: 1, R: yielding(r)}, op}
		}
	}
	s := World(r)
	s.Sched.YieldMean = rng.Pick[uint64](r, 1, 2, 5, 20, 100)
	s.Sched.Policy = rng.Pick(r, 0, 0, 1, 1, 3)
	settings(r, sc)
	c.Runs = []Run{libRun("concurrent", s, sc)}
	return c
}

// small keeps concurrent runs short.
func small(r *rng.R, format string) []byte {
	o := gen.DrawOpt(r, format != "midi")
	o.Tracks = r.Range(1, 4)
	o.Events = min(o.Events, 20)
	o.BigSysex = min(o.BigSysex, 200)
	o.BigText = min(o.BigText, 200)
	s := gen.Make(r, o)
	switch format {
	case "midi":
		return s.MIDI(o.Running)
	case "text":
		return s.Text(r, true)
	}
	return s.JSONSource(r)
}

func yielding(r *rng.R) *spec.Stream {
	if r.P(40) {
		return nil
	}
	s := &spec.Stream{Yield: true, Block: r.P(10), Pace: pace(r)}
	if r.P(50) {
		s.Frags = frags(r)
	}
	return s
}

func checkC09(e *Env, c *Case) (*Violation, error) {
	run := &c.Runs[0]
	res, err := e.Exec(run)
	if err != nil {
		return nil, err
	}
	if addedUp(run, res) {
		return nil, nil
	}
	if res.MaxRunnable > 1 {
		e.Probe("two or more callers runnable at once")
	}
	m := results(res)
	for t := range run.Lib.Threads {
		sc := *run.Lib
		sc.Threads = [][]spec.Op{run.Lib.Threads[t]}
		alone := libRun("alone", Plain(), &sc)
		a, err := e.Exec(&alone)
		if err != nil {
			return nil, err
		}
		if died(a) != "" {
			return nil, nil // not this property's concern
		}
		if d := died(res); d != "" {
			return bad("c09 death", "concurrent callers: %s; caller %d alone ends normally", res.Sig(), t), nil
		}
		am := results(a)
		for i, op := range run.Lib.Threads[t] {
			x, y := m[[2]int{t, i}], am[[2]int{0, i}]
			if outcome(x) != outcome(y) {
				return bad("c09 "+op.Op, "caller %d of %d: %s gave %s; alone it gives %s", t, len(run.Lib.Threads), opName(op), short(x), short(y)), nil
			}
		}
	}
	if e.Race != "" {
		rr := *run
		rr.Bin = "race"
		res, err := e.Exec(&rr)
		if err != nil {
			return nil, err
		}
		if site := raceSite(res.Fatal); site != "" && strings.Contains(res.Fatal, "WARNING: DATA RACE") {
			return bad("c09 race "+raceSite(res.Fatal), "data race: %s", raceSite(res.Fatal)), nil
		}
	}
	return nil, nil
}

func raceSite(s string) string {
	var out []string
	for _, l := range strings.Split(s, "\n") {
		if i := strings.Index(l, "transcriptaze/midiasm/"); i >= 0 && strings.HasSuffix(strings.TrimSpace(l), "()") && !strings.Contains(l, "zzsim") {
			out = append(out, strings.TrimSpace(l[i+len("transcriptaze/midiasm/"):]))
			if len(out) == 2 {
				break
			}
		}
	}
	return strings.Join(out, " / ")
}

// ---- C10: operations return and leave nothing running

func init() {
	register(&Prop{ID: "C10", New: newC10, Check: checkC10,
		Rule: "One to three concurrent callers run library operations on inputs of which most are damaged, cut or served by readers and writers that fail at a drawn byte; after all calls returned the simulator runs on until nothing can run and lists the goroutines that remain. Non-trivial: a run with damaged input or a stream fault that fired; distinct: by scheduling decisions and system calls."})
}

func newC10(e *Env, r *rng.R) *Case {
	c := &Case{Kind: "calls"}
	sc := &spec.Scenario{Quiesce: true}
	for t := r.Range(1, 3); t > 0; t-- {
		var ops []spec.Op
		have := false
		for k := r.Range(1, 4); k > 0; k-- {
			if have && r.P(50) {
				op := fileOp(r, 1, false)
				if writes(op.Op) && r.P(60) {
					op.W = &spec.Stream{Fail: 1 + r.N(400), Err: rng.Pick(r, streamErrors...), Once: r.P(30), Yield: r.P(50)}
				}
				ops = append(ops, op)
				continue
			}
			kind := rng.Pick(r, "decode", "asmtext", "asmtext", "asmtext", "asmtext", "asmjson", "mfr")
			b := input(r, kind, 70)
			if kind == "asmtext" && r.P(25) {
				b = brokenText(r, b)
			}
			sc.Inputs = append(sc.Inputs, b)
			op := spec.Op{Op: kind, In: len(sc.Inputs) - 1, Slot: 1, R: delivery(r)}
			if r.P(40) {
				op.R.Fail, op.R.Err, op.R.With = 1+somewhere(r, b), rng.Pick(r, streamErrors...), r.P(30)
			} else if r.P(20) {
				op.R.Cut = 1 + somewhere(r, b)
			}
			have = have || kind == "decode"
			ops = append(ops, op)
		}
		sc.Threads = append(sc.Threads, ops)
	}
	if r.P(12) { // again and again
		t := r.N(len(sc.Threads))
		sc.Threads[t] = again(r, sc.Threads[t], sc.Inputs)
	}
	s := World(r)
	settings(r, sc)
	c.Runs = []Run{libRun("run", s, sc)}
	return c
}

// often is how many times to do something again with inputs of this size
// (nothing is collected, so memory adds up).
func often(r *rng.R, size int) int {
	if r.P(8) { // past what a byte counts
		return max(1, min(rng.Pick(r, 130, 257, 300), 90000/(size+1)))
	}
	return max(1, min(rng.Pick(r, 2, 3, 5, 9, 17, 33, r.Range(2, 70)), 30000/(size+1)))
}

// crowd has the same done to many short inputs, each a different one, and then
// to the first few again: more than anything remembered has room for.
func crowd(r *rng.R, sc *spec.Scenario) []spec.Op {
	kind := rng.Pick(r, "decode", "decode", "asmtext", "asmjson")
	op := fileOp(r, 0, false)
	op.Slot = 9
	first := len(sc.Inputs)
	n := rng.Pick(r, 9, 17, 33, 66)
	var ops []spec.Op
	one := func(i int) {
		ops = append(ops, spec.Op{Op: kind, In: i, Slot: 0})
		if kind == "decode" {
			ops = append(ops, op)
		}
	}
	for k := 0; k < n; k++ {
		b := small(r, formatOf(kind))
		if k > 0 && r.P(40) {
			b = twin(r, formatOf(kind), sc.Inputs[len(sc.Inputs)-1])
		}
		sc.Inputs = append(sc.Inputs, b)
		one(first + k)
	}
	for k := 0; k < 3; k++ {
		one(first + rng.Pick(r, k, r.N(n)))
	}
	return ops
}

// again has one of the operations done many times over, on a short input.
func again(r *rng.R, ops []spec.Op, inputs [][]byte) []spec.Op {
	i := r.N(len(ops))
	size := 0
	for _, b := range inputs {
		size = max(size, len(b))
	}
	var out []spec.Op
	for k, op := range ops {
		n := 1
		if k == i {
			n = often(r, size)
		}
		for ; n > 0; n-- {
			out = append(out, op)
		}
	}
	return out
}

// brokenText makes one event line unparseable: the assembler gives up there,
// with lines still to come.
func brokenText(r *rng.R, b []byte) []byte {
	lines := strings.SplitAfter(string(b), "\n")
	for try := 0; try < 10; try++ {
		i := r.N(len(lines))
		if strings.Contains(lines[i], "delta:") {
			lines[i] = rng.Pick(r, "garbage\n", "delta:x 99 NoteOn\n", strings.Replace(lines[i], "delta:", "", 1), "delta:0 FF Nothing\n")
			break
		}
	}
	return []byte(strings.Join(lines, ""))
}

func checkC10(e *Env, c *Case) (*Violation, error) {
	run := &c.Runs[0]
	res, err := e.Exec(run)
	if err != nil {
		return nil, err
	}
	if addedUp(run, res) {
		return nil, nil
	}
	if d := died(res); d != "" {
		return bad("c10 "+res.Sig(), "%s", res.Sig()), nil
	}
	m := results(res)
	for t, ops := range run.Lib.Threads {
		for i, op := range ops {
			x, ok := m[[2]int{t, i}]
			if !ok {
				return bad("c10 noreturn", "%s did not return", opName(op)), nil
			}
			if x.Panic != "" {
				return bad("c10 panic "+x.Panic, "%s did not return but panicked: %s", opName(op), clip(x.Panic)), nil
			}
		}
	}
	if len(res.Left) > 0 {
		return bad("c10 left "+res.Left[0].Stack, "%d goroutine(s) left behind after every call returned: %s", len(res.Left), res.Left[0].Stack), nil
	}
	return nil, nil
}

// ---- C11: histories of operations

func init() {
	register(&Prop{ID: "C11", New: newC11, Check: checkC11,
		Rule: "A history of 3 to 14 operations in one process (decode, disassemble, export, encode, notes, click, validate, transpose, assemble, templates, manufacturers; some on failing streams or damaged input) on up to three decoded files; each operation's result is compared with the same operation in a process of its own on a freshly decoded file, and the history ends with a full observation of every file. Non-trivial: at least two operations on one file; distinct: by scheduling decisions and system calls."})
}

func newC11(e *Env, r *rng.R) *Case {
	c := &Case{Kind: "history"}
	sc := &spec.Scenario{}
	var ops []spec.Op
	files := map[int]int{} // slot -> input
	sc.Inputs = append(sc.Inputs, source(r, "midi"))
	for k := r.N(3); k > 0; k-- {
		if r.P(30) {
			sc.Inputs = append(sc.Inputs, twin(r, "midi", sc.Inputs[0]))
			continue
		}
		sc.Inputs = append(sc.Inputs, input(r, "decode", 40))
	}
	nmidi := len(sc.Inputs)
	shared := rng.Pick(r, 20, 60, 100)
	obj := func() int {
		if r.P(shared) {
			return 1
		}
		return 0
	}
	decode := func() {
		slot := r.N(3)
		in := r.N(nmidi)
		files[slot] = in
		ops = append(ops, spec.Op{Op: "decode", In: in, Slot: slot, Obj: obj(), N: r.N(2)})
	}
	decode()
	for k := r.Range(2, 10); k > 0; k-- {
		switch {
		case r.P(70):
			slots := []int{}
			for s := 0; s < 3; s++ {
				if _, ok := files[s]; ok {
					slots = append(slots, s)
				}
			}
			op := fileOp(r, rng.Pick(r, slots...), false)
			op.Slot = 9 // no loaded templates
			if writes(op.Op) && r.P(25) {
				op.W = &spec.Stream{Fail: 1 + r.N(300), Err: "disk full", Once: r.P(50)}
			}
			ops = append(ops, op)
		case r.P(40):
			decode()
		default:
			kind := rng.Pick(r, "asmtext", "asmjson", "mfr")
			sc.Inputs = append(sc.Inputs, input(r, kind, 30))
			op := spec.Op{Op: kind, In: len(sc.Inputs) - 1, Obj: obj()}
			if r.P(25) { // and one that looks much the same
				ops = append(ops, op)
				sc.Inputs = append(sc.Inputs, twin(r, kind, sc.Inputs[op.In]))
				op.In++
			}
			if r.P(25) {
				op.R = &spec.Stream{Fail: 1 + somewhere(r, sc.Inputs[op.In]), Err: "i/o error"}
			}
			ops = append(ops, op)
			if kind == "mfr" {
				decode()
			}
		}
	}
	if r.P(20) { // the same on a file that looks much the same
		x := len(sc.Inputs)
		sc.Inputs = append(sc.Inputs, small(r, "midi"))
		sc.Inputs = append(sc.Inputs, twin(r, "midi", sc.Inputs[x]))
		op := fileOp(r, 0, false)
		op.Slot = 9
		ops = append(ops, spec.Op{Op: "decode", In: x, Slot: 0, Obj: obj()}, op, spec.Op{Op: "decode", In: x + 1, Slot: 0, Obj: obj()}, op)
		files[0] = x + 1
	}
	if r.P(3) {
		ops = append(ops, crowd(r, sc)...)
		files[0] = 0
	}
	if r.P(20) {
		ops = again(r, ops, sc.Inputs)
	}
	for s := 0; s < 3; s++ {
		if _, ok := files[s]; ok {
			ops = append(ops, spec.Op{Op: "image", File: s})
		}
	}
	sc.Setup = ops
	settings(r, sc)
	c.Runs = []Run{libRun("history", World(r), sc)}
	return c
}

func checkC11(e *Env, c *Case) (*Violation, error) {
	run := &c.Runs[0]
	res, err := e.Exec(run)
	if err != nil {
		return nil, err
	}
	if addedUp(run, res) {
		return nil, nil
	}
	memo := map[string]spec.OpResult{}
	m := results(res)
	files := map[int]int{}
	for i, op := range run.Lib.Setup {
		in := -1
		switch op.Op {
		case "decode", "asmtext", "asmjson", "mfr":
		default:
			k, ok := files[op.File]
			if !ok {
				continue
			}
			in = k
		}
		want, err := e.fresh(memo, run.Lib, in, -1, op)
		if err != nil {
			return nil, err
		}
		got, ok := m[[2]int{-1, i}]
		if want.Panic != "" {
			return nil, nil // not this property's concern
		}
		if !ok {
			return bad("c11 death", "operation %d of a history, %s: %s; in a fresh process it gives %s", i, opName(op), orFine(res.Sig()), short(want)), nil
		}
		if outcome(got) != outcome(want) {
			return bad("c11 "+op.Op, "operation %d of a history, %s, gave %s; in a fresh process on a freshly decoded file it gives %s (before it: %s)", i, opName(op), short(got), short(want), names(run.Lib.Setup[:i])), nil
		}
		if op.Op == "decode" {
			if got.Err == "" {
				files[op.Slot] = op.In
			} else {
				delete(files, op.Slot)
			}
		}
	}
	return nil, nil
}

func names(ops []spec.Op) string {
	var s []string
	for _, o := range ops {
		s = append(s, o.Op)
	}
	return strings.Join(s, ", ")
}

// ---- C14: failed operations have no lasting effect

func init() {
	register(&Prop{ID: "C14", New: newC14, Check: checkC14,
		Rule: "A library object (disassembler, decoder, assembler, encoder, exporter) is used, then an operation on it is made to fail (the stream breaks at a drawn byte, one of several templates does not parse, the input is damaged), then it is used again; compared with the same sequence without the failed operation. Non-trivial: the operation did fail; distinct: by scheduling decisions and system calls."})
}

func badTemplates(r *rng.R) []byte {
	s := string(templates(r))
	bad := rng.Pick(r, `"zz": "{{"`, `"text": "{{.Text"`, `"aa": "{{template}}"`, `"noteon": "{{if}}"`, `"tempo": "{{nosuchfunc .}}"`, `"trackname": 7`)
	i := strings.Index(s, `"templates": {`) + len(`"templates": {`)
	if r.P(50) {
		return []byte(s[:i] + "\n" + bad + "," + s[i:])
	}
	j := strings.LastIndex(s, "}")
	j = strings.LastIndex(s[:j], "}")
	return []byte(strings.TrimRight(s[:j], " \n") + "," + bad + s[j:])
}

func newC14(e *Env, r *rng.R) *Case {
	c := &Case{Kind: rng.Pick(r, "templates", "templates", "templates", "stream", "damaged", "writer")}
	sc := &spec.Scenario{Inputs: [][]byte{referenceMIDI()}}
	if r.P(50) {
		sc.Inputs[0] = source(r, "midi")
	}
	add := func(b []byte) int {
		sc.Inputs = append(sc.Inputs, b)
		return len(sc.Inputs) - 1
	}
	more := r.P(15)
	mark := func(op spec.Op) { // the operation that is to fail
		c.Salt = uint64(len(sc.Setup))
		times := 1
		if more {
			size := 0
			for _, b := range sc.Inputs {
				size = max(size, len(b))
			}
			times = often(r, size)
		}
		for k := 0; k < times; k++ {
			sc.Setup = append(sc.Setup, op)
		}
	}
	switch c.Kind {
	case "templates":
		sc.Setup = []spec.Op{{Op: "decode", In: 0, Slot: 1}, {Op: "newdis", Slot: 1}}
		if r.P(40) {
			sc.Setup = append(sc.Setup, spec.Op{Op: "templates", In: add(templates(r)), Slot: 1})
		}
		if r.P(30) {
			sc.Setup = append(sc.Setup, spec.Op{Op: "print", File: 1, Slot: 1})
		}
		if r.P(50) {
			mark(spec.Op{Op: "templates", In: add(badTemplates(r)), Slot: 1, R: delivery(r)})
		} else if r.P(50) {
			b := templates(r)
			st := delivery(r)
			st.Fail, st.Err = 1+somewhere(r, b), rng.Pick(r, streamErrors...)
			mark(spec.Op{Op: "templates", In: add(b), Slot: 1, R: st})
		} else {
			b, _ := corrupt(r, "templates", templates(r))
			mark(spec.Op{Op: "templates", In: add(b), Slot: 1})
		}
		sc.Setup = append(sc.Setup, spec.Op{Op: "print", File: 1, Slot: 1}, spec.Op{Op: "printmthd", File: 1, Slot: 1}, spec.Op{Op: "printmtrk", File: 1, Slot: 1, N: 1})
		if r.P(40) {
			sc.Setup = append(sc.Setup, spec.Op{Op: "templates", In: add(templates(r)), Slot: 1}, spec.Op{Op: "print", File: 1, Slot: 1})
		}
	case "stream", "damaged":
		op := rng.Pick(r, "decode", "asmtext", "asmjson", "mfr")
		good := add(input(r, op, 0))
		if r.P(50) {
			sc.Setup = append(sc.Setup, spec.Op{Op: op, In: good, Slot: 1, Obj: 1})
		}
		b := input(r, op, 0)
		if r.P(25) { // one that looks much the same
			b = twin(r, formatOf(op), sc.Inputs[good])
		}
		o := spec.Op{Op: op, Slot: 2, Obj: 1, R: delivery(r)}
		if c.Kind == "stream" {
			o.R.Fail, o.R.Err, o.R.With = 1+somewhere(r, b), rng.Pick(r, streamErrors...), r.P(30)
			if r.P(30) && op != "asmtext" {
				o.R.Fail, o.R.Cut = 0, 1+somewhere(r, b)
			}
		} else {
			b, _ = corrupt(r, op, b)
		}
		o.In = add(b)
		mark(o)
		sc.Setup = append(sc.Setup, spec.Op{Op: op, In: good, Slot: 1, N: 1, Obj: 1})
		if op == "decode" {
			sc.Setup = append(sc.Setup, spec.Op{Op: "image", File: 1})
		}
		if r.P(50) {
			other := rng.Pick(r, "decode", "asmtext", "asmjson")
			if op == "mfr" {
				other = "decode"
			}
			sc.Setup = append(sc.Setup, spec.Op{Op: other, In: add(input(r, other, 0)), Slot: 3, N: 1})
		}
	case "writer":
		sc.Setup = []spec.Op{{Op: "decode", In: 0, Slot: 1}}
		op := rng.Pick(r, "encode", "export", "print", "notes", "notesjson", "click")
		o := spec.Op{Op: op, File: 1, Obj: 1}
		if op == "print" {
			sc.Setup = append(sc.Setup, spec.Op{Op: "newdis", Slot: 1})
			o.Slot = 1
		}
		f := o
		f.W = &spec.Stream{Fail: 1 + r.N(300), Err: rng.Pick(r, streamErrors...), Once: r.P(40)}
		mark(f)
		sc.Setup = append(sc.Setup, o, spec.Op{Op: "image", File: 1})
	}
	settings(r, sc)
	c.Runs = []Run{libRun("run", World(r), sc)}
	return c
}

func checkC14(e *Env, c *Case) (*Violation, error) {
	run := &c.Runs[0]
	k := int(c.Salt)
	if k >= len(run.Lib.Setup) {
		return nil, nil
	}
	res, err := e.Exec(run)
	if err != nil {
		return nil, err
	}
	m := results(res)
	f := m[[2]int{-1, k}]
	if f.Err == "" || f.Panic != "" {
		return nil, nil // it did not fail; nothing to compare
	}
	n := 1 // how often it was attempted
	for k+n < len(run.Lib.Setup) && reflect.DeepEqual(run.Lib.Setup[k+n], run.Lib.Setup[k]) {
		n++
	}
	if died(res) != "" {
		if n == 1 || addedUp(run, res) {
			return nil, nil
		}
		once := *run.Lib
		once.Setup = append(append([]spec.Op{}, run.Lib.Setup[:k+1]...), run.Lib.Setup[k+n:]...)
		w := libRun("once", Plain(), &once)
		base, err := e.Exec(&w)
		if err != nil || died(base) != "" {
			return nil, err // C03, C10
		}
		return bad("c14 death "+run.Lib.Setup[k].Op, "after %s failed again and again (%d times): %s", opName(run.Lib.Setup[k]), n, res.Sig()), nil
	}
	e.Probe("the operation failed as planned: " + run.Lib.Setup[k].Op)
	if n > 1 {
		e.Probe("it failed again and again")
	}
	without := *run.Lib
	without.Setup = append(append([]spec.Op{}, run.Lib.Setup[:k]...), run.Lib.Setup[k+n:]...)
	w := libRun("without", Plain(), &without)
	base, err := e.Exec(&w)
	if err != nil {
		return nil, err
	}
	b := results(base)
	for i := k + n; i < len(run.Lib.Setup); i++ {
		x, y := m[[2]int{-1, i}], b[[2]int{-1, i - n}]
		if y.Panic != "" {
			return nil, nil
		}
		if outcome(x) != outcome(y) {
			return bad("c14 "+run.Lib.Setup[k].Op+" "+run.Lib.Setup[i].Op, "after %s failed (%s), %s gave %s; without that attempt it gives %s",
				opName(run.Lib.Setup[k]), clip(f.Err), opName(run.Lib.Setup[i]), short(x), short(y)), nil
		}
	}
	return nil, nil
}

// ---- C13: text assembly

func init() {
	register(&Prop{ID: "C13", New: newC13, Check: checkC13,
		Rule: "A drawn song is written as a text source (with drawn comments, blank lines, leading text, hex columns, line endings), delivered to the real assembler in drawn fragments under drawn schedules of its pipeline goroutines; the assembled file is read by an independent MIDI reader and compared with the song event by event. Non-trivial: more than one goroutine was runnable at some point; distinct: by scheduling decisions and system calls."})
}

func newC13(e *Env, r *rng.R) *Case {
	o := gen.DrawLines(r)
	c := &Case{Kind: rng.Pick(r, "lib", "lib", "lib", "cli"), Song: gen.Make(r, o), Salt: r.U64() >> 1}
	s := World(r)
	if r.P(10) {
		c.Song.Echo(r)
	}
	for t := range c.Song.Tracks {
		if x := &c.Song.Tracks[t]; r.P(4) { // a section without events
			x.Evs = nil
		} else if n := len(x.Evs); r.P(4) && n > 0 && (n < 2 || !strings.HasPrefix(x.Evs[n-2].Tag, "SysEx")) {
			// without end-of-track (the text of a last system exclusive message
			// does not tell whether it is complete)
			x.Evs = x.Evs[:n-1]
		} else if n > 0 && r.P(1) { // five bytes long
			x.Evs[r.N(n)].Delta = rng.Pick[uint32](r, 1<<28, 1<<32-1, 1<<28+uint32(r.N(1<<28)))
		}
	}
	if c.Kind == "lib" {
		sc := &spec.Scenario{Setup: []spec.Op{{Op: "asmtext", R: delivery(r)}}}
		c.Runs = []Run{{Role: "run", Bin: "lib", Spec: s, Lib: sc}}
	} else {
		c.Runs = []Run{{Role: "run", Bin: "cli", Spec: s, Cmd: &Cmd{Word: "assemble", In: "/w/in.txt", Out: "/w/out.mid"}}}
	}
	return c
}

func checkC13(e *Env, c *Case) (*Violation, error) {
	run := c.Runs[0]
	text := c.Song.Text(rng.New(c.Salt), c.Salt%8 != 0)
	if c.Salt/8%32 == 0 {
		text = filled(rng.New(c.Salt+1), "text", text)
	}
	Limits(&run.Spec, len(text)+500)
	var got []byte
	fail := ""
	if run.Bin == "lib" {
		sc := *run.Lib
		sc.Inputs = [][]byte{text}
		run.Lib = &sc
		res, err := e.Exec(&run)
		if err != nil {
			return nil, err
		}
		if res.MaxRunnable > 1 {
			e.Probe("several pipeline goroutines runnable")
		}
		if d := died(res); d != "" {
			fail = res.Sig()
		} else {
			x := results(res)[[2]int{-1, 0}]
			got = x.Data
			if x.Err != "" || x.Panic != "" {
				fail = short(x)
			}
		}
	} else {
		run.Spec.Files = []spec.File{{Path: "/w", Kind: "d", Mode: 0o755, Uid: run.Spec.Uid}, {Path: "/w/in.txt", Kind: "f", Mode: 0o644, Uid: run.Spec.Uid, Data: text}}
		res, err := e.Exec(&run)
		if err != nil {
			return nil, err
		}
		if d := died(res); d != "" {
			fail = res.Sig()
		} else if res.Exit != 0 {
			fail = fmt.Sprintf("exit %d: %s", res.Exit, clip(strings.TrimSpace(string(res.Stdout))))
		} else if n := res.FS.Must("/w/out.mid"); n == nil {
			fail = "no output file"
		} else {
			got = n.Data
		}
	}
	if fail != "" {
		return bad("c13 fails", "assembling a valid text source of %d tracks gave %s", len(c.Song.Tracks), fail), nil
	}
	return sameMusic("c13", c.Song, got), nil
}

// sameMusic compares an assembled file with the song.
func sameMusic(p string, s *gen.Song, got []byte) *Violation {
	format, division, tracks, err := gen.ReadSMF(got)
	if err != nil {
		return bad(p+" unreadable", "the file written is not a readable MIDI file: %v", err)
	}
	_, _, want, err := gen.ReadSMF(s.MIDI(false))
	if err != nil {
		panic(err)
	}
	if format != s.Format || division != s.Division || len(tracks) != len(want) {
		return bad(p+" header", "the file written has format %d, division %d, %d tracks; the source format %d, division %d, %d tracks", format, division, len(tracks), s.Format, s.Division, len(want))
	}
	for t := range want {
		for i := 0; i < max(len(want[t]), len(tracks[t])); i++ {
			switch {
			case i >= len(tracks[t]):
				return bad(p+" lost", "track %d has %d events, the source has %d: event %d (%s, delta %d) is missing", t, len(tracks[t]), len(want[t]), i, s.Tracks[t].Evs[i].Tag, want[t][i].Delta)
			case i >= len(want[t]):
				return bad(p+" extra", "track %d has %d events, the source has %d", t, len(tracks[t]), len(want[t]))
			case tracks[t][i] != want[t][i]:
				return bad(p+" event "+s.Tracks[t].Evs[i].Tag, "track %d event %d (%s): delta %d, % X; the source says delta %d, % X", t, i, s.Tracks[t].Evs[i].Tag, tracks[t][i].Delta, clip(tracks[t][i].Bytes), want[t][i].Delta, clip(want[t][i].Bytes))
			}
		}
	}
	return nil
}
