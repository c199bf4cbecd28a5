package prop

import (
	"bytes"
	"fmt"
	"regexp"
	"strings"

	"midisim/gen"
	"midisim/rng"
	"midisim/run"
	"midisim/spec"
)

func libRun(role string, s spec.Spec, sc *spec.Scenario) Run {
	n := 0
	for _, in := range sc.Inputs {
		n += len(in)
	}
	k := len(sc.Setup)
	for _, t := range sc.Threads {
		k += len(t)
	}
	Limits(&s, (n+500)*max(1, k))
	return Run{Role: role, Bin: "lib", Spec: s, Lib: sc}
}

func results(res *run.Result) map[[2]int]spec.OpResult {
	m := map[[2]int]spec.OpResult{}
	for _, r := range res.Results {
		m[[2]int{r.T, r.I}] = r
	}
	return m
}

var address = regexp.MustCompile(`0xc[0-9a-f]{6,}`)

// outcome is what an operation gave, without what cannot be equal (addresses).
func outcome(r spec.OpResult) string {
	return address.ReplaceAllString(r.Err, "0x?") + "|" + r.Panic + "|" + string(r.Data)
}

func short(r spec.OpResult) string {
	switch {
	case r.Panic != "":
		return "a panic (" + clip(r.Panic) + ")"
	case r.Err != "":
		return "an error (" + clip(r.Err) + ")"
	}
	return fmt.Sprintf("%d bytes (%016x)", len(r.Data), hash(r.Data))
}

func clip(s string) string {
	if len(s) > 200 {
		return s[:200] + "…"
	}
	return s
}

func opName(o spec.Op) string {
	s := o.Op
	if o.Op == "transpose" || (o.Op == "notes" && o.N != 0) {
		s += fmt.Sprintf("(%d)", o.N)
	}
	if o.R != nil {
		s += " " + streamText(o.R)
	}
	if o.W != nil {
		s += " " + streamText(o.W)
	}
	return s
}

func streamText(s *spec.Stream) string {
	var x []string
	if s.Kind != "" {
		x = append(x, s.Kind)
	}
	if len(s.Frags) > 0 {
		x = append(x, fmt.Sprintf("pieces %v", s.Frags))
	}
	if s.WithEOF {
		x = append(x, "data with EOF")
	}
	if s.Cut > 0 {
		x = append(x, fmt.Sprintf("ends after %d bytes", s.Cut-1))
	}
	if s.Fail > 0 {
		x = append(x, fmt.Sprintf("fails after %d bytes (%s)", s.Fail-1, s.Err))
	}
	if len(x) == 0 {
		return ""
	}
	return "<" + strings.Join(x, ", ") + ">"
}

// died reports a whole-process death of a library run.
func died(res *run.Result) string { return res.Died() }

// added up: memory ran out in a run of so many operations on so large inputs
// that, with nothing ever collected, it says nothing about any of them.
func addedUp(v *Run, res *run.Result) bool {
	if res.Sig() != "exhausted memory" {
		return false
	}
	k, n := len(v.Lib.Setup), 0
	for _, t := range v.Lib.Threads {
		k += len(t)
	}
	for _, b := range v.Lib.Inputs {
		n = max(n, len(b))
	}
	return k*n > 30000
}

var readOps = []string{"decode", "decode", "asmtext", "asmtext", "asmjson", "templates", "mfr"}

func formatOf(op string) string {
	switch op {
	case "decode":
		return "midi"
	case "asmtext":
		return "text"
	case "asmjson":
		return "json"
	case "templates":
		return "templates"
	}
	return "mfr"
}

func dfmt(f string) string {
	if f == "midi" {
		return "midi"
	}
	return "text"
}

func frags(r *rng.R) []int {
	switch r.N(7) {
	case 0:
		return nil
	case 6:
		// a slow source: many empty reads in a row (fewer than the hundred after
		// which the standard library gives up)
		f := []int{rng.Pick(r, 13, 14, 40, 200)}
		for i := rng.Pick(r, 12, 40, 90); i > 0; i-- {
			f = append(f, 0)
		}
		if r.P(50) {
			f = append(f, rng.Pick(r, 1, 5, 40, 600, 5000))
		}
		return f
	case 1:
		return []int{1}
	case 2:
		return []int{rng.Pick(r, 2, 3, 4, 7, 8, 13, 14, 22)}
	case 3:
		return []int{rng.Pick(r, 511, 512, 513, 4095, 4096, 4097)}
	}
	var f []int
	for i := r.Range(2, 8); i > 0; i-- {
		f = append(f, rng.Pick(r, 0, 1, 1, 2, 3, 5, 8, 14, 40, 200, 5000))
	}
	for _, x := range f {
		if x > 0 {
			return f
		}
	}
	return append(f, 1)
}

func delivery(r *rng.R) *spec.Stream {
	return &spec.Stream{Frags: frags(r), WithEOF: r.P(40), Yield: r.P(40), Block: r.P(15), Pace: pace(r), Scratch: r.P(30)}
}

var streamErrors = []string{"input/output error", "unexpected", "closedpipe", "connection reset by peer", "i/o timeout", "timeout", "eagain", "eintr", "wrapped", "noprogress", "closed", "canceled", "deadline", "eio"}

// somewhere picks a position in b, often at a structural boundary.
func somewhere(r *rng.R, b []byte) int {
	if len(b) == 0 {
		return 0
	}
	switch r.N(8) {
	case 0:
		return rng.Pick(r, 0, 1, 4, 8, 13, 14, 15)
	case 1:
		return len(b) - r.N(4)
	case 2, 3:
		// around a chunk header
		var at []int
		for i := 0; i+4 <= len(b); i++ {
			if string(b[i:i+4]) == "MTrk" {
				at = append(at, i)
			}
		}
		if len(at) > 0 {
			return min(len(b), max(0, at[r.N(len(at))]+rng.Pick(r, -1, 0, 1, 4, 7, 8, 9)))
		}
	case 4:
		if k := bytes.IndexByte(b[r.N(len(b)):], '\n'); k >= 0 {
			return k + r.N(2)
		}
	case 5:
		return min(len(b), rng.Pick(r, 511, 512, 513, 4095, 4096, 4097))
	}
	return r.N(len(b) + 1)
}

// after builds the operations that observe what a read operation produced.
func readScenario(op string, in []byte, s *spec.Stream) *spec.Scenario {
	sc := &spec.Scenario{Inputs: [][]byte{in}}
	switch op {
	case "templates":
		sc.Inputs = append(sc.Inputs, referenceMIDI())
		sc.Setup = []spec.Op{{Op: "newdis", Slot: 1}, {Op: "templates", In: 0, Slot: 1, R: s}, {Op: "decode", In: 1, Slot: 1}, {Op: "print", File: 1, Slot: 1}}
	default:
		sc.Setup = []spec.Op{{Op: op, In: 0, Slot: 1, N: 1, R: s}}
	}
	return sc
}

// mainOp is the index of the read operation in readScenario.
func mainOp(op string) int {
	if op == "templates" {
		return 1
	}
	return 0
}

func referenceMIDI() []byte {
	r := rng.New(7)
	k := map[string]bool{}
	for _, x := range gen.AllKinds {
		k[x] = true
	}
	return gen.Make(r, gen.Opt{Tracks: 2, Events: 25, BigText: 12, BigSysex: 6, LoNote: 12, Kinds: k}).MIDI(false)
}

func input(r *rng.R, op string, damaged int) []byte { return anyInput(r, op, damaged, false) }

// anyInput may be a big one when nothing disassembles it.
func anyInput(r *rng.R, op string, damaged int, light bool) []byte {
	b := longSource(r, formatOf(op), light)
	if r.P(damaged) {
		b, _ = corrupt(r, op, b)
	}
	return b
}

func init() {
	register(&Prop{ID: "C01", New: newC01, Check: checkC01,
		Rule: "An input (MIDI, text, JSON, templates, manufacturers; one in four damaged) is read by the real operation from a reader that delivers it whole, and again in fresh processes from readers that deliver it in drawn fragments, with empty reads, with data and EOF together, yielding to other goroutines or taking simulated time, or from the standard library's readers (buffers, strings, sections, files, also positioned after other data), under drawn schedules. Non-trivial: a delivery in more than one piece or with EOF together with data; distinct: by scheduling decisions and system calls."})
}

func newC01(e *Env, r *rng.R) *Case {
	op := rng.Pick(r, readOps...)
	in := anyInput(r, op, 25, true)
	c := &Case{Kind: op}
	c.Runs = append(c.Runs, libRun("base", Plain(), readScenario(op, in, nil)))
	for i := r.Range(2, 5); i > 0; i-- {
		d := delivery(r)
		if r.P(40) {
			d.Kind = rng.Pick(r, "bytes", "buffer", "strings", "bytes at", "buffer at", "strings at", "section", "limit", "multi", "tee", "bufio", "bufio at", "file", "file at")
		}
		w := World(r)
		w.Files = []spec.File{{Path: "/w", Kind: "d", Mode: 0o777, Uid: 0}}
		c.Runs = append(c.Runs, libRun("variant", w, readScenario(op, in, d)))
	}
	return c
}

func checkC01(e *Env, c *Case) (*Violation, error) {
	base, err := e.Exec(&c.Runs[0])
	if err != nil {
		return nil, err
	}
	b := results(base)
	for k := range c.Runs[1:] {
		v := &c.Runs[1+k]
		res, err := e.Exec(v)
		if err != nil {
			return nil, err
		}
		if d, d0 := died(res), died(base); d != d0 {
			return bad("c01 death", "%s: %s, but delivered whole: %s", opName(v.Lib.Setup[mainOp(c.Kind)]), orFine(d), orFine(d0)), nil
		}
		m := results(res)
		for i, op := range v.Lib.Setup {
			x, y := m[[2]int{-1, i}], b[[2]int{-1, i}]
			// the wording of an error may depend on what the reader had buffered
			if x.Err != "" && y.Err != "" && x.Panic == "" && y.Panic == "" {
				continue
			}
			if outcome(x) != outcome(y) {
				return bad("c01 "+op.Op, "%s gave %s; delivered in one piece it gives %s", opName(op), short(x), short(y)), nil
			}
		}
	}
	return nil, nil
}

func orFine(s string) string {
	if s == "" {
		return "ended normally"
	}
	return s
}

// fileOps draws operations on a decoded file.
func fileOp(r *rng.R, file int, shared bool) spec.Op {
	op := spec.Op{Op: rng.Pick(r, "print", "print", "encode", "export", "notes", "notesjson", "click", "validate", "transpose", "transpose", "printmthd", "printmtrk"), File: file, Shared: shared}
	switch op.Op {
	case "transpose":
		op.N = rng.Pick(r, 0, 1, -1, 5, -7, 12, 40)
	case "notes", "notesjson":
		op.N = rng.Pick(r, 0, 0, 3, -4)
	case "printmtrk":
		op.N = r.N(3)
	}
	if op.Op == "encode" || op.Op == "export" || op.Op == "transpose" {
		op.Obj = rng.Pick(r, 0, 0, 1)
	}
	return op
}

func writes(op string) bool {
	switch op {
	case "print", "printmthd", "printmtrk", "encode", "export", "notes", "notesjson", "click":
		return true
	}
	return false
}

// fresh is what the operation gives in a process of its own on a freshly
// decoded file.
func (e *Env) fresh(memo map[string]spec.OpResult, in *spec.Scenario, fileIn int, tmplIn int, op spec.Op) (spec.OpResult, error) {
	op.Obj = 0
	op.Shared = false
	key := fmt.Sprint(op.Op, op.In, op.N, fileIn, tmplIn, op.R, op.W)
	if x, ok := memo[key]; ok {
		return x, nil
	}
	sc := &spec.Scenario{Inputs: in.Inputs, C4: in.C4, Log: in.Log}
	if fileIn >= 0 {
		sc.Setup = append(sc.Setup, spec.Op{Op: "decode", In: fileIn, Slot: 1})
	}
	op.File = 1
	op.Slot = 0
	if tmplIn >= 0 {
		sc.Setup = append(sc.Setup, spec.Op{Op: "newdis", Slot: 1}, spec.Op{Op: "templates", In: tmplIn, Slot: 1})
		op.Slot = 1
	}
	if op.Op == "decode" {
		op.Slot = 2
	}
	sc.Setup = append(sc.Setup, op)
	run := libRun("fresh", Plain(), sc)
	res, err := e.Exec(&run)
	if err != nil {
		return spec.OpResult{}, err
	}
	x := results(res)[[2]int{-1, len(sc.Setup) - 1}]
	if d := died(res); d != "" {
		x.Panic = d
	}
	memo[key] = x
	return x, nil
}

// Ops writes a scenario's operations out.
func Ops(sc *spec.Scenario) string {
	var s []string
	for _, o := range sc.Setup {
		s = append(s, opName(o))
	}
	for t, ops := range sc.Threads {
		var x []string
		for _, o := range ops {
			x = append(x, opName(o))
		}
		s = append(s, fmt.Sprintf("caller %d: [%s]", t, strings.Join(x, ", ")))
	}
	return strings.Join(s, "; ")
}

func corrupt(r *rng.R, op string, b []byte) ([]byte, string) {
	if op == "templates" {
		return gen.DamageTemplates(r, b)
	}
	return gen.Damage(r, b, dfmt(formatOf(op)))
}

// settings are those a calling program makes once, before it starts.
func settings(r *rng.R, sc *spec.Scenario) {
	sc.C4 = r.P(20)
	if r.P(25) {
		sc.Log = r.Range(1, 5)
	}
}

// pace is how long a transfer takes, if it takes time.
func pace(r *rng.R) int64 { return rng.Pick[int64](r, 0, 0, 2e9, 61e9, 7200e9) }

// twin is an input of the same kind and length with other data in it.
func twin(r *rng.R, format string, b []byte) []byte {
	b = append([]byte{}, b...)
	if format == "midi" {
		_, _, tracks, err := gen.ReadSMF(b)
		if err != nil {
			return b
		}
		// data bytes of note events, wherever they are
		var at []int
		for _, t := range tracks {
			for _, ev := range t {
				if n := len(ev.Bytes); n == 3 && ev.Bytes[0]&0xe0 == 0x80 {
					if i := bytes.Index(b, []byte(ev.Bytes[1:])); i > 22 {
						at = append(at, i)
					}
				}
			}
		}
		for k := r.Range(1, 3); k > 0 && len(at) > 0; k-- {
			i := at[r.N(len(at))]
			x := append([]byte{}, b...)
			x[i+r.N(2)] ^= 1
			if _, _, _, err := gen.ReadSMF(x); err == nil {
				b = x
			}
		}
		return b
	}
	var at []int
	for i := range b {
		if b[i] >= '1' && b[i] <= '8' {
			at = append(at, i)
		}
	}
	for k := r.Range(1, 3); k > 0 && len(at) > 0; k-- {
		i := at[r.N(len(at))]
		b[i] = byte('1' + r.N(8))
	}
	return b
}
