// Package prop holds the properties: how to make a case, how to decide it, how
// to make it simpler.
package prop

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"os"
	"sync"
	"time"

	"midisim/gen"
	"midisim/rng"
	"midisim/run"
	"midisim/spec"
)

// Case is one test: everything that decides it, so that it can be written to a
// replay file.
type Case struct {
	Prop  string `json:"property"`
	Seed  uint64 `json:"seed"`
	Index int    `json:"index"`
	Kind  string `json:"kind"`
	Note  string `json:"note,omitempty"`
	Runs  []Run  `json:"runs,omitempty"`

	Plan []Turn `json:"plan,omitempty"` // C17: who runs for how many system calls

	Song *gen.Song `json:"song,omitempty"`
	Salt uint64    `json:"salt,omitempty"` // for what Check derives itself
}

// Run is one simulated execution of a case.
type Run struct {
	Role string         `json:"role"`
	Bin  string         `json:"bin"` // cli, lib
	Cmd  *Cmd           `json:"cmd,omitempty"`
	Spec spec.Spec      `json:"spec"`
	Lib  *spec.Scenario `json:"scenario,omitempty"`
	Cut  *PowerCut      `json:"power_cut,omitempty"`
	Edit []spec.File    `json:"edit,omitempty"` // C12: files the user changed since the previous run
	Keep bool           `json:"keep,omitempty"` // C12: start from the disk the previous run left
}

func (c *Case) Clone() *Case {
	b, err := json.Marshal(c)
	if err != nil {
		panic(err)
	}
	d := &Case{}
	if err := json.Unmarshal(b, d); err != nil {
		panic(err)
	}
	return d
}

// Violation is a property found broken.
type Violation struct {
	Sig  string `json:"signature"` // class, for minimisation and known findings
	Text string `json:"text"`
}

func bad(sig, format string, args ...any) *Violation {
	return &Violation{sig, fmt.Sprintf(format, args...)}
}

type Prop struct {
	ID    string
	New   func(e *Env, r *rng.R) *Case
	Check func(e *Env, c *Case) (*Violation, error)
	Rule  string
}

var Props = map[string]*Prop{}

func register(p *Prop) { Props[p.ID] = p }

// Env runs simulated executions and counts what they covered.
type Env struct {
	CLI, Lib, Race string

	mu       sync.Mutex
	Runs     int
	CLIRuns  int
	LibRuns  int
	RaceRuns int
	Steps    uint64
	SimTime  time.Duration
	Yields   uint64
	Decided  uint64
	Fired    map[string]int
	Traces   map[uint64]struct{}
	Probes   map[string]int
	Digests  []uint64 // filled while Recording
	Record   bool
	SelfRuns int
	Nondet   int    // of those, how many differed
	Differed string // the first difference
	Every    int    // re-run every n-th execution and compare logs
	Tracing  bool
	Slowest  time.Duration
}

func NewEnv() *Env {
	return &Env{Fired: map[string]int{}, Traces: map[uint64]struct{}{}, Probes: map[string]int{}}
}

func (e *Env) Probe(name string) {
	e.mu.Lock()
	e.Probes[name]++
	e.mu.Unlock()
}

// ErrNondet: the same description gave two different executions.
type ErrNondet struct{ Diff string }

func (e *ErrNondet) Error() string {
	return "the simulator is not deterministic: two runs of one description differ: " + e.Diff
}

func (e *Env) bin(r *Run) string {
	switch r.Bin {
	case "cli":
		return e.CLI
	case "race":
		return e.Race
	}
	return e.Lib
}

// Exec runs one simulated execution.
func (e *Env) Exec(r *Run) (*run.Result, error) {
	s := r.Spec
	if r.Lib != nil {
		b, err := json.Marshal(r.Lib)
		if err != nil {
			return nil, err
		}
		s.Lib = b
	}
	if r.Cmd != nil {
		s.Args = r.Cmd.Argv()
	}
	if e.Tracing {
		s.Sched.Trace = true
	}
	t0 := time.Now()
	res, err := run.Exec(e.bin(r), &s)
	if err != nil {
		return nil, err
	}
	if d := time.Since(t0); d > e.Slowest {
		e.mu.Lock()
		e.Slowest = max(d, e.Slowest)
		e.mu.Unlock()
		if os.Getenv("MIDISIM_SLOW") != "" {
			fmt.Fprintf(os.Stderr, "slow: %v %v %d bytes, %d steps, alloc %d, budget %d, exit %d %s\n", d, r.Cmd, size(s.Files), res.Steps, res.Alloc, s.Budget, res.Exit, res.Why)
		}
	}
	if os.Getenv("MIDISIM_DUMP") != "" {
		fmt.Fprintf(os.Stderr, "--- %s %s exit %d\n%s\n%s\n", r.Role, r.Bin, res.Exit, res.Fatal, res.Log)
	}
	e.mu.Lock()
	e.Runs++
	k := e.Runs
	switch r.Bin {
	case "cli":
		e.CLIRuns++
	case "race":
		e.RaceRuns++
	default:
		e.LibRuns++
	}
	e.Steps += res.Steps
	e.SimTime += res.SimTime
	e.Yields += res.Yields
	e.Decided += res.Decisions
	if res.Stalled > 0 {
		e.Fired["any:stall"] += res.Stalled
	}
	for _, f := range res.Fired {
		e.Fired[f]++
	}
	for i := range res.Results {
		if res.Results[i].Fired {
			e.Fired[streamKind(r.Lib, &res.Results[i])]++
		}
	}
	if len(e.Traces) < 4<<20 {
		e.Traces[res.Trace()] = struct{}{}
	}
	if e.Record {
		e.Digests = append(e.Digests, res.Digest())
	}
	again := e.Every > 0 && k%e.Every == 0
	e.mu.Unlock()
	if again {
		res2, err := run.Exec(e.bin(r), &s)
		if err != nil {
			return nil, err
		}
		e.mu.Lock()
		e.SelfRuns++
		e.mu.Unlock()
		if res.Digest() != res2.Digest() {
			e.mu.Lock()
			e.Nondet++
			if e.Differed == "" {
				e.Differed = diffLine(res.Log, res2.Log)
			}
			many := e.Nondet > 2+e.SelfRuns/50
			e.mu.Unlock()
			if many {
				return nil, &ErrNondet{diffLine(res.Log, res2.Log)}
			}
		}
	}
	return res, nil
}

func streamKind(sc *spec.Scenario, r *spec.OpResult) string {
	if sc == nil {
		return "stream"
	}
	var op *spec.Op
	if r.T < 0 {
		op = &sc.Setup[r.I]
	} else {
		op = &sc.Threads[r.T][r.I]
	}
	switch {
	case op.R != nil && op.R.Fail > 0:
		return "stream:read-error"
	case op.R != nil && op.R.Cut > 0:
		return "stream:premature-end"
	case op.W != nil && op.W.Fail > 0:
		return "stream:write-error"
	}
	return "stream"
}

func diffLine(a, b string) string {
	n := min(len(a), len(b))
	for i := 0; i < n; i++ {
		if a[i] != b[i] {
			lo := max(0, i-60)
			return fmt.Sprintf("%q / %q", a[lo:min(len(a), i+60)], b[lo:min(len(b), i+60)])
		}
	}
	return fmt.Sprintf("lengths %d and %d", len(a), len(b))
}

func hash(b []byte) uint64 {
	h := fnv.New64a()
	h.Write(b)
	return h.Sum64()
}

// World draws everything of a run's surroundings that must not matter.
func World(r *rng.R) spec.Spec {
	return spec.Spec{
		Sched: Sched(r), Rand: r.U64() >> 1, Clock: Clock(r), NCPU: rng.Pick(r, 1, 2, 8, 64), Pid: r.Range(2, 4000000),
		Uid: rng.Pick(r, 0, 1000), Umask: rng.Pick[uint32](r, 0o022, 0o002, 0o077, 0), Cwd: "/w", Env: Environ(r), Free: -1, Stalls: Stalls(r),
	}
}

// Stalls draws slow devices.
func Stalls(r *rng.R) []spec.Stall {
	if r.P(85) {
		return nil
	}
	long := func() int64 { return rng.Pick[int64](r, 1e3, 1e6, 300e6, 2e9, 31e9, 700e9, 7200e9) }
	if r.P(30) {
		return []spec.Stall{{At: -1, For: long()}}
	}
	var s []spec.Stall
	for k := r.Range(1, 3); k > 0; k-- {
		s = append(s, spec.Stall{At: r.N(rng.Pick(r, 4, 15, 60)), For: long()})
	}
	return s
}

func Sched(r *rng.R) spec.Sched {
	return spec.Sched{Seed: r.U64() >> 1, YieldSeed: r.U64() >> 1, YieldMean: rng.Pick[uint64](r, 0, 1, 2, 5, 20, 100, 1000), Policy: rng.Pick(r, 0, 0, 1, 1, 2, 3)}
}

func Clock(r *rng.R) int64 {
	if r.P(25) { // the days programs get wrong: the turn of a year, leap days, month ends, noon and midnight
		day := time.Date(rng.Pick(r, 1999, 2000, 2023, 2024, 2025, 2037, 2038), time.Month(r.Range(1, 12)), rng.Pick(r, 1, 28, 29, 30, 31), rng.Pick(r, 0, 12, 23), rng.Pick(r, 0, 59), rng.Pick(r, 0, 59), rng.Pick(r, 0, 999999999), time.UTC)
		if r.P(30) {
			day = time.Date(rng.Pick(r, 2000, 2024), 2, 29, r.N(24), 0, 0, 0, time.UTC)
		}
		return day.UnixNano()
	}
	return rng.Pick[int64](r, 1, 1257894000000000000, 1700000000000000000, 4102444799999999999, int64(r.U64()>>2))
}

func Environ(r *rng.R) []string {
	env := []string{}
	add := func(p int, k string, vs ...string) {
		if r.P(p) {
			env = append(env, k+"="+rng.Pick(r, vs...))
		}
	}
	add(60, "HOME", "/home/u", "/", "")
	add(60, "LANG", "C", "en_ZA.UTF-8", "de_DE.UTF-8", "")
	add(30, "LC_ALL", "C", "POSIX", "ja_JP.UTF-8")
	add(40, "TZ", "UTC", "Africa/Johannesburg", "nonsense", "", ":/etc/localtime")
	add(30, "TMPDIR", "/tmp", "/nonexistent", "")
	add(30, "TERM", "xterm", "dumb", "")
	add(20, "COLUMNS", "10", "200")
	add(20, "NO_COLOR", "1")
	add(20, "PWD", "/w", "/elsewhere")
	add(20, "DEBUG", "1", "true")
	add(20, "VERBOSE", "1")
	add(20, "MIDIASM_DEBUG", "1")
	add(20, "USER", "root", "u")
	return env
}

// zones are time zone files: local time, and a place.
func zones(r *rng.R) []spec.File {
	tz := func() []byte {
		off := rng.Pick(r, 7200, -18000, 20700, 50400, -43200, r.Range(-50000, 50000))
		b := append([]byte("TZif"), make([]byte, 16)...)
		for _, n := range []byte{0, 0, 0, 0, 1, 4} {
			b = append(b, 0, 0, 0, n)
		}
		b = append(b, byte(off>>24), byte(off>>16), byte(off>>8), byte(off), 0, 0)
		return append(b, "SIM\x00"...)
	}
	var fs []spec.File
	for _, d := range []string{"/etc", "/usr", "/usr/share", "/usr/share/zoneinfo", "/usr/share/zoneinfo/Africa"} {
		fs = append(fs, spec.File{Path: d, Kind: "d", Mode: 0o755})
	}
	return append(fs, spec.File{Path: "/etc/localtime", Kind: "f", Mode: 0o644, Data: tz()}, spec.File{Path: "/usr/share/zoneinfo/Africa/Johannesburg", Kind: "f", Mode: 0o644, Data: tz()})
}

// Plain is the quiet world runs are compared with.
func Plain() spec.Spec {
	return spec.Spec{Sched: spec.Sched{Explicit: true}, Rand: 1, Clock: 1257894000000000000, NCPU: 1, Pid: 77, Umask: 0o022, Cwd: "/w", Free: -1}
}

// Limits sets the step and memory budgets in proportion to the input.
func Limits(s *spec.Spec, input int) {
	s.Budget = 3_000_000 + 20_000*uint64(input)
	s.MaxAlloc = 32<<20 + 256*uint64(input)
	s.MaxTotal = min(3<<30, 1<<30+100_000*uint64(input)) // nothing is collected: this is what the run allocates in all
}

// Songs

// source draws an input in one of the formats.
func source(r *rng.R, format string) []byte {
	return drawSource(r, format, gen.DrawOpt, func(r *rng.R) gen.Opt { return gen.DrawOpt(r, true) })
}

// longSource may also draw long ones; light is what does not disassemble.
func longSource(r *rng.R, format string, light bool) []byte {
	if light && r.N(250) == 0 {
		return drawSource(r, format, gen.DrawBig, func(r *rng.R) gen.Opt { return gen.DrawBig(r, true) })
	}
	return drawSource(r, format, gen.DrawLong, gen.DrawLines)
}

func drawSource(r *rng.R, format string, draw func(*rng.R, bool) gen.Opt, lines func(*rng.R) gen.Opt) []byte {
	b := anySource(r, format, draw, lines)
	if r.P(3) {
		b = filled(r, format, b)
	}
	return b
}

// filled makes an input as long as some number of blocks, or a byte more or
// less, with what means nothing.
func filled(r *rng.R, format string, b []byte) []byte {
	block := rng.Pick(r, 64, 512, 1024, 4096, 4096, 32768, 65536)
	n := (len(b)+8+block)/block*block + rng.Pick(r, 0, 0, 0, 1, -1)
	if n < len(b)+9 || n > 140000 {
		return b
	}
	b = append([]byte{}, b...)
	switch format {
	case "midi":
		b = append(b, "XYZa"...)
		b = binary.BigEndian.AppendUint32(b, uint32(n-len(b)-4))
		return append(b, bytes.Repeat([]byte{byte(r.N(128))}, n-len(b))...)
	case "text":
		if r.P(50) { // all of it is read before the music
			return append(append(bytes.Repeat([]byte("-"), n-len(b)-1), '\n'), b...)
		}
		return append(b, bytes.Repeat([]byte("\n"), n-len(b))...)
	}
	return append(b, bytes.Repeat([]byte(rng.Pick(r, " ", "\n")), n-len(b))...)
}

func anySource(r *rng.R, format string, draw func(*rng.R, bool) gen.Opt, lines func(*rng.R) gen.Opt) []byte {
	switch format {
	case "midi":
		o := draw(r, false)
		s := gen.Make(r, o)
		b := s.MIDI(o.Running)
		if r.P(4) { // a chunk of another kind between or after the tracks
			b = alien(r, b)
		}
		return b
	case "text":
		return gen.Make(r, lines(r)).Text(r, r.P(70))
	case "json":
		return gen.Make(r, lines(r)).JSONSource(r)
	case "templates":
		return templates(r)
	case "mfr":
		return manufacturers(r)
	}
	panic(format)
}

func alien(r *rng.R, b []byte) []byte {
	n := r.Range(1, 30)
	c := append([]byte("XYZa"), 0, 0, 0, byte(n))
	c = append(c, r.Bytes(n)...)
	if r.P(50) {
		return append(append([]byte{}, b...), c...)
	}
	return append(append(append([]byte{}, b[:14]...), c...), b[14:]...)
}

var templateNames = []string{"trackname", "text", "noteon", "noteoff", "tempo", "endoftrack", "keysignature", "controller", "sysexmessage", "MThd", "MTrk", "event", "hex", "mine"}

func templates(r *rng.R) []byte {
	t := map[string]string{}
	for i := r.Range(1, 6); i > 0; i-- {
		n := rng.Pick(r, templateNames...)
		t[n] = templateFor(r, n)
	}
	b, _ := json.MarshalIndent(map[string]any{"templates": t}, "", "  ")
	return b
}

func templateFor(r *rng.R, n string) string {
	w := rng.Pick(r, ">>>", "***", "[x]", "=>", "::")
	switch n {
	case "trackname":
		return "{{.Type}} {{pad 22 .Tag}} " + w + " {{.Name}}"
	case "noteon", "noteoff":
		return "{{.Tag}} " + w + " {{.Channel}} {{.Note.Value}}"
	case "tempo":
		return "{{.Tag}} " + w + " {{.Tempo}}"
	case "hex":
		return w
	case "MThd":
		return "{{.Tag}} " + w + " {{.Format}}\n"
	case "MTrk":
		return "{{.Tag}} " + w + " {{.TrackNumber}}\n{{range .Events}}{{template \"event\" .}}{{end}}"
	case "event":
		return "{{.Tick}} " + w + " {{template \"events\" .Event}}"
	case "mine":
		if r.P(50) {
			return "{{define \"text\"}}" + w + " {{.Text}}{{end}}"
		}
		return "{{define \"tempo\"}}" + w + " {{.Tempo}}{{end}}"
	}
	return "{{.Tag}} " + w
}

func manufacturers(r *rng.R) []byte {
	type m struct {
		ID     []int  `json:"id"`
		Region string `json:"region"`
		Name   string `json:"name"`
	}
	var ms []m
	for i := r.Range(1, 6); i > 0; i-- {
		id := []int{r.N(128)}
		if r.P(40) {
			id = gen.NoManufacturer(r)
		} else if r.P(40) {
			id = []int{0, r.N(128), r.N(128)}
		}
		ms = append(ms, m{id, rng.Pick(r, "European", "American"), rng.Pick(r, "Acme", "Widgets Inc", "Ünïcode")})
	}
	b, _ := json.MarshalIndent(map[string]any{"manufacturers": ms}, "", "  ")
	return b
}
