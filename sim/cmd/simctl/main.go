// simctl builds the simulated binaries from /repo's working tree and decides
// one property: simctl check ID, simctl replay FILE.
package main

import (
	"crypto/sha256"
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"os/signal"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	"midisim/build"
	"midisim/prop"
	"midisim/rng"
	"midisim/run"
)

var (
	repo  = env("MIDISIM_REPO", "/repo")
	verif = env("MIDISIM_VERIF", "/verif")
)

func env(k, d string) string {
	if v := os.Getenv(k); v != "" {
		return v
	}
	return d
}

func main() {
	if len(os.Args) < 3 {
		fmt.Fprintln(os.Stderr, "usage: simctl check ID | replay FILE | one ID INDEX")
		os.Exit(2)
	}
	dir, err := os.MkdirTemp("", "midisim")
	if err != nil {
		trouble(err)
	}
	stop := make(chan os.Signal, 1)
	signal.Notify(stop, os.Interrupt, syscall.SIGTERM)
	go func() {
		<-stop
		os.RemoveAll(dir)
		os.Exit(2)
	}()
	code := 2
	func() {
		defer os.RemoveAll(dir)
		defer func() {
			if x := recover(); x != nil {
				fmt.Fprintf(os.Stderr, "simctl: %v\n%s", x, debug.Stack())
				code = 2
			}
		}()
		switch os.Args[1] {
		case "check":
			code = check(dir, os.Args[2])
		case "replay":
			code = replay(dir, os.Args[2])
		case "one":
			code = one(dir, os.Args[2], os.Args[3])
		default:
			fmt.Fprintln(os.Stderr, "unknown command", os.Args[1])
		}
	}()
	os.Exit(code)
}

func trouble(err error) {
	fmt.Fprintln(os.Stderr, "simctl:", err)
	os.Exit(2)
}

func integer(k string, d int) int {
	if v, err := strconv.Atoi(os.Getenv(k)); err == nil {
		return v
	}
	return d
}

func environment(dir string, race bool) (*prop.Env, *build.Result, error) {
	b, err := build.Build(repo, filepath.Join(verif, "sim"), dir)
	if err != nil {
		return nil, nil, err
	}
	e := prop.NewEnv()
	e.CLI, e.Lib = b.CLI, b.Lib
	if race {
		if f, err := build.Race(repo, dir); err == nil {
			e.Race = f
		} else {
			fmt.Fprintln(os.Stderr, "simctl: no race-detector build:", err)
		}
	}
	return e, b, nil
}

// Replay is the file a violation leaves.
type Replay struct {
	Property  string          `json:"property"`
	Violation *prop.Violation `json:"violation"`
	Seed      int             `json:"verif_seed"`
	Case      *prop.Case      `json:"case"`
	Digests   []string        `json:"execution_digests"` // of each simulated run, in order
	Code      string          `json:"code_digest"`       // the repository's sources
	How       string          `json:"how"`
	Minimised string          `json:"minimised"`
}

type failure struct {
	c *prop.Case
	v *prop.Violation
}

func newCase(p *prop.Prop, e *prop.Env, seed uint64, i int) (c *prop.Case, err error) {
	defer func() {
		if x := recover(); x != nil {
			if er, ok := x.(error); ok {
				err = fmt.Errorf("%s case %d: %w", p.ID, i, er)
			} else {
				err = fmt.Errorf("%s case %d: %v", p.ID, i, x)
			}
			if _, ok := x.(runtime.Error); ok {
				err = fmt.Errorf("%w\n%s", err, debug.Stack())
			}
		}
	}()
	s := rng.Derive(seed, fmt.Sprintf("%s/%d", p.ID, i))
	c = p.New(e, rng.New(s))
	c.Prop, c.Seed, c.Index = p.ID, s, i
	return c, nil
}

func check(dir, id string) int {
	start := time.Now()
	p := prop.Props[id]
	if p == nil {
		fmt.Fprintln(os.Stderr, "no such property", id)
		return 2
	}
	seed := integer("VERIF_SEED", 1)
	tier := env("VERIF_TIER", "quick")
	if tier != "thorough" {
		tier = "quick"
	}
	e, b, err := environment(dir, id == "C09")
	if err != nil {
		fmt.Fprintln(os.Stderr, "simctl:", err)
		return 2
	}
	budget := 45 * time.Second
	if tier == "thorough" {
		budget = 600 * time.Second
	}
	if s := integer("MIDISIM_SECONDS", 0); s > 0 {
		budget = time.Duration(s) * time.Second
	}
	limit := integer("MIDISIM_CASES", 1<<40)
	workers := integer("MIDISIM_WORKERS", runtime.NumCPU())
	e.Every = 150

	known := loadKnown(id)
	began := time.Now()
	deadline := began.Add(budget)
	var mu sync.Mutex
	next, cases := 0, 0
	kinds := map[string]int{}
	hit := map[string]bool{}
	var fails []failure
	var herr error
	var samples []any
	var wg sync.WaitGroup
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				mu.Lock()
				if len(fails) > 0 || herr != nil || next >= limit || time.Now().After(deadline) {
					mu.Unlock()
					return
				}
				i := next
				next++
				mu.Unlock()
				c, err := newCase(p, e, uint64(seed), i)
				var v *prop.Violation
				if err == nil {
					v, err = p.Check(e, c)
				}
				mu.Lock()
				cases++
				if err != nil {
					if herr == nil {
						herr = fmt.Errorf("case %d: %w", i, err)
					}
				} else {
					kinds[c.Kind]++
					if len(samples) < 4 && len(c.Runs) > 0 {
						samples = append(samples, sample(c))
					}
					if v != nil {
						if k := known.match(v); k != "" {
							hit[k] = true
						} else {
							fails = append(fails, failure{c, v})
						}
					}
				}
				mu.Unlock()
			}
		}()
	}
	wg.Wait()
	searched := time.Since(began)

	if herr != nil && len(fails) == 0 {
		var nd *prop.ErrNondet
		if errors.As(herr, &nd) {
			fmt.Fprintln(os.Stderr, "simctl:", herr)
		} else {
			fmt.Fprintln(os.Stderr, "simctl: the check could not run:", herr)
		}
		return 2
	}
	for _, k := range known.sorted(hit) {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, k)
	}
	ev := map[string]any{
		"property": id, "tier": tier, "seed": seed, "level": "exploration", "wall_s": time.Since(start).Seconds(), "violations": len(fails),
		"assumptions": assumptions,
		"coverage":    coverage(p, e, b, cases, kinds, samples, searched),
	}
	code := 0
	if len(fails) > 0 {
		sort.Slice(fails, func(i, j int) bool { return fails[i].c.Index < fails[j].c.Index })
		f := fails[0]
		path, v := report(p, e, f, seed)
		fmt.Printf("%s\n", v.Text)
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, path)
		ev["wall_s"] = time.Since(start).Seconds()
		code = 1
	}
	out, _ := json.MarshalIndent(ev, "", " ")
	if os.Getenv("MIDISIM_EVIDENCE") == "off" {
		return code
	}
	os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
	if err := os.WriteFile(filepath.Join(verif, "evidence", id+".json"), append(out, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, "simctl:", err)
		if code == 0 {
			return 2
		}
	}
	if e.Nondet > 0 {
		fmt.Fprintf(os.Stderr, "simctl: %d of %d repeated runs differed, first: %s\n", e.Nondet, e.SelfRuns, e.Differed)
	}
	if code == 0 {
		fmt.Printf("%s: held on %d cases (%d simulated runs) in %.0f s\n", id, cases, e.Runs, time.Since(start).Seconds())
	}
	return code
}

func report(p *prop.Prop, e *prop.Env, f failure, seed int) (string, *prop.Violation) {
	e.Every = 0
	t := time.Now()
	c, v, tried := prop.Minimise(e, p, f.c, f.v, t.Add(time.Duration(integer("MIDISIM_SHRINK", 25))*time.Second))
	e.Digests, e.Record = nil, true
	v2, err := p.Check(e, c)
	e.Record = false
	if err != nil || v2 == nil {
		c, v = f.c, f.v
		e.Digests, e.Record = nil, true
		p.Check(e, c)
		e.Record = false
	} else {
		v = v2
	}
	r := Replay{Property: p.ID, Violation: v, Seed: seed, Case: c, Code: codeDigest(), How: "bash /verif/check.sh replay <this file>",
		Minimised: fmt.Sprintf("%d simpler cases tried in %.1f s", tried, time.Since(t).Seconds())}
	for _, d := range e.Digests {
		r.Digests = append(r.Digests, fmt.Sprintf("%016x", d))
	}
	b, _ := json.MarshalIndent(r, "", " ")
	os.MkdirAll(filepath.Join(verif, "replays"), 0o755)
	path := filepath.Join(verif, "replays", fmt.Sprintf("%s-%016x.json", p.ID, c.Seed))
	os.WriteFile(path, append(b, '\n'), 0o644)
	return path, v
}

func replay(dir, file string) int {
	b, err := os.ReadFile(file)
	if err != nil {
		fmt.Fprintln(os.Stderr, "simctl:", err)
		return 2
	}
	var r Replay
	if err := json.Unmarshal(b, &r); err != nil {
		fmt.Fprintln(os.Stderr, "simctl:", err)
		return 2
	}
	p := prop.Props[r.Property]
	if p == nil || r.Case == nil {
		fmt.Fprintln(os.Stderr, "simctl: not a replay file")
		return 2
	}
	e, _, err := environment(dir, r.Property == "C09")
	if err != nil {
		fmt.Fprintln(os.Stderr, "simctl:", err)
		return 2
	}
	e.Record = true
	v, err := p.Check(e, r.Case)
	if err != nil {
		fmt.Fprintln(os.Stderr, "simctl:", err)
		return 2
	}
	same := len(e.Digests) == len(r.Digests)
	for i := range e.Digests {
		same = same && fmt.Sprintf("%016x", e.Digests[i]) == r.Digests[i]
	}
	code := codeDigest() == r.Code
	switch {
	case v == nil:
		fmt.Printf("not reproduced: the property holds on this case (same sources: %v)\n", code)
		return 0
	default:
		fmt.Println(v.Text)
		fmt.Printf("reproduced; executions identical: %v, verdict identical: %v, same sources: %v\n", same, v.Text == r.Violation.Text, code)
		fmt.Printf("VIOLATION property=%s replay=%s\n", r.Property, file)
		return 1
	}
}

// one runs one case, for debugging.
func one(dir, id, index string) int {
	p := prop.Props[id]
	e, _, err := environment(dir, id == "C09")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	i, _ := strconv.Atoi(index)
	c, err := newCase(p, e, uint64(integer("VERIF_SEED", 1)), i)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	b, _ := json.MarshalIndent(c, "", " ")
	fmt.Println(string(b))
	v, err := p.Check(e, c)
	fmt.Println(v, err)
	return 0
}

func codeDigest() string {
	h := sha256.New()
	filepath.Walk(repo, func(p string, i os.FileInfo, err error) error {
		if err != nil {
			return nil
		}
		if i.IsDir() {
			if strings.HasPrefix(i.Name(), ".") && p != repo {
				return filepath.SkipDir
			}
			return nil
		}
		if strings.HasSuffix(p, ".go") && !strings.HasSuffix(p, "_test.go") || i.Name() == "go.mod" {
			b, _ := os.ReadFile(p)
			fmt.Fprintf(h, "%s %d\n", strings.TrimPrefix(p, repo), len(b))
			h.Write(b)
		}
		return nil
	})
	return fmt.Sprintf("%x", h.Sum(nil)[:8])
}

func sample(c *prop.Case) any {
	type runs struct {
		Role     string `json:"role"`
		Argv     string `json:"argv,omitempty"`
		Ops      string `json:"operations,omitempty"`
		Faults   any    `json:"faults,omitempty"`
		Sched    any    `json:"schedule"`
		World    string `json:"world"`
		PowerCut bool   `json:"power_cut,omitempty"`
	}
	var rs []runs
	for i := range c.Runs {
		r := &c.Runs[i]
		x := runs{Role: r.Role, Sched: map[string]any{"seed": r.Spec.Sched.Seed, "yield_mean": r.Spec.Sched.YieldMean, "policy": r.Spec.Sched.Policy}, PowerCut: r.Cut != nil,
			World: fmt.Sprintf("hash seed %d, clock %d, %d CPUs, pid %d, uid %d, free %d, env %v", r.Spec.Rand, r.Spec.Clock, r.Spec.NCPU, r.Spec.Pid, r.Spec.Uid, r.Spec.Free, r.Spec.Env)}
		if len(r.Spec.Faults) > 0 {
			x.Faults = r.Spec.Faults
		}
		if r.Cmd != nil {
			x.Argv = r.Cmd.String()
		}
		if r.Lib != nil {
			x.Ops = prop.Ops(r.Lib)
		}
		rs = append(rs, x)
	}
	return map[string]any{"index": c.Index, "case_seed": c.Seed, "kind": c.Kind, "runs": rs}
}

func coverage(p *prop.Prop, e *prop.Env, b *build.Result, cases int, kinds map[string]int, samples []any, d time.Duration) map[string]any {
	h := d.Hours()
	return map[string]any{
		"evaluations":                e.Runs,
		"distinct_nontrivial":        len(e.Traces),
		"rule":                       p.Rule,
		"samples":                    samples,
		"cases":                      cases,
		"cases_by_kind":              kinds,
		"simulated_runs_of_the_cli":  e.CLIRuns,
		"simulated_runs_of_library":  e.LibRuns,
		"simulated_runs_race_build":  e.RaceRuns,
		"seeds_per_hour":             int(float64(cases) / h),
		"runs_per_hour":              int(float64(e.Runs) / h),
		"simulated_seconds":          e.SimTime.Seconds(),
		"statements_executed":        e.Steps,
		"scheduling_decisions":       e.Decided,
		"preemptions":                e.Yields,
		"faults_fired":               e.Fired,
		"reached":                    e.Probes,
		"determinism_reruns":         e.SelfRuns,
		"determinism_differences":    e.Nondet,
		"state_measure":              "distinct_nontrivial counts distinct hashes over the sequence of scheduling decisions (which of the runnable goroutines ran) and of system calls with their results",
		"scheduling_points_inserted": b.Points,
		"go":                         b.GoVersion,
		"real_code":                  "every package of the repository (main, commands, ops, encoding, midi, log), the Go standard library, the Go runtime's scheduler data structures, channels, maps and memory allocator",
		"stubbed":                    "the kernel (files, directories, descriptors, standard streams, clock, process id, randomness: package simk), the choice of the next goroutine, preemption points, the race of timers, readers and writers handed to library calls; garbage collection is off",
		"exhaustive":                 false,
	}
}

var assumptions = []string{
	"goroutines are preempted at statements of the repository's own code, at channel, mutex and system-call boundaries, not inside standard-library statements",
	"the simulated kernel implements the Linux file calls the Go standard library makes on amd64; an unsupported call stops the check with exit 2",
	"sampling: schedules, faults and inputs are drawn from seeds, not enumerated",
}

type known []struct{ sig, text string }

// loadKnown reads /verif/known_findings.txt: lines
// "finding: property=ID sig=<signature prefix> | text"; "fixed:" lines
// suppress nothing.
func loadKnown(id string) known {
	var k known
	b, err := os.ReadFile(filepath.Join(verif, "known_findings.txt"))
	if err != nil {
		return k
	}
	for _, l := range strings.Split(string(b), "\n") {
		rest, ok := strings.CutPrefix(l, "finding: property="+id+" sig=")
		if !ok {
			continue
		}
		sig, text, ok := strings.Cut(rest, " | ")
		if ok {
			k = append(k, struct{ sig, text string }{sig, text})
		}
	}
	return k
}

func (k known) match(v *prop.Violation) string {
	for _, x := range k {
		if strings.HasPrefix(v.Sig, x.sig) {
			return x.text
		}
	}
	return ""
}

func (k known) sorted(hit map[string]bool) []string {
	var out []string
	for x := range hit {
		out = append(out, x)
	}
	sort.Strings(out)
	return out
}

var _ = run.Wall
