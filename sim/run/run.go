// Package run executes one simulated run and collects everything observable.
package run

import (
	"bytes"
	"context"
	"encoding/base64"
	"encoding/json"
	"errors"
	"fmt"
	"hash/fnv"
	"io"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"syscall"
	"time"

	"midisim/simfs"
	"midisim/spec"
)

// Wall is the watchdog for one run; tripping it is an error of the check.
var Wall = 120 * time.Second

type Op struct {
	Cls, Path string
	Ret       int
	Err       string
}

// Fired is a fault that hit. Path is empty when the process died of it.
type Fired struct {
	Cls, Kind, Path string
	Fault           int // index in Spec.Faults, -1: disk full
}

type Result struct {
	Exit    int    // exit status; 99 killed by a simulated crash, 97 step budget, 98 memory, -1 signal
	Signal  string // set when a signal ended the process
	Why     string // HANG, OOM, CRASH, or empty
	Fatal   string // what the Go runtime said on a panic or deadlock
	Stdout  []byte
	Stderr  []byte
	FS      *simfs.FS // the disk afterwards
	Effects []simfs.Effect
	EffIno  []int // inode created or touched by each effect
	Synced  map[int]int
	Ops     []Op
	Stalled int      // system calls that took their time
	Fired   []string // "class:kind" of each fault that fired
	FiredAt []Fired  // the same, with the place
	Counts  map[string]int
	Log     string // the raw event log

	Steps, Decisions, Hash, Yields, Alloc, Largest, MaxRunnable uint64
	SimTime                                                     time.Duration

	Picks, PickN []uint64
	YieldAt      []uint64
	Results      []spec.OpResult
	Left         []spec.Left
	Trouble      string // harness trouble: unsupported system call, bad spec
}

func (r *Result) Crashed() bool { return r.Why == "CRASH" }

// Panicked: the process died of a Go panic, fatal error, deadlock, signal,
// step budget or memory limit.
func (r *Result) Died() string {
	switch {
	case r.Why == "HANG":
		return "did not end within the step budget"
	case r.Why == "OOM":
		return "exhausted memory"
	case r.Signal != "":
		return "killed by " + r.Signal
	case r.Exit == 2 && r.Fatal != "":
		return "died: " + firstLine(r.Fatal)
	}
	return ""
}

func firstLine(s string) string {
	for _, l := range strings.Split(s, "\n") {
		if strings.HasPrefix(l, "panic:") || strings.HasPrefix(l, "fatal error:") || strings.HasPrefix(l, "runtime:") {
			return l
		}
	}
	return strings.SplitN(s, "\n", 2)[0]
}

// Sig identifies the place of a death, for classification.
func (r *Result) Sig() string {
	d := r.Died()
	if r.Fatal == "" {
		return d
	}
	// first frame in the program's own code
	for _, l := range strings.Split(r.Fatal, "\n") {
		if strings.Contains(l, "transcriptaze/midiasm/") && strings.Contains(l, ".go:") && !strings.Contains(l, "zzsim") {
			l = strings.TrimSpace(l)
			if i := strings.Index(l, " +0x"); i > 0 {
				l = l[:i]
			}
			if i := strings.Index(l, "midiasm/"); i >= 0 {
				l = l[i+8:]
			}
			if i := strings.LastIndex(l, ":"); i > 0 {
				l = l[:i] // file, not line: lines move
			}
			return d + " at " + l
		}
	}
	return d
}

func Populate(files []spec.File, clock int64) (*simfs.FS, error) {
	f := simfs.New()
	f.Now = clock
	for _, x := range files {
		dir, name, n, e := f.Walk(simfs.Root, x.Path, 0, false)
		if e != "" {
			return nil, fmt.Errorf("bad initial file %s: %s", x.Path, e)
		}
		if n != nil {
			if x.Kind == "d" {
				n.Mode, n.Uid = x.Mode, x.Uid
				continue
			}
			return nil, fmt.Errorf("duplicate initial file %s", x.Path)
		}
		if x.Kind == "h" {
			t := f.Must(x.To)
			if t == nil {
				return nil, fmt.Errorf("bad hard link %s", x.Path)
			}
			f.Apply(simfs.Effect{Op: "link", Dir: dir.Ino, Name: name, Ino: t.Ino})
			continue
		}
		data := x.Data
		if x.Kind == "l" {
			data = []byte(x.To)
		}
		k := f.Apply(simfs.Effect{Op: "create", Dir: dir.Ino, Name: name, Kind: x.Kind[0], Mode: x.Mode, Uid: x.Uid, Data: data})
		f.Inodes[k].Mtime = mtime(x, clock)
	}
	f.Now = clock
	return f, nil
}

func mtime(x spec.File, clock int64) int64 {
	if x.Mtime != 0 {
		return x.Mtime
	}
	return clock - 3600e9
}

// Files turns a disk back into the list a Spec starts from.
func Files(f *simfs.FS) []spec.File {
	var out []spec.File
	seen := map[int]string{}
	for _, p := range f.Paths() {
		n := f.Must(p)
		if n == nil {
			continue
		}
		if n.Kind == simfs.File {
			if q, ok := seen[n.Ino]; ok {
				out = append(out, spec.File{Path: p, Kind: "h", To: q})
				continue
			}
			seen[n.Ino] = p
		}
		out = append(out, spec.File{Path: p, Kind: string(n.Kind), Mode: n.Mode, Uid: n.Uid, Data: n.Data, To: n.To, Mtime: n.Mtime})
	}
	return out
}

// Exec runs s on bin.
func Exec(bin string, s *spec.Spec) (*Result, error) {
	b, err := json.Marshal(s)
	if err != nil {
		return nil, err
	}
	fs, err := Populate(s.Files, s.Clock)
	if err != nil {
		return nil, err
	}
	ctx, cancel := context.WithTimeout(context.Background(), Wall)
	defer cancel()
	c := exec.CommandContext(ctx, bin)
	c.Args = []string{"midiasm"}
	c.Env = append([]string{}, s.Env...)
	c.Env = append(c.Env, "MIDISIM=1", "MIDISIM_SEED="+strconv.FormatUint(s.Rand, 10), "GOMAXPROCS=1", "GOGC=off", "GODEBUG=asyncpreemptoff=1", "GORACE=atexit_sleep_ms=0")
	r3, w3, err := os.Pipe()
	if err != nil {
		return nil, err
	}
	r4, w4, err := os.Pipe()
	if err != nil {
		r3.Close()
		w3.Close()
		return nil, err
	}
	c.ExtraFiles = []*os.File{r3, w4}
	var se bytes.Buffer
	c.Stderr = &limited{&se, 1 << 20}
	if err := c.Start(); err != nil {
		for _, f := range []*os.File{r3, w3, r4, w4} {
			f.Close()
		}
		return nil, err
	}
	r3.Close()
	w4.Close()
	go func() {
		w3.Write(b)
		w3.Close()
	}()
	log, rerr := io.ReadAll(r4)
	r4.Close()
	werr := c.Wait()
	if ctx.Err() != nil {
		return nil, fmt.Errorf("watchdog: a run took more than %v", Wall)
	}
	if rerr != nil {
		return nil, rerr
	}
	res := &Result{FS: fs, Log: string(log), Counts: map[string]int{}, Synced: map[int]int{}}
	res.Fatal = se.String()
	if werr != nil {
		var ee *exec.ExitError
		if !errors.As(werr, &ee) {
			return nil, werr
		}
		if ws, ok := ee.Sys().(syscall.WaitStatus); ok && ws.Signaled() {
			res.Signal = ws.Signal().String()
			res.Exit = -1
		} else {
			res.Exit = ee.ExitCode()
		}
	}
	if err := res.parse(); err != nil {
		return nil, err
	}
	if res.Exit == 96 || res.Exit == 95 || res.Trouble != "" {
		return nil, fmt.Errorf("simulator: %s (exit %d)", res.Trouble, res.Exit)
	}
	if strings.Contains(res.Fatal, "sim: no startupRand") {
		return nil, fmt.Errorf("simulator: %s", res.Fatal)
	}
	return res, nil
}

type limited struct {
	b   *bytes.Buffer
	max int
}

func (l *limited) Write(p []byte) (int, error) {
	if room := l.max - l.b.Len(); room > 0 {
		if room > len(p) {
			room = len(p)
		}
		l.b.Write(p[:room])
	}
	return len(p), nil
}

func (r *Result) parse() error {
	fresh := false
	for _, l := range strings.Split(r.Log, "\n") {
		if l == "" {
			continue
		}
		rest := ""
		if len(l) > 2 {
			rest = l[2:]
		}
		switch {
		case l == "HANG" || l == "OOM" || l == "CRASH":
			r.Why = l
		case l[0] == '!':
			r.Trouble = rest
		case strings.HasPrefix(l, "E "):
			var e simfs.Effect
			if err := json.Unmarshal([]byte(rest), &e); err != nil {
				return fmt.Errorf("bad effect %q: %v", l, err)
			}
			ino := r.FS.Apply(e)
			if ino == 0 {
				ino = e.Ino
			}
			r.Effects = append(r.Effects, e)
			r.EffIno = append(r.EffIno, ino)
		case strings.HasPrefix(l, "I "):
			var e simfs.Effect
			if err := json.Unmarshal([]byte(rest), &e); err != nil {
				return fmt.Errorf("bad effect %q: %v", l, err)
			}
			r.FS.Apply(e)
		case strings.HasPrefix(l, "D "):
			if rest == "*" {
				for k := range r.FS.Inodes {
					r.Synced[k] = len(r.Effects)
				}
			} else if k, err := strconv.Atoi(rest); err == nil {
				r.Synced[k] = len(r.Effects)
			}
		case strings.HasPrefix(l, "S "):
			fd := l[2]
			b, err := base64.StdEncoding.DecodeString(l[4:])
			if err != nil {
				return fmt.Errorf("bad output record: %v", err)
			}
			if fd == '1' {
				r.Stdout = append(r.Stdout, b...)
			} else {
				r.Stderr = append(r.Stderr, b...)
			}
		case strings.HasPrefix(l, "O "):
			var o Op
			f := strings.SplitN(rest, " ", 2)
			o.Cls = f[0]
			q, err := strconv.QuotedPrefix(f[1])
			if err != nil {
				return fmt.Errorf("bad op record %q", l)
			}
			o.Path, _ = strconv.Unquote(q)
			tail := strings.SplitN(strings.TrimSpace(f[1][len(q):]), " ", 2)
			o.Ret, _ = strconv.Atoi(tail[0])
			if len(tail) > 1 {
				o.Err = tail[1]
			}
			if fresh {
				r.FiredAt[len(r.FiredAt)-1].Path = o.Path
				fresh = false
			}
			r.Ops = append(r.Ops, o)
			r.Counts[o.Cls]++
		case strings.HasPrefix(l, "F "):
			f := strings.Fields(l)
			k, _ := strconv.Atoi(f[1])
			r.Fired = append(r.Fired, f[2]+":"+f[3])
			r.FiredAt = append(r.FiredAt, Fired{Cls: f[2], Kind: f[3], Fault: k})
			fresh = true
		case strings.HasPrefix(l, "T "):
			r.Stalled++
		case strings.HasPrefix(l, "R "):
			var x spec.OpResult
			if err := json.Unmarshal([]byte(rest), &x); err != nil {
				return fmt.Errorf("bad result %q: %v", l, err)
			}
			r.Results = append(r.Results, x)
		case strings.HasPrefix(l, "L "):
			var x spec.Left
			if err := json.Unmarshal([]byte(rest), &x); err != nil {
				return err
			}
			r.Left = append(r.Left, x)
		case strings.HasPrefix(l, "P "):
			var d, k uint64
			fmt.Sscan(rest, &d, &k)
			if k != 0 {
				r.Picks = append(r.Picks, d, k)
			}
		case strings.HasPrefix(l, "Y "):
			var d, k uint64
			fmt.Sscan(rest, &d, &k)
			r.YieldAt = append(r.YieldAt, d)
		case strings.HasPrefix(l, "X "):
			var code, t uint64
			fmt.Sscan(rest, &code, &r.Steps, &r.Decisions, &r.Hash, &r.Yields, &t, &r.Alloc, &r.Largest, &r.MaxRunnable)
			r.SimTime = time.Duration(t)
		default:
			return fmt.Errorf("bad log line %q", l)
		}
	}
	return nil
}

// Digest identifies the execution: the whole event log but for the closing
// line's memory figures, which count pages of the runtime's own threads too.
func (r *Result) Digest() uint64 {
	h := fnv.New64a()
	l := r.Log
	if i := strings.LastIndex(l, "\nX "); i >= 0 {
		l = l[:i]
	}
	h.Write([]byte(l))
	fmt.Fprintf(h, "%d %s %d %d %d %d %d", r.Exit, r.Signal, r.Steps, r.Decisions, r.Hash, r.Yields, r.SimTime)
	return h.Sum64()
}

// Trace identifies the interleaving: scheduling decisions and the sequence of
// system calls with their outcomes.
func (r *Result) Trace() uint64 {
	h := fnv.New64a()
	fmt.Fprintf(h, "%d", r.Hash)
	for _, o := range r.Ops {
		fmt.Fprintf(h, "%s %d %s;", o.Cls, o.Ret, o.Err)
	}
	return h.Sum64()
}
