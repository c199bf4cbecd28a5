// Package build makes the simulated binaries from the current working tree of
// the repository: the Go runtime and syscall packages get deterministic
// scheduling, randomness, time and a system-call seam by -overlay, and every
// statement of the repository's own code gets a scheduling point.
package build

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
)

const Module = "github.com/transcriptaze/midiasm"

type Result struct {
	CLI, Lib  string
	Files     int // instrumented source files
	Points    int // inserted scheduling points
	LibErr    string
	GoVersion string
}

type patch struct{ old, new string }

// Env is the go command's environment.
func Env() []string {
	env := []string{}
	for _, e := range os.Environ() {
		k := strings.SplitN(e, "=", 2)[0]
		switch k {
		case "GOTOOLCHAIN", "GOPROXY", "GOFLAGS", "GOWORK", "GOOS", "GOARCH", "CGO_ENABLED", "GOEXPERIMENT", "GODEBUG", "GOROOT":
			continue
		}
		env = append(env, e)
	}
	return append(env, "GOTOOLCHAIN=local", "GOPROXY=off", "GOFLAGS=-mod=mod", "GOWORK=off", "CGO_ENABLED=0")
}

func apply(src string, file string, ps []patch) (string, error) {
	for _, p := range ps {
		if n := strings.Count(src, p.old); n != 1 {
			return "", fmt.Errorf("%s: anchor %q occurs %d times", file, p.old, n)
		}
		src = strings.Replace(src, p.old, p.new, 1)
	}
	return src, nil
}

var gorootPatches = map[string][]patch{
	"runtime/proc.go": {
		{"const haveSysmon = GOARCH != \"wasm\"", "const haveSysmon = false"},
		{"if pp.schedtick%61 == 0 && !sched.runq.empty() {", "if !simOn && pp.schedtick%61 == 0 && !sched.runq.empty() {"},
		{"func runqget(pp *p) (gp *g, inheritTime bool) {\n", "func runqget(pp *p) (gp *g, inheritTime bool) {\n\tif simOn {\n\t\treturn simRunqget(pp), false\n\t}\n"},
		// the race detector needs cgo, where the runtime does not look for deadlocks (and so never advances simulated time)
		{"if !iscgo && cgoHasExtraM && extraMLength.Load() > 0 {", "if cgoHasExtraM && extraMLength.Load() > 0 {"},
		{"\n\texit(0)\n\tfor {\n\t\tvar x *int32\n", "\n\tsimAtExit(0)\n\texit(0)\n\tfor {\n\t\tvar x *int32\n"},
	},
	"runtime/runtime.go": {
		{"func syscall_Exit(code int) {\n", "func syscall_Exit(code int) {\n\tsimAtExit(int32(code))\n"},
	},
	"runtime/panic.go": {
		{"\t\t\tcrash()\n\t\t}\n\n\t\texit(2)\n", "\t\t\tcrash()\n\t\t}\n\n\t\tsimAtExit(2)\n\t\texit(2)\n"},
		{"\tsystemstack(func() {\n\t\texit(2)\n\t})\n", "\tsystemstack(func() {\n\t\tsimAtExit(2)\n\t\texit(2)\n\t})\n"},
	},
	"runtime/mcache.go": {
		{"func (c *mcache) allocLarge(size uintptr, noscan bool) *mspan {\n", "func (c *mcache) allocLarge(size uintptr, noscan bool) *mspan {\n\tsimAlloc(size)\n"},
		{"func (c *mcache) refill(spc spanClass) {\n", "func (c *mcache) refill(spc spanClass) {\n\tsimAlloc(8192)\n"},
	},
	"runtime/debug.go": {
		{"func GOMAXPROCS(n int) int {\n", "func GOMAXPROCS(n int) int {\n\tif simOn && n > 0 {\n\t\treturn int(gomaxprocs)\n\t}\n"},
	},
	"runtime/rand.go": {
		{"\tseed := &globalRand.seed\n", "\tseed := &globalRand.seed\n\tfor i := range startupRand {\n\t\tstartupRand[i] = byte(simMix(simSeed()+uint64(i)) >> 7)\n\t}\n\tif len(startupRand) < 16 {\n\t\tthrow(\"sim: no startupRand\")\n\t}\n"},
	},
	"syscall/syscall_linux.go": {
		{"//go:uintptrkeepalive\n//go:nosplit\n//go:linkname Syscall\nfunc Syscall(", "//go:uintptrkeepalive\n//go:nosplit\nfunc simSyscall("},
		{"//go:uintptrkeepalive\n//go:nosplit\n//go:linkname Syscall6\nfunc Syscall6(", "//go:uintptrkeepalive\n//go:nosplit\nfunc simSyscall6("},
	},
	"syscall/zsyscall_linux_amd64.go": {
		{"func Getpid() (pid int) {", "func Getpid() (pid int) {\n\tif SimPid != 0 {\n\t\treturn SimPid\n\t}\n\treturn simGetpid()\n}\n\nfunc simGetpid() (pid int) {"},
		{"func Getuid() (uid int) {", "func Getuid() (uid int) {\n\tif SimPid != 0 {\n\t\treturn SimUid\n\t}\n\treturn simGetuid()\n}\n\nfunc simGetuid() (uid int) {"},
		{"func Geteuid() (euid int) {", "func Geteuid() (euid int) {\n\tif SimPid != 0 {\n\t\treturn SimUid\n\t}\n\treturn simGeteuid()\n}\n\nfunc simGeteuid() (euid int) {"},
		{"func Getgid() (gid int) {", "func Getgid() (gid int) {\n\tif SimPid != 0 {\n\t\treturn SimUid\n\t}\n\treturn simGetgid()\n}\n\nfunc simGetgid() (gid int) {"},
		{"func Getppid() (ppid int) {", "func Getppid() (ppid int) {\n\tif SimPid != 0 {\n\t\treturn SimPid - 1\n\t}\n\treturn simGetppid()\n}\n\nfunc simGetppid() (ppid int) {"},
	},
	"syscall/env_unix.go": {
		{"\ti, ok := env[key]\n\tif !ok {\n\t\treturn \"\", false\n", "\ti, ok := env[key]\n\tif !ok {\n\t\treturn simEnv(key)\n"},
	},
	"syscall/time_fake.go": {
		{"const faketime = true", "const faketime = false"},
	},
	"runtime/time_fake.go": {
		{"if !(fd == 1 || fd == 2) {", "if true {"},
	},
}

// Build builds the simulated binaries in dir.
func Build(repo, simdir, dir string) (*Result, error) {
	res := &Result{}
	goroot, err := gocmd(repo, "env", "GOROOT")
	if err != nil {
		return nil, err
	}
	goroot = strings.TrimSpace(goroot)
	v, _ := gocmd(repo, "env", "GOVERSION")
	res.GoVersion = strings.TrimSpace(v)

	overlay := map[string]string{}
	n := 0
	put := func(target, text string) error {
		n++
		f := filepath.Join(dir, fmt.Sprintf("o%04d_%s", n, filepath.Base(target)))
		overlay[target] = f
		return os.WriteFile(f, []byte(text), 0o644)
	}

	names := []string{}
	for name := range gorootPatches {
		names = append(names, name)
	}
	sort.Strings(names)
	for _, name := range names {
		ps := gorootPatches[name]
		f := filepath.Join(goroot, "src", name)
		b, err := os.ReadFile(f)
		if err != nil {
			return nil, err
		}
		s := string(b)
		t, err := apply(s, name, ps)
		if err != nil {
			return nil, err
		}
		if err := put(f, t); err != nil {
			return nil, err
		}
	}
	overlay[filepath.Join(goroot, "src/runtime/zz_sim.go")] = filepath.Join(simdir, "inject/runtime/zz_sim.go")
	overlay[filepath.Join(goroot, "src/syscall/zz_sim.go")] = filepath.Join(simdir, "inject/syscall/zz_sim.go")

	// the program under test
	err = filepath.Walk(repo, func(path string, info os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if info.IsDir() {
			b := info.Name()
			if path != repo && (strings.HasPrefix(b, ".") || strings.HasPrefix(b, "_") || b == "testdata" || b == "vendor") {
				return filepath.SkipDir
			}
			return nil
		}
		if !strings.HasSuffix(path, ".go") || strings.HasSuffix(path, "_test.go") {
			return nil
		}
		src, err := os.ReadFile(path)
		if err != nil {
			return err
		}
		t, k, err := Instrument(path, string(src))
		if err != nil {
			return err
		}
		res.Files++
		res.Points += k
		return put(path, t)
	})
	if err != nil {
		return nil, err
	}

	add := func(from, to string) error {
		ms, err := filepath.Glob(filepath.Join(simdir, from, "*.go"))
		if err != nil || len(ms) == 0 {
			return fmt.Errorf("no files in %s", from)
		}
		for _, m := range ms {
			if strings.HasSuffix(m, "_test.go") {
				continue
			}
			b, err := os.ReadFile(m)
			if err != nil {
				return err
			}
			s := strings.ReplaceAll(string(b), "\"midisim/", "\""+Module+"/zzsim/")
			if err := put(filepath.Join(repo, to, filepath.Base(m)), s); err != nil {
				return err
			}
		}
		return nil
	}
	for _, x := range [][2]string{{"simfs", "zzsim/simfs"}, {"spec", "zzsim/spec"}, {"inject/simk", "zzsim/simk"}, {"inject/simy", "zzsim/simy"}, {"inject/clihook", "cmd/midiasm"}, {"inject/libsim", "zzsim/libsim"}} {
		if err := add(x[0], x[1]); err != nil {
			return nil, err
		}
	}

	of := filepath.Join(dir, "overlay.json")
	b, _ := json.MarshalIndent(map[string]any{"Replace": overlay}, "", " ")
	if err := os.WriteFile(of, b, 0o644); err != nil {
		return nil, err
	}
	res.CLI = filepath.Join(dir, "midiasm.sim")
	res.Lib = filepath.Join(dir, "libsim.sim")
	if out, err := gocmd(repo, "build", "-trimpath", "-buildvcs=false", "-tags", "faketime", "-overlay", of, "-o", res.CLI, "./cmd/midiasm"); err != nil {
		return nil, fmt.Errorf("building the simulated program: %v\n%s", err, out)
	}
	if out, err := gocmd(repo, "build", "-trimpath", "-buildvcs=false", "-tags", "faketime", "-overlay", of, "-o", res.Lib, "./zzsim/libsim"); err != nil {
		return nil, fmt.Errorf("building the simulated library harness: %v\n%s", err, out)
	}
	return res, nil
}

// Race builds the library harness with the race detector, with the overlay
// Build made in dir.
func Race(repo, dir string) (string, error) {
	f := filepath.Join(dir, "libsim.race")
	c := exec.Command("go", "build", "-race", "-gcflags="+Module+"/zzsim/...=-race=false", "-trimpath", "-buildvcs=false", "-tags", "faketime", "-overlay", filepath.Join(dir, "overlay.json"), "-o", f, "./zzsim/libsim")
	c.Dir = repo
	for _, e := range Env() {
		if !strings.HasPrefix(e, "CGO_ENABLED=") {
			c.Env = append(c.Env, e)
		}
	}
	// zzsim is not instrumented; the specialised allocators it would be given do not tell the detector that memory is new
	c.Env = append(c.Env, "CGO_ENABLED=1", "GOEXPERIMENT=nosizespecializedmalloc")
	b, err := c.CombinedOutput()
	if err != nil {
		return "", fmt.Errorf("%v\n%s", err, b)
	}
	return f, nil
}

func gocmd(dir string, args ...string) (string, error) {
	c := exec.Command("go", args...)
	c.Dir = dir
	c.Env = Env()
	b, err := c.CombinedOutput()
	return string(b), err
}

// Instrument inserts a scheduling point before every statement of src, by
// byte offset, so that line numbers, comments and directives stay as they are.
func Instrument(name, src string) (string, int, error) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, name, src, parser.ParseComments)
	if err != nil {
		return "", 0, err
	}
	offs := map[int]bool{}
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	list := func(ss []ast.Stmt) {
		for _, s := range ss {
			if _, ok := s.(*ast.EmptyStmt); ok {
				continue
			}
			offs[off(s.Pos())] = true
		}
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.FuncDecl:
			if x.Doc != nil {
				for _, c := range x.Doc.List {
					if strings.HasPrefix(c.Text, "//go:nosplit") || strings.HasPrefix(c.Text, "//go:linkname") {
						return false
					}
				}
			}
		case *ast.BlockStmt:
			if x == nil {
				return true
			}
			// the bodies of switch and select statements hold clauses, not statements
			for _, s := range x.List {
				switch s.(type) {
				case *ast.CaseClause, *ast.CommClause:
					return true
				}
			}
			list(x.List)
		case *ast.CaseClause:
			list(x.Body)
		case *ast.CommClause:
			list(x.Body)
		case *ast.ForStmt:
			offs[off(x.Body.Lbrace)+1] = true
		case *ast.RangeStmt:
			offs[off(x.Body.Lbrace)+1] = true
		}
		return true
	})
	if len(offs) == 0 {
		return src, 0, nil
	}
	keys := make([]int, 0, len(offs))
	for k := range offs {
		keys = append(keys, k)
	}
	sort.Ints(keys)
	var b strings.Builder
	pos := 0
	nameEnd := off(f.Name.End())
	b.WriteString(src[:nameEnd])
	b.WriteString("; import zzsimy \"" + Module + "/zzsim/simy\"")
	pos = nameEnd
	for _, k := range keys {
		b.WriteString(src[pos:k])
		b.WriteString("zzsimy.Y();")
		pos = k
	}
	b.WriteString(src[pos:])
	return b.String(), len(keys), nil
}
