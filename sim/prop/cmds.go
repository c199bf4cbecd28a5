package prop

import (
	"bytes"
	"fmt"
	"path"
	"regexp"
	"sort"
	"strings"

	"midisim/gen"
	"midisim/rng"
	"midisim/run"
	"midisim/simfs"
	"midisim/spec"
)

// Cmd is one midiasm command line.
type Cmd struct {
	Word  string   `json:"word"` // "" disassembles
	Flags []string `json:"flags,omitempty"`
	Tmpl  string   `json:"templates,omitempty"`
	Split bool     `json:"split,omitempty"`
	Out   string   `json:"out,omitempty"`
	In    string   `json:"in"`
}

func (c *Cmd) Argv() []string {
	a := []string{"midiasm"}
	if c.Word != "" {
		a = append(a, c.Word)
	}
	a = append(a, c.Flags...)
	if c.Tmpl != "" {
		a = append(a, "--templates", c.Tmpl)
	}
	if c.Split {
		a = append(a, "--split")
	}
	if c.Out != "" {
		a = append(a, "--out", c.Out)
	}
	return append(a, c.In)
}

func (c *Cmd) String() string { return strings.Join(c.Argv(), " ") }

// Format is the format of the command's input.
func (c *Cmd) Format() string {
	if c.Word != "assemble" {
		return "midi"
	}
	if path.Ext(c.In) == ".json" {
		return "json"
	}
	return "text"
}

func abs(cwd, p string) string {
	if strings.HasPrefix(p, "/") {
		return path.Clean(p)
	}
	return path.Clean(cwd + "/" + p)
}

// Stdout: standard output is the command's output.
func (c *Cmd) Stdout() bool {
	return c.Out == "" && !c.Split && c.Word != "assemble" && c.Word != "transpose" && c.Word != "humanise"
}

// Dest is the file the output goes to: --out or the documented default.
func (c *Cmd) Dest() string {
	if c.Out == "" && c.Word == "assemble" {
		return strings.TrimSuffix(c.In, path.Ext(c.In)) + ".midi"
	}
	return c.Out
}

// Allowed tells whether path p may be created or changed by the command, and
// whether as a directory on the way.
func (c *Cmd) Allowed(cwd string) func(p string) (file, dir bool) {
	if !c.Split {
		o := ""
		if c.Dest() != "" {
			o = abs(cwd, c.Dest())
		}
		return func(p string) (bool, bool) { return o != "" && p == o, false }
	}
	dir := path.Dir(abs(cwd, c.In))
	bases := []string{base(c.In)}
	if c.Out != "" {
		dir = abs(cwd, c.Out)
		bases = append(bases, base(c.Out))
	}
	return func(p string) (bool, bool) {
		if c.Out != "" && (p == dir || strings.HasPrefix(dir, p+"/")) {
			return false, true
		}
		if path.Dir(p) != dir {
			return false, false
		}
		for _, b := range bases {
			if path.Base(p) == b+".MThd" {
				return true, false
			}
			if rest, ok := strings.CutPrefix(path.Base(p), b+"-"); ok && trackFile.MatchString(rest) {
				return true, false
			}
		}
		return false, false
	}
}

var trackFile = regexp.MustCompile(`^[0-9]+\.MTrk$`)

func base(p string) string { return strings.TrimSuffix(path.Base(p), path.Ext(p)) }

// outputs collects the command's output files.
func outputs(c *Cmd, cwd string, f *simfs.FS) map[string]string {
	out := map[string]string{}
	ok := c.Allowed(cwd)
	if !c.Split {
		if c.Dest() != "" {
			if _, _, n, e := f.Walk(simfs.Root, abs(cwd, c.Dest()), 0, true); e == "" && n != nil && n.Kind == simfs.File {
				out[abs(cwd, c.Dest())] = string(n.Data)
			}
		}
		return out
	}
	for _, p := range f.Paths() {
		if file, _ := ok(p); file {
			if _, _, n, e := f.Walk(simfs.Root, p, 0, true); e == "" && n != nil && n.Kind == simfs.File {
				out[p] = string(n.Data)
			}
		}
	}
	return out
}

func sameOutputs(a, b map[string]string) string {
	keys := map[string]bool{}
	for k := range a {
		keys[k] = true
	}
	for k := range b {
		keys[k] = true
	}
	var ks []string
	for k := range keys {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		x, ok1 := a[k]
		y, ok2 := b[k]
		switch {
		case !ok2:
			return fmt.Sprintf("%s (%d bytes) is missing", k, len(x))
		case !ok1:
			return fmt.Sprintf("%s (%d bytes) should not be there", k, len(y))
		case x != y:
			return fmt.Sprintf("%s holds %d bytes that differ from the expected %d at byte %d", k, len(y), len(x), common(x, y))
		}
	}
	return ""
}

func common(a, b string) int {
	n := min(len(a), len(b))
	for i := 0; i < n; i++ {
		if a[i] != b[i] {
			return i
		}
	}
	return n
}

// drawCmd draws a command. Paths are relative to /w or absolute in it.
func drawCmd(r *rng.R, words ...string) *Cmd {
	if len(words) == 0 {
		words = []string{"", "disassemble", "disassemble", "split", "split", "export", "notes", "notes", "click", "transpose", "transpose", "tsv", "tsv", "assemble", "assemble", "assemblejson"}
	}
	c := &Cmd{Word: rng.Pick(r, words...), In: rng.Pick(r, "in.mid", "/w/in.mid", "./in.mid", "music/in.mid", "in.v2.mid", "in")}
	ext := ".txt"
	noOut := 25
	switch c.Word {
	case "", "disassemble":
		if r.P(35) {
			c.Tmpl = rng.Pick(r, "t.json", "/w/music/t.json")
		}
	case "split":
		c.Word = rng.Pick(r, "disassemble", "")
		c.Split = true
		if r.P(25) {
			c.Tmpl = "t.json"
		}
		if r.P(65) {
			c.Out = rng.Pick(r, "parts", "/w/parts", "parts/a", "music", "new/deep/dir", "parts.d")
		}
	case "export":
		ext = ".json"
	case "notes":
		ext = ".notes"
		if r.P(50) {
			c.Flags = append(c.Flags, "--json")
		}
		if r.P(40) {
			c.Flags = append(c.Flags, "--transpose", rng.Pick(r, "3", "-5", "0", "24", "-100", fmt.Sprint(r.Range(-30, 30))))
		}
	case "click":
		ext = ".click"
	case "transpose":
		ext = ".mid"
		noOut = 0
		c.Flags = append(c.Flags, "--semitones", rng.Pick(r, "1", "-1", "5", "-7", "0", "12", fmt.Sprint(r.Range(-30, 30)), fmt.Sprint(r.Range(-140, 140))))
	case "tsv":
		ext = ".tsv"
		if r.P(35) {
			c.Flags = append(c.Flags, "--tabular")
		} else if r.P(40) {
			c.Flags = append(c.Flags, "--delimiter", rng.Pick(r, ",", ";", "|", `\t`))
		}
	case "assemble":
		ext = ".mid"
		noOut = 15
		c.In = rng.Pick(r, "in.txt", "/w/in.txt", "./in.txt", "music/in.txt", "in")
	case "assemblejson":
		c.Word = "assemble"
		ext = ".mid"
		noOut = 15
		c.In = rng.Pick(r, "in.json", "/w/in.json", "music/in.json")
	case "humanise":
		noOut = 50
	}
	if r.P(20) {
		c.Flags = append(c.Flags, "--C4")
	}
	if r.P(10) {
		c.Flags = append(c.Flags, rng.Pick(r, "--verbose", "--debug"))
	}
	if !c.Split && !r.P(noOut) {
		c.Out = rng.Pick(r, "out", "./out", "/w/out", "music/out", "/w/o/out", "o/../out") + ext
	}
	return c
}

// disk lays out the files a command needs, with bystanders. The owner is uid.
func disk(r *rng.R, c *Cmd, cwd string, uid int, in []byte) []spec.File {
	fs := []spec.File{
		{Path: "/w", Kind: "d", Mode: 0o755, Uid: uid},
		{Path: "/tmp", Kind: "d", Mode: 0o777},
		{Path: "/dev", Kind: "d", Mode: 0o755},
		{Path: "/dev/null", Kind: "n", Mode: 0o666},
		{Path: "/dev/full", Kind: "u", Mode: 0o666},
		{Path: "/w/music", Kind: "d", Mode: 0o755, Uid: uid},
		{Path: "/w/o", Kind: "d", Mode: 0o755, Uid: uid},
	}
	mode := rng.Pick[uint32](r, 0o644, 0o644, 0o644, 0o600, 0o444, 0o400)
	fs = append(fs, spec.File{Path: abs(cwd, c.In), Kind: "f", Mode: mode, Uid: uid, Data: in})
	if c.Tmpl != "" {
		fs = append(fs, spec.File{Path: abs(cwd, c.Tmpl), Kind: "f", Mode: mode, Uid: uid, Data: templates(r)})
	}
	return fs
}

// bystanders are files the command has no business with.
func bystanders(r *rng.R, c *Cmd, cwd string, uid int, fs []spec.File) []spec.File {
	have := map[string]bool{}
	for _, f := range fs {
		have[f.Path] = true
	}
	ok := c.Allowed(cwd)
	add := func(p string, data []byte) {
		if file, dir := ok(p); !have[p] && !file && !dir {
			have[p] = true
			fs = append(fs, spec.File{Path: p, Kind: "f", Mode: rng.Pick[uint32](r, 0o644, 0o600, 0o444), Uid: uid, Data: data})
		}
	}
	b := base(c.In)
	d := path.Dir(abs(cwd, c.In))
	names := []string{"/w/other.txt", "/w/music/keep.mid", "/w/o/notes.txt", "/tmp/scratch",
		d + "/" + b + ".midi", d + "/" + b + ".mid.bak", d + "/" + b + ".txt~", d + "/" + b + ".tmp", d + "/" + b + "-x.MTrk", d + "/other.MThd", d + "/other-1.MTrk",
		d + "/" + b + ".bak"}
	if c.Dest() != "" {
		o := abs(cwd, c.Dest())
		names = append(names, o+"~", o+".tmp", o+".bak", path.Dir(o)+"/.tmp", path.Dir(o)+"/"+base(o)+".tmp", path.Dir(o)+"/"+base(o))
	}
	for _, n := range names {
		if r.P(55) {
			// never a name some directory on the way needs
			clash := false
			for p := range have {
				if strings.HasPrefix(p, n+"/") {
					clash = true
				}
			}
			if c.Out != "" && strings.HasPrefix(abs(cwd, c.Out), n+"/") {
				clash = true
			}
			parent := false
			for _, f := range fs {
				if f.Kind == "d" && f.Path == path.Dir(n) {
					parent = true
				}
			}
			if !clash && parent {
				add(n, []byte(fmt.Sprintf("precious %d", r.N(1000))))
			}
		}
	}
	return fs
}

// earlier puts an older output in place; like is what the command is going to write.
func earlier(r *rng.R, c *Cmd, cwd string, uid int, fs []spec.File, like map[string]string) []spec.File {
	had := len(fs)
	old := func(p string) []byte {
		if x := []byte(like[p]); len(x) > 0 && r.P(40) { // as long as the new one, with a difference somewhere
			x[rng.Pick(r, 0, len(x)/2, len(x)-1, r.N(len(x)))] ^= 1 << r.N(8)
			return x
		}
		switch r.N(4) {
		case 0:
			return []byte{}
		case 1:
			return bytes.Repeat([]byte("old "), 1+r.N(5))
		case 2:
			return bytes.Repeat([]byte("an older and longer output\n"), 1500+r.N(2000))
		}
		return r.Bytes(r.N(300))
	}
	mode := rng.Pick[uint32](r, 0o644, 0o600, 0o666, 0o640)
	at := rng.Pick[int64](r, 0, 0, 1, 1<<62) // when it was written: as the input, long before it, long after it
	defer func() {
		for i := range fs[had:] {
			fs[had+i].Mtime = at
		}
	}()
	if !c.Split {
		if c.Dest() != "" {
			fs = append(fs, spec.File{Path: abs(cwd, c.Dest()), Kind: "f", Mode: mode, Uid: uid, Data: old(abs(cwd, c.Dest()))})
		}
		return fs
	}
	dir := path.Dir(abs(cwd, c.In))
	b := base(c.In)
	if c.Out != "" {
		dir = abs(cwd, c.Out)
		b = base(c.Out)
		fs = mkdirs(fs, dir, uid)
	}
	fs = append(fs, spec.File{Path: dir + "/" + b + ".MThd", Kind: "f", Mode: mode, Uid: uid, Data: old(dir + "/" + b + ".MThd")})
	for i := 0; i < 3; i++ {
		if r.P(60) {
			p := fmt.Sprintf("%s/%s-%d.MTrk", dir, b, i)
			fs = append(fs, spec.File{Path: p, Kind: "f", Mode: mode, Uid: uid, Data: old(p)})
		}
	}
	return fs
}

func mkdirs(fs []spec.File, dir string, uid int) []spec.File {
	have := map[string]bool{}
	for _, f := range fs {
		have[f.Path] = true
	}
	p := ""
	for _, x := range strings.Split(strings.TrimPrefix(dir, "/"), "/") {
		p += "/" + x
		if !have[p] {
			have[p] = true
			fs = append(fs, spec.File{Path: p, Kind: "d", Mode: 0o755, Uid: uid})
		}
	}
	return fs
}

func size(fs []spec.File) int {
	n := 0
	for _, f := range fs {
		n += len(f.Data)
	}
	return n
}

// cliRun draws a command with its disk.
func cliRun(r *rng.R, words ...string) Run {
	c := drawCmd(r, words...)
	s := World(r)
	in := longSource(r, c.Format(), c.Word != "" && c.Word != "disassemble")
	s.Files = disk(r, c, s.Cwd, s.Uid, in)
	Limits(&s, len(in)+500)
	return Run{Role: "run", Bin: "cli", Cmd: c, Spec: s}
}

// baseline is the same command on the same files in the quiet world, without
// faults, as the same user.
func baseline(r Run) Run {
	p := Plain()
	p.Files = r.Spec.Files
	p.Uid = r.Spec.Uid
	p.Cwd = r.Spec.Cwd
	p.Budget, p.MaxAlloc, p.MaxTotal = r.Spec.Budget, r.Spec.MaxAlloc, r.Spec.MaxTotal
	r.Spec = p
	r.Role = "base"
	return r
}

// message: the command told the user that something went wrong.
func message(res, base *run.Result) bool {
	x := string(res.Stdout) + string(res.Stderr)
	if base == nil {
		return strings.TrimSpace(x) != ""
	}
	return strings.TrimSpace(x) != "" && x != string(base.Stdout)+string(base.Stderr)
}

func smfTracks(in []byte) int {
	_, _, t, err := gen.ReadSMF(in)
	if err != nil {
		return -1
	}
	return len(t)
}

func describe(r *Run, res *run.Result) string {
	var b strings.Builder
	if r.Cmd != nil {
		fmt.Fprintf(&b, "`%s`", r.Cmd)
	}
	for _, f := range r.Spec.Faults {
		fmt.Fprintf(&b, " [%s #%d: %s", f.Cls, f.Nth, f.Kind)
		if f.Arg != 0 {
			fmt.Fprintf(&b, " %d", f.Arg)
		}
		b.WriteString("]")
	}
	for _, x := range r.Spec.Stalls {
		fmt.Fprintf(&b, " [system call %d takes %gs]", x.At, float64(x.For)/1e9)
	}
	if r.Spec.Free >= 0 {
		fmt.Fprintf(&b, " [%d bytes free]", r.Spec.Free)
	}
	if res != nil {
		fmt.Fprintf(&b, " exit %d", res.Exit)
	}
	return b.String()
}
