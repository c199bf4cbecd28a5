// Command libsim runs a Scenario: operations through the exported API of the
// library, on simulated readers and writers, by concurrent simulated callers.
package main

import (
	"bufio"
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"os"
	"reflect"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/transcriptaze/midiasm/encoding/midi"
	midilog "github.com/transcriptaze/midiasm/log"
	"github.com/transcriptaze/midiasm/midi"
	midictx "github.com/transcriptaze/midiasm/midi/context"
	"github.com/transcriptaze/midiasm/midi/lib"
	"github.com/transcriptaze/midiasm/ops/assemble"
	"github.com/transcriptaze/midiasm/ops/click"
	"github.com/transcriptaze/midiasm/ops/disassemble"
	"github.com/transcriptaze/midiasm/ops/export"
	"github.com/transcriptaze/midiasm/ops/notes"
	"github.com/transcriptaze/midiasm/ops/transpose"

	"midisim/simk"
	"midisim/spec"
)

var sc spec.Scenario
var seq int

type world struct {
	files map[int]*midi.SMF
	diss  map[int]*disassemble.Disassemble
}

func newWorld() *world {
	return &world{map[int]*midi.SMF{}, map[int]*disassemble.Disassemble{}}
}

var shared = newWorld()
var objs = map[string]any{}

type switchable struct{ w io.Writer }

func (s *switchable) Write(b []byte) (int, error) { return s.w.Write(b) }

type encobj struct {
	s *switchable
	e midifile.Encoder
}

func object(op spec.Op) any {
	key := fmt.Sprint(op.Op, op.Obj)
	if op.Obj != 0 {
		if o, ok := objs[key]; ok {
			return o
		}
	}
	var o any
	switch op.Op {
	case "decode":
		o = midifile.NewDecoder()
	case "asmtext":
		o = assemble.NewTextAssembler()
	case "asmjson":
		o = assemble.NewJSONAssembler()
	case "export":
		x, err := export.NewExport()
		if err != nil {
			panic(err)
		}
		o = x
	case "transpose":
		o = &transpose.Transpose{}
	case "encode":
		s := &switchable{}
		o = &encobj{s, midifile.NewEncoder(s)}
	default:
		return nil
	}
	if op.Obj != 0 {
		objs[key] = o
	}
	return o
}

// failure is the error a stream gives.
func failure(s string) error {
	switch s {
	case "unexpected":
		return io.ErrUnexpectedEOF
	case "closedpipe":
		return io.ErrClosedPipe
	case "timeout":
		return os.ErrDeadlineExceeded
	case "eagain":
		return syscall.EAGAIN
	case "eintr":
		return &os.PathError{Op: "read", Path: "stream", Err: syscall.EINTR}
	case "eio":
		return &os.PathError{Op: "read", Path: "stream", Err: syscall.EIO}
	case "wrapped":
		return fmt.Errorf("stream: %w", io.ErrUnexpectedEOF)
	case "noprogress":
		return io.ErrNoProgress
	case "closed":
		return os.ErrClosed
	case "canceled":
		return context.Canceled
	case "deadline":
		return context.DeadlineExceeded
	}
	return errors.New(s)
}

// nap is how long a transfer takes: a few milliseconds, or what the Stream says
// for the first thirty of them (simulated time is not endless).
func nap(s *spec.Stream, ms int) time.Duration {
	if s.Pace > 0 && s.Naps < 30 {
		s.Naps++
		return time.Duration(s.Pace)
	}
	return time.Duration(ms) * time.Millisecond
}

// reader delivers bytes as a Stream says.
type reader struct {
	b     []byte
	s     spec.Stream
	k     int
	pos   int
	fired bool
	ended bool
}

func (r *reader) Read(p []byte) (int, error) {
	if r.s.Yield {
		runtime.SimPoint()
	}
	if r.s.Block {
		time.Sleep(nap(&r.s, 1+r.pos%7))
	}
	end := len(r.b)
	if r.s.Cut > 0 && r.s.Cut-1 < end {
		end = r.s.Cut - 1
		r.ended = true
	}
	if r.s.Fail > 0 && r.s.Fail-1 <= end {
		end = r.s.Fail - 1
	}
	fail := func() error {
		r.fired = true
		return failure(r.s.Err)
	}
	failing := r.s.Fail > 0 && end == r.s.Fail-1
	if r.pos >= end {
		if failing {
			return 0, fail()
		}
		if r.ended {
			r.fired = true
		}
		return 0, io.EOF
	}
	n := len(p)
	if len(r.s.Frags) > 0 {
		f := r.s.Frags[r.k%len(r.s.Frags)]
		r.k++
		if f < n {
			n = f
		}
	}
	if n > end-r.pos {
		n = end - r.pos
	}
	copy(p, r.b[r.pos:r.pos+n])
	if r.s.Scratch {
		for i := n; i < len(p) && i < n+64; i++ {
			p[i] = "MTrk\x00\xff/\n"[i%8]
		}
	}
	r.pos += n
	if r.pos >= end && n > 0 {
		if failing && r.s.With {
			return n, fail()
		}
		if !failing && r.s.WithEOF {
			if r.ended {
				r.fired = true
			}
			return n, io.EOF
		}
	}
	return n, nil
}

// as gives the reader the type that the Stream asks for. Some have more in
// front of the data, and are positioned at it.
func as(r *reader) io.Reader {
	front := "MThd\x00front "
	all := append([]byte(front), r.b...)
	n := int64(len(front))
	switch r.s.Kind {
	case "bytes":
		return bytes.NewReader(r.b)
	case "buffer":
		return bytes.NewBuffer(r.b)
	case "strings":
		return strings.NewReader(string(r.b))
	case "bytes at":
		x := bytes.NewReader(all)
		x.Seek(n, io.SeekStart)
		return x
	case "strings at":
		x := strings.NewReader(string(all))
		x.Seek(n, io.SeekStart)
		return x
	case "buffer at":
		x := bytes.NewBuffer(all)
		x.Next(int(n))
		return x
	case "section":
		return io.NewSectionReader(bytes.NewReader(append(all, front...)), n, int64(len(r.b)))
	case "limit":
		return io.LimitReader(bytes.NewReader(append(append([]byte(nil), r.b...), front...)), int64(len(r.b)))
	case "multi":
		k := len(r.b) / 3
		return io.MultiReader(bytes.NewReader(r.b[:k]), strings.NewReader(""), bytes.NewBuffer(append([]byte(nil), r.b[k:]...)))
	case "tee":
		return io.TeeReader(r, io.Discard)
	case "bufio":
		return bufio.NewReaderSize(r, 16)
	case "bufio at":
		x := bufio.NewReaderSize(&reader{b: all, s: r.s}, 4096)
		x.Discard(int(n))
		return x
	case "file", "file at":
		name := fmt.Sprintf("/w/stream%d", streams.Add(1))
		data := r.b
		if r.s.Kind == "file at" {
			data = all
		}
		if err := os.WriteFile(name, data, 0o600); err != nil {
			panic(err)
		}
		f, err := os.Open(name)
		if err != nil {
			panic(err)
		}
		if r.s.Kind == "file at" {
			f.Seek(n, io.SeekStart)
		}
		return f
	}
	return r
}

var streams atomic.Int64

// writer accepts bytes as a Stream says.
type writer struct {
	b     bytes.Buffer
	s     spec.Stream
	fired bool
	done  bool
}

func (w *writer) Write(p []byte) (int, error) {
	if w.s.Yield {
		runtime.SimPoint()
	}
	if w.s.Block {
		time.Sleep(nap(&w.s, 1+w.b.Len()%7))
	}
	if w.s.Fail > 0 && !w.done && w.b.Len()+len(p) > w.s.Fail-1 {
		n := w.s.Fail - 1 - w.b.Len()
		if n < 0 {
			n = 0
		}
		w.b.Write(p[:n])
		w.fired = true
		if w.s.Once {
			w.done = true
		}
		return n, failure(w.s.Err)
	}
	return w.b.Write(p)
}

// dump writes out everything exported that a value holds.
func dump(b *bytes.Buffer, v reflect.Value, depth int) {
	if depth > 12 {
		b.WriteString("...")
		return
	}
	switch v.Kind() {
	case reflect.Invalid:
		b.WriteString("nil")
	case reflect.Pointer, reflect.Interface:
		if v.IsNil() {
			b.WriteString("nil")
			return
		}
		if m := v.MethodByName("Scale"); m.IsValid() && m.Type().NumIn() == 0 && m.Type().NumOut() == 1 {
			dump(b, m.Call(nil)[0], depth+1)
		}
		if v.Kind() == reflect.Interface {
			fmt.Fprintf(b, "%v:", v.Elem().Type())
		}
		dump(b, v.Elem(), depth+1)
	case reflect.Struct:
		b.WriteByte('{')
		for i := 0; i < v.NumField(); i++ {
			if f := v.Type().Field(i); f.IsExported() {
				b.WriteString(f.Name + ":")
				dump(b, v.Field(i), depth+1)
				b.WriteByte(' ')
			}
		}
		b.WriteByte('}')
	case reflect.Slice, reflect.Array:
		b.WriteByte('[')
		for i := 0; i < v.Len(); i++ {
			dump(b, v.Index(i), depth+1)
			b.WriteByte(' ')
		}
		b.WriteByte(']')
	case reflect.Map:
		var ls []string
		for _, k := range v.MapKeys() {
			var x bytes.Buffer
			dump(&x, k, depth+1)
			x.WriteByte('=')
			dump(&x, v.MapIndex(k), depth+1)
			ls = append(ls, x.String())
		}
		sort.Strings(ls)
		b.WriteString("map" + fmt.Sprint(ls))
	case reflect.Chan, reflect.Func, reflect.UnsafePointer:
		b.WriteString(v.Type().String())
	case reflect.String:
		fmt.Fprintf(b, "%q", v.String())
	case reflect.Bool:
		fmt.Fprint(b, v.Bool())
	case reflect.Float32, reflect.Float64:
		fmt.Fprint(b, v.Float())
	case reflect.Complex64, reflect.Complex128:
		fmt.Fprint(b, v.Complex())
	default:
		if v.CanInt() {
			fmt.Fprint(b, v.Int())
		} else {
			fmt.Fprint(b, v.Uint())
		}
	}
}

func image(f *midi.SMF) []byte {
	var b bytes.Buffer
	part := func(name string, g func() error) {
		fmt.Fprintf(&b, "--%s\n", name)
		func() {
			defer func() {
				if x := recover(); x != nil {
					fmt.Fprintf(&b, "panic: %v", x)
				}
			}()
			if err := g(); err != nil {
				fmt.Fprintf(&b, "error: %v", err)
			}
		}()
		b.WriteByte('\n')
	}
	part("value", func() error {
		dump(&b, reflect.ValueOf(f), 0)
		return nil
	})
	part("json", func() error {
		x, err := export.NewExport()
		if err != nil {
			return err
		}
		return x.Export(f, &b)
	})
	part("binary", func() error { return midifile.NewEncoder(&b).Encode(*f) })
	part("text", func() error {
		d, err := disassemble.NewDisassemble()
		if err != nil {
			return err
		}
		return d.Print(f, "document", &b)
	})
	return b.Bytes()
}

func exec(t, i int, op spec.Op, local *world) {
	res := spec.OpResult{T: t, I: i}
	seq++
	res.Seq[0] = seq
	func() {
		defer func() {
			if x := recover(); x != nil {
				buf := make([]byte, 16384)
				buf = buf[:runtime.Stack(buf, false)]
				res.Panic = fmt.Sprint(x) + frame(string(buf))
			}
		}()
		perform(op, local, &res)
	}()
	seq++
	res.Seq[1] = seq
	b, _ := json.Marshal(res)
	simk.Log("R " + string(b))
}

// frame is the first frame in the library, after the panic.
func frame(s string) string {
	lines := strings.Split(s, "\n")
	for k := len(lines) - 1; k >= 0; k-- {
		if strings.HasPrefix(lines[k], "panic(") {
			lines = lines[k:]
			break
		}
	}
	for _, l := range lines {
		if strings.Contains(l, "transcriptaze/midiasm/") && strings.Contains(l, ".go:") && !strings.Contains(l, "zzsim") {
			l = l[strings.Index(l, "midiasm/")+8:]
			if k := strings.LastIndex(l, ":"); k > 0 {
				l = l[:k]
			}
			return " at " + l
		}
	}
	return ""
}

func perform(op spec.Op, local *world, res *spec.OpResult) {
	w := local
	if op.Shared {
		w = shared
	}
	var rd *reader
	in := func() io.Reader {
		rd = &reader{b: append([]byte(nil), sc.Inputs[op.In]...)}
		if op.R != nil {
			rd.s = *op.R
		}
		return as(rd)
	}
	wr := &writer{}
	if op.W != nil {
		wr.s = *op.W
	}
	defer func() {
		if rd != nil {
			res.Fired = rd.fired
		}
		if wr.fired {
			res.Fired = true
		}
		if res.Data == nil {
			res.Data = wr.b.Bytes()
		}
		res.Wrote = wr.b.Len()
	}()
	fail := func(err error) {
		if err != nil {
			res.Err = "error: " + err.Error()
		}
	}
	file := func() *midi.SMF {
		f := w.files[op.File]
		if f == nil {
			res.Err = "no file"
		}
		return f
	}
	obj := object(op)
	switch op.Op {
	case "decode":
		f, err := obj.(midifile.Decoder).Decode(in())
		fail(err)
		if err == nil && f == nil {
			res.Err = "nil file"
		}
		if err == nil && f != nil {
			w.files[op.Slot] = f
			if op.N == 1 {
				res.Data = image(f)
			}
		} else {
			delete(w.files, op.Slot)
		}
	case "asmtext", "asmjson":
		b, err := obj.(assemble.Assembler).Assemble(in())
		fail(err)
		res.Data = append([]byte{}, b...)
	case "mfr":
		m, err := lib.LoadManufacturers(in())
		fail(err)
		var ls []string
		for _, x := range m {
			b, _ := json.Marshal(x)
			ls = append(ls, string(b))
		}
		sort.Strings(ls)
		res.Data = []byte(strings.Join(ls, "\n"))
	case "newdis":
		d, err := disassemble.NewDisassemble()
		fail(err)
		w.diss[op.Slot] = d
	case "templates":
		d := w.diss[op.Slot]
		if d == nil {
			res.Err = "no disassembler"
			return
		}
		fail(d.LoadTemplates(in()))
	case "print", "printmthd", "printmtrk":
		f := file()
		if f == nil {
			return
		}
		d := w.diss[op.Slot]
		if d == nil {
			var err error
			if d, err = disassemble.NewDisassemble(); err != nil {
				fail(err)
				return
			}
		}
		switch op.Op {
		case "print":
			fail(d.Print(f, "document", wr))
		case "printmthd":
			fail(d.Print(f.MThd, "MThd", wr))
		default:
			if len(f.Tracks) > 0 {
				fail(d.Print(f.Tracks[op.N%len(f.Tracks)], "MTrk", wr))
			}
		}
	case "encode":
		if f := file(); f != nil {
			o := obj.(*encobj)
			o.s.w = wr
			fail(o.e.Encode(*f))
		}
	case "export":
		if f := file(); f != nil {
			fail(obj.(*export.Export).Export(f, wr))
		}
	case "notes", "notesjson":
		if f := file(); f != nil {
			x := notes.Notes{Transpose: op.N, JSON: op.Op == "notesjson", Writer: wr}
			fail(x.Execute(f))
		}
	case "click":
		if f := file(); f != nil {
			x := click.ClickTrack{Writer: wr}
			fail(x.Execute(f))
		}
	case "validate":
		if f := file(); f != nil {
			var b bytes.Buffer
			for _, e := range f.Validate() {
				fmt.Fprintf(&b, "%v\n", e)
			}
			res.Data = b.Bytes()
		}
	case "transpose":
		if f := file(); f != nil {
			b, err := obj.(*transpose.Transpose).Execute(f, op.N)
			fail(err)
			res.Data = append([]byte{}, b...)
		}
	case "image":
		if f := file(); f != nil {
			res.Data = image(f)
		}
	default:
		simk.Log("! unknown operation " + op.Op)
	}
}

func main() {
	if err := json.Unmarshal(simk.Spec.Lib, &sc); err != nil {
		simk.Log("! bad scenario: " + err.Error())
		return
	}
	if sc.C4 {
		midictx.SetMiddleC(lib.C4)
	}
	if sc.Log > 0 {
		midilog.SetLogLevel(midilog.Level(sc.Log))
	}
	// shared objects exist before the callers start
	for _, t := range append([][]spec.Op{sc.Setup}, sc.Threads...) {
		for _, op := range t {
			if op.Obj != 0 {
				object(op)
			}
		}
	}
	for i, op := range sc.Setup {
		exec(-1, i, op, shared)
	}
	var wg sync.WaitGroup
	for t, ops := range sc.Threads {
		wg.Add(1)
		go func() {
			defer wg.Done()
			local := newWorld()
			for i, op := range ops {
				exec(t, i, op, local)
			}
		}()
	}
	wg.Wait()
	if sc.Quiesce {
		for i := 0; i < 3 && runtime.NumGoroutine() > 1; i++ {
			time.Sleep(time.Hour)
		}
		if runtime.NumGoroutine() > 1 {
			buf := make([]byte, 1<<20)
			buf = buf[:runtime.Stack(buf, true)]
			for k, g := range strings.Split(string(buf), "\n\n") {
				if k == 0 {
					continue
				}
				b, _ := json.Marshal(spec.Left{Stack: summary(g)})
				simk.Log("L " + string(b))
			}
		}
	}
}

// summary keeps the state and the function names of a goroutine's stack.
func summary(g string) string {
	var out []string
	for i, l := range strings.Split(g, "\n") {
		if i == 0 {
			if a, b := strings.Index(l, "["), strings.Index(l, "]"); a >= 0 && b > a {
				l = l[a+1 : b]
			}
			out = append(out, strings.SplitN(l, ",", 2)[0])
			continue
		}
		if strings.HasPrefix(l, "\t") {
			continue
		}
		if k := strings.LastIndex(l, "("); k > 0 {
			l = l[:k]
		}
		if k := strings.LastIndex(l, "/"); k >= 0 {
			l = l[k+1:]
		}
		out = append(out, l)
	}
	return strings.Join(out, " < ")
}
