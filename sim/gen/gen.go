// Package gen makes inputs: a small model of a MIDI file with writers for the
// binary, text and JSON formats, an independent reader for the binary format,
// and the damage stored bytes can suffer.
package gen

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"strings"

	"midisim/rng"
)

// Ev is one event of the model. Bytes is its binary form after the delta time,
// with status byte; Text the rest of its text line; JSON its JSON object.
type Ev struct {
	Delta uint32
	Bytes []byte
	Text  string
	JSON  map[string]any
	Tag   string
	Bare  bool // nothing follows the tag: the blanks after it stay in the text form
}

type Track struct{ Evs []Ev }

type Song struct {
	Format   int
	Division int
	Tracks   []Track
}

// Opt is the shape of the songs to make (swarm style: drawn per run).
type Opt struct {
	Tracks, Events int
	BigText        int  // longest text
	BigSysex       int  // longest sysex
	Assemblable    bool // only events whose text and JSON forms assemble to the same bytes
	Pending        bool // leave notes sounding at the end of track
	Running        bool // use running status in the binary form
	Kinds          map[string]bool
	LoNote         int
	NoEOT          bool
	Latin          bool   // texts that are not UTF-8
	Room           int    // bytes for big events, over what one takes
	Mostly         string // most events are of this kind
}

var AllKinds = []string{"note", "note", "note", "text", "tempo", "timesig", "keysig", "ctrl", "prog", "bend", "cpress", "ppress", "sysex", "sysexcont", "escape", "seqspec", "seqno", "prefix", "port", "smpte"}

// DrawOpt draws a shape.
func DrawOpt(r *rng.R, assemblable bool) Opt {
	o := Opt{Assemblable: assemblable, LoNote: 0, BigText: 24, BigSysex: 12}
	switch k := r.N(20); {
	case k < 2:
		o.Tracks, o.Events = 1, r.Range(1, 12)
	case k < 14:
		o.Tracks, o.Events = r.Range(2, 4), r.Range(1, 16)
	case k < 17:
		o.Tracks, o.Events = r.Range(2, 12), r.Range(1, 30)
	case k < 19:
		o.Tracks, o.Events = r.Range(2, 3), r.Range(60, 220)
	default:
		o.Tracks, o.Events = r.Range(20, 40), r.Range(0, 4)
	}
	if r.P(15) {
		o.BigText = 120
	}
	if r.P(10) {
		o.BigSysex = rng.Pick(r, 130, 600, 2500, 5000)
	}
	if assemblable && r.P(6) {
		o.BigText = rng.Pick(r, 150, 300, 2000)
	}
	if !assemblable {

		if r.P(10) {
			o.BigText = rng.Pick(r, 200, 5000)
		}
		o.NoEOT = r.P(2)
	}
	o.Pending = r.P(40)
	o.Running = r.P(50)
	o.Kinds = map[string]bool{}
	all := r.P(50)
	for _, k := range AllKinds {
		if all || r.P(50) {
			o.Kinds[k] = true
		}
	}
	o.Kinds["note"] = o.Kinds["note"] || r.P(90)
	return o
}

// DrawLong draws a shape, now and then one longer than any buffer.
func DrawLong(r *rng.R, assemblable bool) Opt {
	o := DrawOpt(r, assemblable)
	if r.N(100) == 0 { // longer than any buffer
		o.Tracks, o.Events = 2, r.Range(1200, 2500)
	} else if r.N(400) == 0 {
		o.Tracks, o.Events = r.Range(100, 300), r.Range(1, 6)
	} else if r.N(200) == 0 {
		o.Tracks, o.Events, o.BigSysex = 2, r.Range(1, 16), rng.Pick(r, 17000, 22500) // 21900 bytes print as a line of 64K
		o.Kinds["sysex"] = true
	}
	return o
}

// DrawBig draws a shape with a track longer than 64K. (Disassembling one takes
// gigabytes when nothing is collected.)
func DrawBig(r *rng.R, assemblable bool) Opt {
	o := DrawOpt(r, assemblable)
	o.Tracks, o.Events, o.Room = rng.Pick(r, 1, 2), r.Range(100, 200), 150000
	o.BigText = rng.Pick(r, 2000, 4000)
	o.BigSysex = o.BigText
	o.Mostly = rng.Pick(r, "text", "sysex")
	return o
}

// DrawLines draws a shape for a text or JSON source, now and then one with
// events that no line buffer holds. (Disassembling such takes gigabytes when
// nothing is collected.)
func DrawLines(r *rng.R) Opt {
	o := DrawLong(r, true)
	switch r.N(300) {
	case 0:
		o.Tracks, o.Events, o.BigSysex = 2, r.Range(1, 16), 40000
		o.Kinds["sysex"] = true
	case 1:
		o.Tracks, o.Events, o.BigText = 2, r.Range(1, 16), 70000
		o.Kinds["text"] = true
	}
	return o
}

func vlq(v uint32) []byte {
	b := []byte{byte(v & 0x7f)}
	for v >>= 7; v > 0; v >>= 7 {
		b = append([]byte{byte(v&0x7f) | 0x80}, b...)
	}
	return b
}

func vlf(b []byte) []byte { return append(vlq(uint32(len(b))), b...) }

func hex(b []byte) string {
	s := make([]string, len(b))
	for i, x := range b {
		s[i] = fmt.Sprintf("%02X", x)
	}
	return strings.Join(s, " ")
}

func ints(b []byte) []int {
	x := []int{}
	for _, v := range b {
		x = append(x, int(v))
	}
	return x
}

var names = []string{"C", "C♯", "D", "D♯", "E", "F", "F♯", "G", "G♯", "A", "A♯", "B"}

func noteName(n int) string { return fmt.Sprintf("%s%d", names[n%12], n/12-1) }

var symbols = []string{",", ":", ";", "(", ")", "/", "&", "<", ">", `"`, "[", "]", "{", "}", "#", "%", "+", "=", "@", "*", `\\`, "$", "|", "~", "^", "`", "\t", "  ", "é", "ß", "♯", "♭", "日", "𝄞", "{{", "}}", "%d", "%s", "\x00", "\x07", "\x1b", "\u0085", "\ufeff", "\u2028", "\r", "\v"}

const letters = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789 .-_'!?"

// length is up to max, one in five where a length of lengths changes.
func length(r *rng.R, max int) int {
	n := r.Range(1, max)
	if max > 100 && r.P(30) {
		n = max
		if x := rng.Pick(r, 128, 16384, max); x < max {
			n = x - 3 + r.N(6)
		}
	}
	return n
}

func word(r *rng.R, max int) string {
	n := length(r, max)
	b := make([]byte, 0, n)
	odd := r.P(25)
	for len(b) < n {
		switch {
		case odd && r.P(20):
			b = append(b, rng.Pick(r, symbols...)...)
		default:
			b = append(b, letters[r.N(len(letters))])
		}
	}
	// no leading or trailing space, no delta time and no comment by accident
	s := strings.TrimSpace(string(b))
	if s == "" {
		s = "x"
	}
	return s
}

// latin puts bytes of another encoding into a text.
func latin(r *rng.R, o Opt, s string) string {
	if !o.Latin {
		return s
	}
	for n := r.N(3); n > 0; n-- {
		at := r.N(len(s) + 1)
		s = s[:at] + rng.Pick(r, "\xe9", "\xfc", "\xdf", "\x80", "\x85", "\xa0", "\xff", "\xc3") + s[at:]
	}
	return s
}

// tagged mentions an event or chunk tag now and then, as real titles and
// comments do; it never starts with one that would make the line another event.
func tagged(r *rng.R, max int) string {
	s := word(r, max)
	if r.P(85) {
		return s
	}
	t := rng.Pick(r, tagWords...)
	switch r.N(4) {
	case 0:
		return t
	case 1:
		return t + " " + s
	case 2:
		return s + " " + t
	}
	return s + " " + t + " " + word(r, 8)
}

var tagWords = []string{"MThd", "MTrk", "MTrk 1", "Text", "Tempo", "Tempo tempo:500000", "NoteOn", "NoteOff", "EndOfTrack", "TrackName", "Marker", "Lyric", "Copyright", "Controller",
	"KeySignature", "SysExMessage", "ProgramChange", "TimeSignature", "format:1", "%%", "delta:7", "delta: 9", "delta:5 MTrk", "tick:0", "channel:3", "note:C4, velocity:64"}

type manufacturer struct {
	id   []byte
	name string
	reg  string
}

// manufacturers with one byte IDs, and with three
var mfrs1 = []manufacturer{
	{[]byte{0x7d}, "Non-Commercial", "Special Purpose"},
	{[]byte{0x7e}, "Non-RealTime Extensions", "Special Purpose"},
	{[]byte{0x7f}, "RealTime Extensions", "Special Purpose"},
	{[]byte{0x01}, "Sequential Circuits", "American"},
	{[]byte{0x04}, "Moog", "American"},
	{[]byte{0x05}, "Passport Designs", "American"},
	{[]byte{0x06}, "Lexicon", "American"},
	{[]byte{0x07}, "Kurzweil", "American"},
	{[]byte{0x08}, "Fender", "American"},
	{[]byte{0x0a}, "AKG Acoustics", "American"},
	{[]byte{0x0f}, "Ensoniq", "American"},
	{[]byte{0x10}, "Oberheim", "American"},
	{[]byte{0x11}, "Apple", "American"},
	{[]byte{0x13}, "Digidesign", "American"},
	{[]byte{0x18}, "Emu", "American"},
	{[]byte{0x1a}, "ART", "American"},
	{[]byte{0x1c}, "Eventide", "American"},
	{[]byte{0x22}, "Synthaxe", "European"},
	{[]byte{0x24}, "Hohner", "European"},
	{[]byte{0x29}, "PPG", "European"},
	{[]byte{0x2b}, "SSL", "European"},
	{[]byte{0x2d}, "Hinton Instruments", "European"},
	{[]byte{0x2f}, "Elka / General Music", "European"},
	{[]byte{0x30}, "Dynacord", "European"},
	{[]byte{0x33}, "Clavia (Nord)", "European"},
	{[]byte{0x36}, "Cheetah", "European"},
	{[]byte{0x3e}, "Waldorf Electronics Gmbh", "European"},
	{[]byte{0x40}, "Kawai", "Japanese"},
	{[]byte{0x41}, "Roland", "Japanese"},
	{[]byte{0x42}, "Korg", "Japanese"},
	{[]byte{0x43}, "Yamaha", "Japanese"},
	{[]byte{0x44}, "Casio", "Japanese"},
	{[]byte{0x47}, "Akai", "Japanese"},
	{[]byte{0x48}, "Japan Victor (JVC)", "Japanese"},
	{[]byte{0x4c}, "Sony", "Japanese"},
	{[]byte{0x4e}, "Teac Corporation", "Japanese"},
	{[]byte{0x51}, "Fostex", "Japanese"},
	{[]byte{0x52}, "Zoom", "Japanese"},
}

var mfrs3 = []manufacturer{
	{[]byte{0x00, 0x00, 0x07}, "Digital Music Corporation", "American"},
	{[]byte{0x00, 0x00, 0x09}, "New England Digital", "American"},
	{[]byte{0x00, 0x00, 0x0e}, "Alesis", "American"},
	{[]byte{0x00, 0x00, 0x15}, "KAT", "American"},
	{[]byte{0x00, 0x00, 0x16}, "Opcode", "American"},
	{[]byte{0x00, 0x00, 0x1a}, "Allen & Heath Brenell", "American"},
	{[]byte{0x00, 0x00, 0x1b}, "Peavey Electronics", "American"},
	{[]byte{0x00, 0x00, 0x1c}, "360 Systems", "American"},
	{[]byte{0x00, 0x00, 0x1f}, "Zeta Systems", "American"},
	{[]byte{0x00, 0x00, 0x20}, "Axxes", "American"},
	{[]byte{0x00, 0x00, 0x3b}, "Mark Of The Unicorn (MOTU)", "American"},
	{[]byte{0x00, 0x00, 0x4d}, "Studio Electronics", "American"},
	{[]byte{0x00, 0x00, 0x50}, "MIDI Solutions Inc", "American"},
	{[]byte{0x00, 0x01, 0x37}, "Roger Linn Design", "American"},
	{[]byte{0x00, 0x01, 0x72}, "Kilpatrick Audio", "American"},
	{[]byte{0x00, 0x01, 0x73}, "iConnectivity", "American"},
	{[]byte{0x00, 0x02, 0x14}, "Intellijel Designs Inc", "American"},
	{[]byte{0x00, 0x20, 0x11}, "Forefront Technology", "European"},
	{[]byte{0x00, 0x20, 0x13}, "Kenton Electronics", "European"},
	{[]byte{0x00, 0x20, 0x1f}, "TC Electronic", "European"},
	{[]byte{0x00, 0x20, 0x20}, "Doepfer", "European"},
	{[]byte{0x00, 0x20, 0x27}, "Acorn Computer", "European"},
	{[]byte{0x00, 0x20, 0x29}, "Focusrite / Novation", "European"},
	{[]byte{0x00, 0x20, 0x32}, "Behringer", "European"},
	{[]byte{0x00, 0x20, 0x33}, "Access Music Electronics", "European"},
	{[]byte{0x00, 0x20, 0x3c}, "Elektron", "European"},
	{[]byte{0x00, 0x20, 0x4d}, "Vermona", "European"},
	{[]byte{0x00, 0x20, 0x52}, "Analogue Systems", "European"},
	{[]byte{0x00, 0x20, 0x69}, "Elby Designs", "European"},
	{[]byte{0x00, 0x20, 0x6b}, "Arturia", "European"},
	{[]byte{0x00, 0x20, 0x76}, "Teenage Engineering", "European"},
	{[]byte{0x00, 0x21, 0x02}, "Mutable Instruments", "European"},
	{[]byte{0x00, 0x21, 0x09}, "Native Instruments", "European"},
	{[]byte{0x00, 0x21, 0x10}, "ROLI Ltd", "European"},
	{[]byte{0x00, 0x21, 0x1a}, "IK Multimedia", "European"},
	{[]byte{0x00, 0x21, 0x1c}, "Modor Music", "European"},
	{[]byte{0x00, 0x21, 0x1d}, "Ableton", "European"},
	{[]byte{0x00, 0x21, 0x27}, "Expert Sleepers", "European"},
}

type key struct {
	acc   int
	minor int
	name  string
}

var keys = []key{
	{0, 0, "C major"}, {1, 0, "G major"}, {2, 0, "D major"}, {3, 0, "A major"}, {4, 0, "E major"}, {5, 0, "B major"}, {6, 0, "F♯ major"},
	{-1, 0, "F major"}, {-2, 0, "B♭ major"}, {-3, 0, "E♭ major"}, {-4, 0, "A♭ major"}, {-5, 0, "D♭ major"}, {-6, 0, "G♭ major"},
	{0, 1, "A minor"}, {1, 1, "E minor"}, {2, 1, "B minor"}, {3, 1, "F♯ minor"}, {4, 1, "C♯ minor"}, {5, 1, "G♯ minor"}, {6, 1, "D♯ minor"},
	{-1, 1, "D minor"}, {-2, 1, "G minor"}, {-3, 1, "C minor"}, {-4, 1, "F minor"}, {-5, 1, "B♭ minor"}, {-6, 1, "E♭ minor"},
}

func delta(r *rng.R) uint32 {
	switch k := r.N(20); {
	case k < 8:
		return 0
	case k < 16:
		return uint32(r.Range(1, 127))
	case k < 19:
		return uint32(r.Range(128, 4000))
	default:
		return rng.Pick(r, uint32(r.Range(16384, 300000)), uint32(r.Range(1<<21, 1<<28-1)), 127, 128, 16383, 16384, 1<<21-1, 1<<21, 1<<28-1)
	}
}

func meta(tag string, typ byte, data []byte, text string, j map[string]any) Ev {
	if j == nil {
		j = map[string]any{}
	}
	j["tag"], j["status"], j["type"] = tag, 255, int(typ)
	return Ev{Bytes: append([]byte{0xff, typ}, vlf(data)...), Text: fmt.Sprintf("%02X %-22s %s", typ, tag, text), JSON: j, Tag: tag}
}

func chev(tag string, status, ch int, data []byte, text string, j map[string]any) Ev {
	j["tag"], j["status"], j["channel"] = tag, status|ch, ch
	return Ev{Bytes: append([]byte{byte(status | ch)}, data...), Text: fmt.Sprintf("%02X %-22s channel:%-2d %s", status|ch, tag, ch, text), JSON: j, Tag: tag}
}

var flats = map[int]string{1: "D♭", 3: "E♭", 4: "F♭", 5: "E♯", 6: "G♭", 8: "A♭", 10: "B♭"}

func noteEv(r *rng.R, on bool, ch, n, vel int) Ev {
	text := noteName(n)
	if f, ok := flats[n%12]; ok && r.P(20) {
		text = fmt.Sprintf("%s%d", f, n/12-1)
	}
	j := map[string]any{"note": map[string]any{"value": n, "name": noteName(n), "alias": noteName(n)}, "velocity": vel}
	if on {
		return chev("NoteOn", 0x90, ch, []byte{byte(n), byte(vel)}, fmt.Sprintf("note:%s, velocity:%d", text, vel), j)
	}
	return chev("NoteOff", 0x80, ch, []byte{byte(n), byte(vel)}, fmt.Sprintf("note:%s, velocity:%d", text, vel), j)
}

func EOT() Ev { return meta("EndOfTrack", 0x2f, nil, "", nil) }

// Make makes a song.
func Make(r *rng.R, o Opt) *Song {
	s := &Song{Format: 1, Division: rng.Pick(r, 24, 96, 120, 480, 480, 960, 32767, 1, 255, 256, r.Range(1, 32767))}
	if r.P(10) {
		s.Format = rng.Pick(r, 0, 2)
		if s.Format == 0 && r.P(70) {
			o.Tracks = 1
		}
	}
	room := 5000 + o.BigSysex + o.BigText + o.Room
	big := func(n int) int { // a song holds few big events
		if n > 100 {
			if room < n {
				return 20
			}
			room -= n
		}
		return n
	}
	for t := 0; t < o.Tracks; t++ {
		var tr Track
		n := o.Events
		if r.P(60) {
			n = r.N(o.Events + 1)
		}
		add := func(e Ev) {
			e.Delta = delta(r)
			e.Bare = strings.HasSuffix(e.Text, " ") && e.Tag != "EndOfTrack"
			tr.Evs = append(tr.Evs, e)
		}
		if r.P(70) {
			w := latin(r, o, tagged(r, 16))
			if r.P(4) {
				w = ""
			}
			add(meta("TrackName", 3, []byte(w), w, map[string]any{"name": w}))
		}
		if t == 0 {
			if r.P(80) {
				add(tempo(r))
			}
			if r.P(60) {
				add(timesig(r))
			}
			for i := r.N(4); i > 0; i-- {
				add(tempo(r))
			}
		}
		type nt struct{ ch, n int }
		var on []nt
		chs := make([]int, r.Range(1, 3))
		for i := range chs {
			chs[i] = rng.Pick(r, 5*i, r.Edge(16))
		}
		for i := 0; i < n; i++ {
			kind := AllKinds[r.N(len(AllKinds))]
			if !o.Kinds[kind] {
				kind = "note"
			}
			if o.Mostly != "" && r.P(70) {
				kind = o.Mostly
			}
			ch := chs[r.N(len(chs))]
			switch kind {
			case "note":
				if t == 0 && s.Format == 1 && r.P(95) {
					continue
				}
				if len(on) > 0 && r.P(50) {
					k := r.N(len(on))
					x := on[k]
					on = append(on[:k], on[k+1:]...)
					if r.P(25) {
						add(noteEv(r, true, x.ch, x.n, 0))
					} else {
						add(noteEv(r, false, x.ch, x.n, r.Edge(128)))
					}
				} else {
					x := nt{ch, o.LoNote + r.Edge(128-o.LoNote)}
					on = append(on, x)
					add(noteEv(r, true, x.ch, x.n, 1+r.Edge(127)))
				}
			case "text":
				w := latin(r, o, tagged(r, big(o.BigText)))
				if r.P(4) {
					w = ""
				}
				switch r.N(8) {
				case 0:
					add(meta("Text", 1, []byte(w), w, map[string]any{"text": w}))
				case 1:
					add(meta("Copyright", 2, []byte(w), w, map[string]any{"copyright": w}))
				case 2:
					add(meta("InstrumentName", 4, []byte(w), w, map[string]any{"name": w}))
				case 3:
					add(meta("Lyric", 5, []byte(w), w, map[string]any{"lyric": w}))
				case 4:
					add(meta("Marker", 6, []byte(w), w, map[string]any{"marker": w}))
				case 5:
					add(meta("CuePoint", 7, []byte(w), w, map[string]any{"cuepoint": w}))
				case 6:
					add(meta("ProgramName", 8, []byte(w), w, map[string]any{"name": w}))
				case 7:
					add(meta("DeviceName", 9, []byte(w), w, map[string]any{"name": w}))
				}
			case "tempo":
				add(tempo(r))
			case "timesig":
				add(timesig(r))
			case "keysig":
				k := rng.Pick(r, keys...)
				add(meta("KeySignature", 0x59, []byte{byte(int8(k.acc)), byte(k.minor)}, k.name, map[string]any{"accidentals": k.acc, "key-type": k.minor, "key": k.name}))
			case "ctrl":
				c, v := r.Edge(128), r.Edge(128)
				if r.P(30) {
					c = rng.Pick(r, 0, 32)
				}
				add(chev("Controller", 0xb0, ch, []byte{byte(c), byte(v)}, fmt.Sprintf("%d/Controller, value:%d", c, v), map[string]any{"controller": map[string]any{"id": c, "name": "Controller"}, "value": v}))
			case "prog":
				p := r.Edge(128)
				add(chev("ProgramChange", 0xc0, ch, []byte{byte(p)}, fmt.Sprintf("bank:0, program:%d", p), map[string]any{"bank": 0, "program": p}))
			case "bend":
				b := r.Edge(16384)
				add(chev("PitchBend", 0xe0, ch, []byte{byte(b >> 7 & 0x7f), byte(b & 0x7f)}, fmt.Sprintf("bend:%d", b), map[string]any{"bend": b}))
			case "cpress":
				p := r.Edge(128)
				add(chev("ChannelPressure", 0xd0, ch, []byte{byte(p)}, fmt.Sprintf("pressure:%d", p), map[string]any{"pressure": p}))
			case "ppress":
				// the program reads and writes one data byte here
				p := r.Edge(128)
				if o.Assemblable {
					continue
				}
				add(chev("PolyphonicPressure", 0xa0, ch, []byte{byte(p)}, fmt.Sprintf("pressure:%d", p), map[string]any{"pressure": p}))
			case "sysex":
				m := unknown(r, o, rng.Pick(r, mfrs1...), true)
				d := data7(r, big(o.BigSysex))
				add(sysex(m, d, true))
			case "sysexcont":
				m := rng.Pick(r, mfrs1...)
				add(sysex(m, data7(r, big(o.BigSysex)), false))
				for k := r.N(3); k > 0; k-- {
					add(cont(data7(r, big(o.BigSysex)), false))
				}
				add(cont(data7(r, big(o.BigSysex)), true))
			case "escape":
				d := append([]byte{0xf3}, data7(r, 6)...)
				if r.P(30) {
					d = r.Bytes(r.N(8))
				}
				add(Ev{Bytes: append([]byte{0xf7}, vlf(d)...), Text: fmt.Sprintf("F7 %-22s %s", "SysExEscape", hex(d)), Tag: "SysExEscape",
					JSON: map[string]any{"tag": "SysExEscape", "status": 247, "data": ints(d)}})
			case "seqspec":
				m := unknown(r, o, rng.Pick(r, rng.Pick(r, mfrs1, mfrs3)...), false)
				d := data7(r, 20)
				if r.P(30) {
					d = r.Bytes(r.N(20))
				}
				add(meta("SequencerSpecificEvent", 0x7f, append(append([]byte{}, m.id...), d...), m.name+", "+hex(d), map[string]any{"manufacturer": map[string]any{"id": ints(m.id), "region": m.reg, "name": m.name}, "data": ints(d)}))
			case "seqno":
				v := r.Edge(65536)
				add(meta("SequenceNumber", 0, []byte{byte(v >> 8), byte(v)}, fmt.Sprint(v), map[string]any{"sequence-number": v}))
			case "prefix":
				v := r.Edge(16)
				add(meta("MIDIChannelPrefix", 0x20, []byte{byte(v)}, fmt.Sprint(v), map[string]any{"channel": v}))
			case "port":
				v := r.Edge(128)
				add(meta("MIDIPort", 0x21, []byte{byte(v)}, fmt.Sprint(v), map[string]any{"port": v}))
			case "smpte":
				k := r.N(4)
				rate := []int{24, 25, 29, 30}[k]
				h, m, sec, fr, ff := r.Edge(24), r.Edge(60), r.Edge(60), r.Edge(rate), r.Edge(101)
				add(meta("SMPTEOffset", 0x54, []byte{byte(h | k<<5), byte(m), byte(sec), byte(fr), byte(ff)}, fmt.Sprintf("%d %d %d %d %d %d", h, m, sec, rate, fr, ff),
					map[string]any{"hour": h, "minute": m, "second": sec, "frame-rate": rate, "frames": fr, "fractional-frames": ff}))
			}
		}
		if !o.Pending {
			for _, x := range on {
				add(noteEv(r, false, x.ch, x.n, 64))
			}
		}
		if !o.Assemblable && r.P(4) { // the first packet of a message that never ends
			add(sysex(rng.Pick(r, mfrs1...), data7(r, 10), false))
		}
		if !o.NoEOT {
			add(EOT())
		}
		s.Tracks = append(s.Tracks, tr)
	}
	return s
}

func data7(r *rng.R, max int) []byte {
	n := length(r, max)
	if r.P(4) {
		n = 0
	}
	b := r.Bytes(n)
	for i := range b {
		b[i] &= 0x7f
	}
	return b
}

// NoManufacturer draws one of a few IDs that no known manufacturer has.
func NoManufacturer(r *rng.R) []int {
	return rng.Pick(r, []int{0x12}, []int{0x3d}, []int{0, 0x60, 1}, []int{0, 0x60, 2})
}

// unknown is a manufacturer the program knows nothing of, for files that are
// not assembled from text or JSON.
func unknown(r *rng.R, o Opt, m manufacturer, single bool) manufacturer {
	if o.Assemblable || !r.P(15) {
		return m
	}
	m = manufacturer{}
	id := NoManufacturer(r)
	for single && len(id) > 1 {
		id = NoManufacturer(r)
	}
	for _, x := range id {
		m.id = append(m.id, byte(x))
	}
	return m
}

func sysex(m manufacturer, d []byte, single bool) Ev {
	if len(d) == 0 && !single { // a packet of a manufacturer and nothing else is refused
		d = []byte{0}
	}
	x := append(append([]byte{}, m.id...), d...)
	if single {
		x = append(x, 0xf7)
	}
	return Ev{Bytes: append([]byte{0xf0}, vlf(x)...), Text: fmt.Sprintf("F0 %-22s %s, %s", "SysExMessage", m.name, hex(d)), Tag: "SysExMessage",
		JSON: map[string]any{"tag": "SysExMessage", "status": 240, "manufacturer": map[string]any{"id": ints(m.id), "region": m.reg, "name": m.name}, "data": ints(d), "single": single}}
}

func cont(d []byte, end bool) Ev {
	x := append([]byte{}, d...)
	if end {
		x = append(x, 0xf7)
	}
	return Ev{Bytes: append([]byte{0xf7}, vlf(x)...), Text: fmt.Sprintf("F7 %-22s %s", "SysExContinuation", hex(d)), Tag: "SysExContinuation",
		JSON: map[string]any{"tag": "SysExContinuation", "status": 247, "data": ints(d), "end": end}}
}

func tempo(r *rng.R) Ev {
	v := r.Range(100000, 2000000)
	if r.P(20) {
		v = rng.Pick(r, 1, 255, 256, 65535, 65536, 1<<24-1, r.Range(1, 1<<24-1))
	}
	return meta("Tempo", 0x51, []byte{byte(v >> 16), byte(v >> 8), byte(v)}, fmt.Sprintf("tempo:%d", v), map[string]any{"tempo": v})
}

func timesig(r *rng.R) Ev {
	n, k, c, q := r.Range(1, 12), r.N(5), 24, 8
	if r.P(25) {
		n, k, c, q = r.Range(1, 255), r.N(8), r.Range(1, 255), r.Range(1, 255)
	}
	return meta("TimeSignature", 0x58, []byte{byte(n), byte(k), byte(c), byte(q)}, fmt.Sprintf("%d/%d, %d ticks per click, %d/32 per quarter", n, 1<<k, c, q),
		map[string]any{"numerator": n, "denominator": 1 << k, "ticks-per-click": c, "thirty-seconds-per-quarter": q})
}

// MIDI writes the binary form.
func (s *Song) MIDI(running bool) []byte {
	var b bytes.Buffer
	b.WriteString("MThd")
	binary.Write(&b, binary.BigEndian, uint32(6))
	binary.Write(&b, binary.BigEndian, uint16(s.Format))
	binary.Write(&b, binary.BigEndian, uint16(len(s.Tracks)))
	binary.Write(&b, binary.BigEndian, uint16(s.Division))
	for _, t := range s.Tracks {
		var x []byte
		var last byte
		for _, e := range t.Evs {
			x = append(x, vlq(e.Delta)...)
			st := e.Bytes[0]
			if running && st < 0xf0 && st == last {
				x = append(x, e.Bytes[1:]...)
			} else {
				x = append(x, e.Bytes...)
			}
			if st < 0xf0 {
				last = st
			} else {
				last = 0
			}
		}
		b.WriteString("MTrk")
		binary.Write(&b, binary.BigEndian, uint32(len(x)))
		b.Write(x)
	}
	return b.Bytes()
}

// Text writes the text form the assembler takes. Noise adds comments, blank
// lines and the hex column.
func (s *Song) Text(r *rng.R, noise bool) []byte {
	var b strings.Builder
	junk := func() {
		if !noise {
			return
		}
		for r.P(12) {
			switch r.N(3) {
			case 0:
				b.WriteString("%% " + tagged(r, 30) + "\n")
			case 1:
				b.WriteString("\n")
			case 2:
				b.WriteString("   \t\n")
			}
		}
	}
	if noise && r.P(50) {
		for i := r.N(4); i >= 0; i-- {
			b.WriteString(strings.ReplaceAll(tagged(r, 40), "MThd", "x") + "\n")
		}
	}
	hx := noise && r.P(50)
	pre := func(x []byte, w int) {
		if !hx {
			return
		}
		h := hex(x)
		if len(h) > w {
			h = h[:w-1]
		}
		fmt.Fprintf(&b, "%-*s  ", w, h)
	}
	pre([]byte("MThd"), 42)
	n := len(s.Tracks)
	if noise && r.P(8) { // what counts is the MTrk sections
		n = r.N(5)
	}
	fmt.Fprintf(&b, "MThd length:6, format:%d, tracks:%d, metrical time:%d ppqn\n", s.Format, n, s.Division)
	loose := noise && r.P(10) // numbers that are there to be read, not assembled
	junk()
	if r.P(80) {
		b.WriteString("\n")
	}
	for i, t := range s.Tracks {
		pre([]byte("MTrk"), 42)
		if loose {
			b.WriteString(rng.Pick(r, "MTrk", "MTrk 7 length:0", "MTrk 0", "MTrk 1 length:99999", " MTrk x") + "\n")
		} else {
			fmt.Fprintf(&b, "MTrk %-2d length:%d\n", i, 8+len(t.Evs))
		}
		tick := uint64(0)
		for _, e := range t.Evs {
			junk()
			tick += uint64(e.Delta)
			pre(e.Bytes, 42)
			text := e.Text
			if !e.Bare {
				text = strings.TrimRight(text, " ")
			}
			if loose && r.P(50) {
				b.WriteString(rng.Pick(r, "", "tick:0 ", "tick:99 ") + fmt.Sprintf("delta:%d %s\n", e.Delta, text))
				continue
			}
			fmt.Fprintf(&b, "tick:%-10d delta:%-10d %s\n", tick, e.Delta, text)
		}
		if r.P(80) {
			b.WriteString("\n")
		}
		junk()
	}
	out := b.String()
	if r.P(15) {
		out = strings.TrimRight(out, "\n")
	}
	if noise && r.P(10) {
		out = strings.ReplaceAll(out, "\n", "\r\n")
	}
	return []byte(out)
}

// JSONSource writes the JSON form the assembler takes.
func (s *Song) JSONSource(r *rng.R) []byte {
	type ev struct {
		Event map[string]any `json:"event"`
	}
	type tr struct {
		Tag    string `json:"tag"`
		Number int    `json:"track-number"`
		Events []ev   `json:"events"`
	}
	doc := struct {
		Header map[string]any `json:"header"`
		Tracks []tr           `json:"tracks"`
	}{Header: map[string]any{"Tag": "MThd", "Length": 6, "Format": s.Format, "Tracks": len(s.Tracks), "Division": s.Division, "PPQN": s.Division}}
	for i, t := range s.Tracks {
		x := tr{Tag: "MTrk", Number: i, Events: []ev{}}
		for _, e := range t.Evs {
			j := map[string]any{"delta": e.Delta}
			for k, v := range e.JSON {
				j[k] = v
			}
			x.Events = append(x.Events, ev{j})
		}
		doc.Tracks = append(doc.Tracks, x)
	}
	var b []byte
	if r.P(50) {
		b, _ = json.MarshalIndent(doc, "", "  ")
	} else {
		b, _ = json.Marshal(doc)
	}
	return b
}

// RefEvent is an event read back by the reference reader.
type RefEvent struct {
	Delta uint32
	Bytes string // with status byte, without the delta
}

// ReadSMF is an independent reader of standard MIDI files.
func ReadSMF(b []byte) (format, division int, tracks [][]RefEvent, err error) {
	if len(b) < 14 || string(b[:4]) != "MThd" || binary.BigEndian.Uint32(b[4:]) != 6 {
		return 0, 0, nil, fmt.Errorf("bad MThd")
	}
	format = int(binary.BigEndian.Uint16(b[8:]))
	n := int(binary.BigEndian.Uint16(b[10:]))
	division = int(binary.BigEndian.Uint16(b[12:]))
	b = b[14:]
	for len(b) > 0 {
		if len(b) < 8 || string(b[:4]) != "MTrk" {
			return 0, 0, nil, fmt.Errorf("bad track header")
		}
		l := int(binary.BigEndian.Uint32(b[4:]))
		if len(b) < 8+l {
			return 0, 0, nil, fmt.Errorf("short track")
		}
		evs, err := readTrack(b[8 : 8+l])
		if err != nil {
			return 0, 0, nil, err
		}
		tracks = append(tracks, evs)
		b = b[8+l:]
	}
	if len(tracks) != n {
		return 0, 0, nil, fmt.Errorf("%d tracks, header says %d", len(tracks), n)
	}
	return
}

func readTrack(b []byte) ([]RefEvent, error) {
	pos := 0
	rd := func() (uint32, error) {
		var v uint32
		for i := 0; i < 5; i++ {
			if pos >= len(b) {
				return 0, fmt.Errorf("short quantity")
			}
			c := b[pos]
			pos++
			v = v<<7 | uint32(c&0x7f)
			if c&0x80 == 0 {
				return v, nil
			}
		}
		return 0, fmt.Errorf("long quantity")
	}
	out := []RefEvent{}
	var status byte
	for pos < len(b) {
		d, err := rd()
		if err != nil {
			return nil, err
		}
		if pos >= len(b) {
			return nil, fmt.Errorf("delta without event")
		}
		st := b[pos]
		if st < 0x80 {
			if status == 0 {
				return nil, fmt.Errorf("data byte without status")
			}
			st = status
		} else {
			pos++
		}
		var ev []byte
		switch {
		case st == 0xff:
			if pos >= len(b) {
				return nil, fmt.Errorf("short meta event")
			}
			typ := b[pos]
			pos++
			n, err := rd()
			if err != nil {
				return nil, err
			}
			if pos+int(n) > len(b) {
				return nil, fmt.Errorf("meta event overruns the track")
			}
			ev = append([]byte{st, typ}, vlf(b[pos:pos+int(n)])...)
			pos += int(n)
			status = 0
		case st == 0xf0 || st == 0xf7:
			n, err := rd()
			if err != nil {
				return nil, err
			}
			if pos+int(n) > len(b) {
				return nil, fmt.Errorf("sysex event overruns the track")
			}
			ev = append([]byte{st}, vlf(b[pos:pos+int(n)])...)
			pos += int(n)
			status = 0
		case st < 0xf0:
			n := 2
			if st&0xf0 == 0xc0 || st&0xf0 == 0xd0 {
				n = 1
			}
			if pos+n > len(b) {
				return nil, fmt.Errorf("short channel event")
			}
			ev = append([]byte{st}, b[pos:pos+n]...)
			pos += n
			status = st
		default:
			return nil, fmt.Errorf("status %02X", st)
		}
		out = append(out, RefEvent{d, string(ev)})
	}
	return out, nil
}

// VLQ is a variable-length quantity.
func VLQ(v uint32) []byte { return vlq(v) }

// Fill puts a text into the last track that makes the MIDI file n bytes long,
// or one more or less where the length of the text takes another byte.
func (s *Song) Fill(running bool, n int) {
	if len(s.Tracks) == 0 || len(s.Tracks[len(s.Tracks)-1].Evs) == 0 {
		return
	}
	t := &s.Tracks[len(s.Tracks)-1]
	last := len(t.Evs) - 1
	want := n - len(s.MIDI(running)) - 1
	for l := want; l > 0 && l > want-7; l-- {
		w := strings.Repeat("x", l)
		e := meta("Text", 1, []byte(w), w, map[string]any{"text": w})
		if len(e.Bytes) == want {
			evs := append([]Ev{}, t.Evs[:last]...)
			t.Evs = append(evs, e, t.Evs[last])
			return
		}
	}
}

// Echo follows a text with one that is the same but for its last letter.
func (s *Song) Echo(r *rng.R) {
	for try := 0; try < 20 && len(s.Tracks) > 0; try++ {
		t := &s.Tracks[r.N(len(s.Tracks))]
		if len(t.Evs) == 0 {
			continue
		}
		i := r.N(len(t.Evs))
		e := t.Evs[i]
		if len(e.Bytes) < 5 || e.Bytes[0] != 0xff || e.Bytes[1] < 1 || e.Bytes[1] > 9 {
			continue
		}
		for k, v := range e.JSON {
			w, ok := v.(string)
			if !ok || k == "tag" || len(w) < 1 || !(w[len(w)-1] >= 'a' && w[len(w)-1] <= 'z') {
				continue
			}
			if r.P(50) && len(w) < 300 { // and long
				w = strings.Repeat("abcdefghij", r.Range(5, 40)) + w
				long := meta(e.Tag, e.Bytes[1], []byte(w), w, map[string]any{k: w})
				long.Delta = e.Delta
				t.Evs[i] = long
			}
			w = w[:len(w)-1] + string('a'+(w[len(w)-1]-'a'+1)%26)
			x := meta(e.Tag, e.Bytes[1], []byte(w), w, map[string]any{k: w})
			x.Delta = e.Delta
			t.Evs = append(t.Evs[:i+1:i+1], append([]Ev{x}, t.Evs[i+1:]...)...)
			return
		}
	}
}
