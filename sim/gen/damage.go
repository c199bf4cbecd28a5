package gen

import (
	"bytes"
	"fmt"
	"regexp"
	"strings"

	"midisim/rng"
)

// Damage applies the kinds of corruption stored bytes suffer. It returns the
// damaged copy and what was done.
func Damage(r *rng.R, b []byte, format string) ([]byte, string) {
	b = append([]byte(nil), b...)
	what := []string{}
	n := 1
	if r.P(30) {
		n = r.Range(2, 5)
	}
	for i := 0; i < n; i++ {
		var w string
		if r.P(8) {
			b, w = trail(r, b)
		} else if format != "midi" && r.P(55) {
			b, w = damageText(r, b)
		} else {
			b, w = damageOnce(r, b)
		}
		what = append(what, w)
	}
	return b, strings.Join(what, ", ")
}

// trail appends what is left behind in a file that was longer once, or was
// stored twice, or padded.
func trail(r *rng.R, b []byte) ([]byte, string) {
	n := len(b)
	if r.P(30) {
		b = append(b, bytes.Repeat(rng.Pick(r, []byte{0}, []byte("\n"), []byte(" "), []byte("\r\n")), r.Range(1, rng.Pick(r, 4, 600, 5000)))...)
	}
	switch r.N(6) {
	case 0:
		b = append(b, b[:n:n]...)
	case 1:
		at := r.N(n + 1)
		b = append(b, b[at:n:n]...)
	case 2:
		b = append(b, rng.Pick(r, "x", "}", "{}", "]", "null", "\x1a", "MTrk", "{", ",", "\"")...)
	case 3:
		b = append(b, r.Bytes(r.Range(1, 12))...)
	}
	return b, fmt.Sprintf("%d bytes appended", len(b)-n)
}

func damageOnce(r *rng.R, b []byte) ([]byte, string) {
	if len(b) == 0 {
		return r.Bytes(r.N(20)), "garbage"
	}
	at := r.N(len(b))
	if r.P(35) {
		// aim at the structure: header, chunk headers
		if r.P(40) {
			at = r.N(min(len(b), 24))
		} else if k := bytes.LastIndex(b[:at], []byte("MTrk")); k >= 0 {
			at = min(len(b)-1, k+r.N(12))
		}
	}
	switch r.N(9) {
	case 0:
		k := r.N(8)
		b[at] ^= 1 << k
		return b, fmt.Sprintf("bit %d of byte %d flipped", k, at)
	case 1, 2:
		v := rng.Pick[byte](r, 0, 1, 0x7f, 0x80, 0xff, 0xf0, 0xf7, 0x2f, 0x51, 0x58, 0x59, 0x7f, 0x54, 0x90, 0xa0, 0xc0)
		b[at] = v
		return b, fmt.Sprintf("byte %d set to %02X", at, v)
	case 3:
		b[at] = byte(r.U64())
		return b, fmt.Sprintf("byte %d overwritten", at)
	case 4:
		n := min(r.Range(1, 16), len(b)-at)
		return append(b[:at:at], b[at+n:]...), fmt.Sprintf("bytes %d..%d lost", at, at+n)
	case 5:
		n := min(r.Range(1, 16), len(b)-at)
		return append(b[:at+n:at+n], b[at:]...), fmt.Sprintf("bytes %d..%d duplicated", at, at+n)
	case 6:
		g := r.Bytes(r.Range(1, 8))
		return append(b[:at:at], append(g, b[at:]...)...), fmt.Sprintf("garbage inserted at %d", at)
	case 7:
		n := min(r.Range(1, 32), len(b)-at)
		v := rng.Pick[byte](r, 0, 0xff)
		for i := 0; i < n; i++ {
			b[at+i] = v
		}
		return b, fmt.Sprintf("bytes %d..%d set to %02X", at, at+n, v)
	default:
		// a length or count that is far too large
		if at+4 <= len(b) {
			copy(b[at:], []byte{0xff, 0xff, 0xff, byte(r.U64())})
			return b, fmt.Sprintf("bytes %d..%d set to FF FF FF ..", at, at+4)
		}
		return b[:at], fmt.Sprintf("truncated at %d", at)
	}
}

var tokens = []string{"-1", "0", "1", "127", "128", "129", "255", "256", "65535", "65536", "4294967295", "4294967296", "99999999999999999999", "1e9", "null", "\"\"", "[]", "{}", "true", "x", "NaN", "♯", "♭"}

// damageText replaces a number or word, or drops, repeats or swaps lines.
func damageText(r *rng.R, b []byte) ([]byte, string) {
	lines := strings.SplitAfter(string(b), "\n")
	i := r.N(len(lines))
	switch r.N(6) {
	case 0:
		l := lines[i]
		lines = append(lines[:i:i], lines[i+1:]...)
		return []byte(strings.Join(lines, "")), fmt.Sprintf("line %q lost", l)
	case 1:
		lines = append(lines[:i+1:i+1], lines[i:]...)
		return []byte(strings.Join(lines, "")), fmt.Sprintf("line %d repeated", i)
	default:
		s := string(b)
		type span struct{ a, b int }
		var nums []span
		for k := 0; k < len(s); {
			if s[k] >= '0' && s[k] <= '9' {
				e := k
				for e < len(s) && s[e] >= '0' && s[e] <= '9' {
					e++
				}
				nums = append(nums, span{k, e})
				k = e
			} else {
				k++
			}
		}
		if len(nums) == 0 {
			return damageOnce(r, b)
		}
		x := nums[r.N(len(nums))]
		if r.P(25) { // the header's
			x = nums[r.N(min(8, len(nums)))]
		}
		t := rng.Pick(r, tokens...)
		if r.P(30) {
			t = fmt.Sprint(r.N(300))
		} else if r.P(20) { // a division in frames
			t = fmt.Sprint(rng.Pick(r, 0xe8, 0xe7, 0xe3, 0xe2, r.Range(0x80, 0xff))<<8 | r.Edge(256))
		}
		return []byte(s[:x.a] + t + s[x.b:]), fmt.Sprintf("%q at %d became %q", s[x.a:x.b], x.a, t)
	}
}

// wide matches numbers with which a template asks for (or loops into) an
// output far larger than itself, which is what it would then rightly get.
var wide = regexp.MustCompile(`[0-9]{4}|[0-9][a-zA-Z_+.]|[+-][0-9]`)

// DamageTemplates damages a template file without blowing up the padding it
// asks for.
func DamageTemplates(r *rng.R, b []byte) ([]byte, string) {
	for i := 0; i < 8; i++ {
		if d, what := Damage(r, b, "text"); !wide.Match(d) {
			return d, what
		}
	}
	n := r.N(len(b) + 1)
	return b[:n], fmt.Sprintf("truncated at %d", n)
}
