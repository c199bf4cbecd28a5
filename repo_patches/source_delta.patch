From ae23951ab6973752d184a5f31299cafc631dbdd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:36:22 +0000
Subject: [PATCH 01/26] fix: commands reported success when the output could
 not be written, and truncated an existing output file before knowing whether
 the output could be produced

---
 commands/click.go       | 18 ++++--------
 commands/command.go     | 18 ++++++++++++
 commands/disassemble.go | 63 ++++++++++++++++++-----------------------
 commands/export.go      | 18 +++---------
 commands/notes.go       | 25 ++++++----------
 commands/transpose.go   |  8 +-----
 commands/tsv.go         | 18 ++++--------
 7 files changed, 70 insertions(+), 98 deletions(-)

diff --git a/commands/click.go b/commands/click.go
index 62b3bf7..376c2b1 100644
--- a/commands/click.go
+++ b/commands/click.go
@@ -3,6 +3,7 @@ package commands
 import (
 	"flag"
 	"fmt"
+	"io"
 	"os"
 
 	"github.com/transcriptaze/midiasm/midi"
@@ -62,18 +63,9 @@ func (c click) Execute(flagset *flag.FlagSet) error {
 }
 
 func (c click) execute(smf *midi.SMF) error {
-	var w = os.Stdout
-	var err error
+	return write(c.out, func(w io.Writer) error {
+		track := impl.ClickTrack{w}
 
-	if c.out != "" {
-		if w, err = os.Create(c.out); err != nil {
-			return err
-		}
-
-		defer w.Close()
-	}
-
-	track := impl.ClickTrack{w}
-
-	return track.Execute(smf)
+		return track.Execute(smf)
+	})
 }
diff --git a/commands/command.go b/commands/command.go
index 32e9450..9a095e3 100644
--- a/commands/command.go
+++ b/commands/command.go
@@ -38,6 +38,24 @@ func decode(filename string) (*midi.SMF, error) {
 	}
 }
 
+// Renders the output in full before opening (and truncating) the destination file so that a command that
+// fails does not damage an existing file. Defaults to stdout if the filename is blank.
+func write(filename string, render func(io.Writer) error) error {
+	var b bytes.Buffer
+
+	if err := render(&b); err != nil {
+		return err
+	}
+
+	if filename == "" {
+		_, err := os.Stdout.Write(b.Bytes())
+
+		return err
+	}
+
+	return os.WriteFile(filename, b.Bytes(), 0666)
+}
+
 func read(filename string) ([]byte, error) {
 	f, err := os.Open(filename)
 	if err != nil {
diff --git a/commands/disassemble.go b/commands/disassemble.go
index 8598538..0abb04f 100644
--- a/commands/disassemble.go
+++ b/commands/disassemble.go
@@ -1,8 +1,10 @@
 package commands
 
 import (
+	"bytes"
 	"flag"
 	"fmt"
+	"io"
 	"os"
 	"path"
 	"strings"
@@ -92,20 +94,9 @@ func (p disassemble) Execute(flagset *flag.FlagSet) error {
 }
 
 func (p disassemble) write(op *impl.Disassemble, smf *midi.SMF) error {
-	out := os.Stdout
-
-	if p.out != "" {
-		w, err := os.Create(p.out)
-		if err != nil {
-			return err
-		}
-
-		defer w.Close()
-
-		out = w
-	}
-
-	return op.Print(smf, "document", out)
+	return write(p.out, func(w io.Writer) error {
+		return op.Print(smf, "document", w)
+	})
 }
 
 func (p disassemble) separate(op *impl.Disassemble, smf *midi.SMF, file string) error {
@@ -113,40 +104,42 @@ func (p disassemble) separate(op *impl.Disassemble, smf *midi.SMF, file string)
 	base := strings.TrimSuffix(path.Base(file), path.Ext(file))
 	dir := path.Dir(file)
 
-	if p.out != "" {
-		dir = p.out
-		err := os.MkdirAll(dir, os.ModeDir)
-		if err != nil {
-			return err
-		}
-	}
-
 	// Print MThd
-	filename := fmt.Sprintf("%s.MThd", base)
-	w, err := os.Create(path.Join(dir, filename))
-	if err != nil {
-		return err
+	type chunk struct {
+		filename string
+		text     bytes.Buffer
 	}
 
-	if err = op.Print(smf.MThd, "MThd", w); err != nil {
-		fmt.Printf("Error %v extracting MThd information\n", err)
+	mthd := chunk{filename: fmt.Sprintf("%s.MThd", base)}
+	if err := op.Print(smf.MThd, "MThd", &mthd.text); err != nil {
+		return fmt.Errorf("error extracting MThd information (%w)", err)
 	}
 
-	w.Close()
+	chunks := []*chunk{&mthd}
 
 	// Print tracks
 	for _, mtrk := range smf.Tracks {
-		filename := fmt.Sprintf("%s-%d.MTrk", base, mtrk.TrackNumber)
-		w, err := os.Create(path.Join(dir, filename))
+		track := chunk{filename: fmt.Sprintf("%s-%d.MTrk", base, mtrk.TrackNumber)}
+		if err := op.Print(mtrk, "MTrk", &track.text); err != nil {
+			return fmt.Errorf("error extracting MTrk%d information (%w)", mtrk.TrackNumber, err)
+		}
+
+		chunks = append(chunks, &track)
+	}
+
+	// Write files
+	if p.out != "" {
+		dir = p.out
+		err := os.MkdirAll(dir, os.ModeDir)
 		if err != nil {
 			return err
 		}
+	}
 
-		if err = op.Print(mtrk, "MTrk", w); err != nil {
-			fmt.Printf("Error %v extracting MTrk%d information\n", mtrk.TrackNumber, err)
+	for _, c := range chunks {
+		if err := os.WriteFile(path.Join(dir, c.filename), c.text.Bytes(), 0666); err != nil {
+			return err
 		}
-
-		w.Close()
 	}
 
 	return nil
diff --git a/commands/export.go b/commands/export.go
index 699c61f..37363ec 100644
--- a/commands/export.go
+++ b/commands/export.go
@@ -3,6 +3,7 @@ package commands
 import (
 	"flag"
 	"fmt"
+	"io"
 	"os"
 
 	"github.com/transcriptaze/midiasm/midi"
@@ -72,18 +73,7 @@ func (x export) execute(smf *midi.SMF) error {
 }
 
 func (x export) write(op *impl.Export, smf *midi.SMF) error {
-	out := os.Stdout
-
-	if x.out != "" {
-		w, err := os.Create(x.out)
-		if err != nil {
-			return err
-		}
-
-		defer w.Close()
-
-		out = w
-	}
-
-	return op.Export(smf, out)
+	return write(x.out, func(w io.Writer) error {
+		return op.Export(smf, w)
+	})
 }
diff --git a/commands/notes.go b/commands/notes.go
index c53d3c1..49f4bce 100644
--- a/commands/notes.go
+++ b/commands/notes.go
@@ -3,6 +3,7 @@ package commands
 import (
 	"flag"
 	"fmt"
+	"io"
 	"os"
 
 	"github.com/transcriptaze/midiasm/midi"
@@ -66,23 +67,13 @@ func (n notes) Execute(flagset *flag.FlagSet) error {
 }
 
 func (n notes) execute(smf *midi.SMF) error {
-	w := os.Stdout
-	err := error(nil)
-
-	if n.out != "" {
-		w, err = os.Create(n.out)
-		if err != nil {
-			return err
+	return write(n.out, func(w io.Writer) error {
+		op := impl.Notes{
+			JSON:      n.json,
+			Transpose: n.transpose,
+			Writer:    w,
 		}
 
-		defer w.Close()
-	}
-
-	op := impl.Notes{
-		JSON:      n.json,
-		Transpose: n.transpose,
-		Writer:    w,
-	}
-
-	return op.Execute(smf)
+		return op.Execute(smf)
+	})
 }
diff --git a/commands/transpose.go b/commands/transpose.go
index f090549..7e9a724 100644
--- a/commands/transpose.go
+++ b/commands/transpose.go
@@ -73,14 +73,8 @@ func (t transpose) execute(smf *midi.SMF) error {
 	}
 
 	if t.out != "" {
-		if w, err := os.Create(t.out); err != nil {
+		if err := os.WriteFile(t.out, transposed, 0666); err != nil {
 			return err
-		} else {
-			defer w.Close()
-
-			if _, err := w.Write(transposed); err != nil {
-				return err
-			}
 		}
 	}
 
diff --git a/commands/tsv.go b/commands/tsv.go
index e49facb..c272c05 100644
--- a/commands/tsv.go
+++ b/commands/tsv.go
@@ -68,21 +68,15 @@ func (t tsv) Execute(flagset *flag.FlagSet) error {
 	} else if header, records, err := t.export(smf); err != nil {
 		return err
 	} else {
-		if t.out == "" {
-			return writeTable(records, os.Stdout)
-		} else if f, err := os.Create(t.out); err != nil {
-			return err
-		} else {
-			defer f.Close()
-
-			if t.tabular {
-				return writeTable(records, f)
+		return write(t.out, func(w io.Writer) error {
+			if t.out == "" || t.tabular {
+				return writeTable(records, w)
 			} else if t.delimiter == "" || t.delimiter == `\t` {
-				return writeTSV(header, records, '\t', f)
+				return writeTSV(header, records, '\t', w)
 			} else {
-				return writeTSV(header, records, []rune(t.delimiter)[0], f)
+				return writeTSV(header, records, []rune(t.delimiter)[0], w)
 			}
-		}
+		})
 	}
 }
 
-- 
2.43.0


From 6907ed52e8766fc78eaa3d014252d6f1620e06a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:36:22 +0000
Subject: [PATCH 02/26] fix: 'disassemble --split --out' created an output
 directory without permissions

---
 commands/disassemble.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/commands/disassemble.go b/commands/disassemble.go
index 0abb04f..23742f4 100644
--- a/commands/disassemble.go
+++ b/commands/disassemble.go
@@ -130,7 +130,7 @@ func (p disassemble) separate(op *impl.Disassemble, smf *midi.SMF, file string)
 	// Write files
 	if p.out != "" {
 		dir = p.out
-		err := os.MkdirAll(dir, os.ModeDir)
+		err := os.MkdirAll(dir, 0777)
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From 4271f7ecbc034423676825125db828926a7fe283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:37:03 +0000
Subject: [PATCH 03/26] fix: notes, click and tsv ignored errors writing their
 output

---
 commands/tsv.go    |  4 +++-
 ops/click/click.go | 22 +++++++++++++++++-----
 ops/notes/notes.go | 14 +++++++-------
 3 files changed, 27 insertions(+), 13 deletions(-)

diff --git a/commands/tsv.go b/commands/tsv.go
index c272c05..68dcafb 100644
--- a/commands/tsv.go
+++ b/commands/tsv.go
@@ -180,7 +180,9 @@ func writeTable(records [][]string, w io.Writer) error {
 			row = append(row, fmt.Sprintf(formats[i], f))
 		}
 
-		fmt.Fprintf(w, "%v\n", strings.Join(row, "  "))
+		if _, err := fmt.Fprintf(w, "%v\n", strings.Join(row, "  ")); err != nil {
+			return err
+		}
 	}
 
 	return nil
diff --git a/ops/click/click.go b/ops/click/click.go
index 4ae040a..4aa2baf 100644
--- a/ops/click/click.go
+++ b/ops/click/click.go
@@ -146,9 +146,14 @@ func (x *ClickTrack) Execute(smf *midi.SMF) error {
 		return list[i].Bar < list[j].Bar
 	})
 
-	fmt.Println()
+	if _, err := fmt.Fprintln(x.Writer); err != nil {
+		return err
+	}
+
 	for _, v := range list {
-		fmt.Fprintf(x.Writer, "bar %-4v  tempo:%-3v  time-signature %v\n", v.Bar, v.Tempo, v.TimeSignature)
+		if _, err := fmt.Fprintf(x.Writer, "bar %-4v  tempo:%-3v  time-signature %v\n", v.Bar, v.Tempo, v.TimeSignature); err != nil {
+			return err
+		}
 	}
 
 	spans := []Span{}
@@ -173,11 +178,18 @@ func (x *ClickTrack) Execute(smf *midi.SMF) error {
 		}
 	}
 
-	fmt.Println()
+	if _, err := fmt.Fprintln(x.Writer); err != nil {
+		return err
+	}
+
 	for _, v := range spans {
-		fmt.Fprintf(x.Writer, "bars %-7v  tempo:%-3v  time-signature %v\n", fmt.Sprintf("%v:%v", v.Start, v.End), v.Tempo, v.TimeSignature)
+		if _, err := fmt.Fprintf(x.Writer, "bars %-7v  tempo:%-3v  time-signature %v\n", fmt.Sprintf("%v:%v", v.Start, v.End), v.Tempo, v.TimeSignature); err != nil {
+			return err
+		}
+	}
+	if _, err := fmt.Fprintln(x.Writer); err != nil {
+		return err
 	}
-	fmt.Println()
 
 	return nil
 }
diff --git a/ops/notes/notes.go b/ops/notes/notes.go
index b1f0d26..d2a78dc 100644
--- a/ops/notes/notes.go
+++ b/ops/notes/notes.go
@@ -49,13 +49,11 @@ func (x *Notes) Execute(smf *midi.SMF) error {
 		return err
 	} else {
 		if x.JSON {
-			export(notes, x.Writer)
+			return export(notes, x.Writer)
 		} else {
-			print(notes, x.Writer)
+			return print(notes, x.Writer)
 		}
 	}
-
-	return nil
 }
 
 func extract(smf *midi.SMF, transposition int) ([]Note, error) {
@@ -285,7 +283,9 @@ func print(notes []Note, w io.Writer) error {
 		end := n.End.Truncate(time.Millisecond)
 		duration := n.Duration.Truncate(time.Millisecond)
 
-		fmt.Fprintf(w, "%-4s channel:%-2d  note:%02X  velocity:%-3d  start:%-9s  end:%-9s  duration:%s\n", n.FormattedNote, n.Channel, n.Note, n.Velocity, start, end, duration)
+		if _, err := fmt.Fprintf(w, "%-4s channel:%-2d  note:%02X  velocity:%-3d  start:%-9s  end:%-9s  duration:%s\n", n.FormattedNote, n.Channel, n.Note, n.Velocity, start, end, duration); err != nil {
+			return err
+		}
 	}
 
 	return nil
@@ -324,8 +324,8 @@ func export(notes []Note, w io.Writer) error {
 
 	if bytes, err := json.MarshalIndent(object, "", "  "); err != nil {
 		return err
-	} else {
-		w.Write(bytes)
+	} else if _, err := w.Write(bytes); err != nil {
+		return err
 	}
 
 	return nil
-- 
2.43.0


From 6804a2f4faed82b881413680d4e0f5daee91c053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:37:04 +0000
Subject: [PATCH 04/26] fix: notes left sounding at the end of a track were
 listed in random order

---
 ops/notes/notes.go | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/ops/notes/notes.go b/ops/notes/notes.go
index d2a78dc..b6115db 100644
--- a/ops/notes/notes.go
+++ b/ops/notes/notes.go
@@ -230,7 +230,8 @@ func buildNoteList(events []event, transposition int) ([]Note, error) {
 			for i := 0; i < 16; i++ {
 				list := pending[lib.Channel(i)]
 				if len(list) > 0 {
-					for k, p := range list {
+					for _, k := range sorted(list) {
+						p := list[k]
 						warnf("EndOfTrack automatically ending note (channel:%v, note:%02X, tick:%v, at:%v)", i, k, p.tick, p.at)
 						on := p.event.(midievent.NoteOn)
 
@@ -256,7 +257,8 @@ func buildNoteList(events []event, transposition int) ([]Note, error) {
 	for i := 0; i < 16; i++ {
 		list := pending[lib.Channel(i)]
 		if len(list) > 0 {
-			for k, n := range list {
+			for _, k := range sorted(list) {
+				n := list[k]
 				warnf("Incomplete note (channel:%v, note:%02X, tick:%v, at:%v)", i, k, n.tick, n.at)
 			}
 		}
@@ -265,6 +267,17 @@ func buildNoteList(events []event, transposition int) ([]Note, error) {
 	return notes, nil
 }
 
+func sorted(pending map[uint8]event) []uint8 {
+	list := []uint8{}
+	for k := range pending {
+		list = append(list, k)
+	}
+
+	sort.Slice(list, func(i, j int) bool { return list[i] < list[j] })
+
+	return list
+}
+
 func transpose(note uint8, transpose int) uint8 {
 	v := int(note) + transpose
 
-- 
2.43.0


From 3ba734b25b9a91f7aa562b6a541243c4f912f182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:37:06 +0000
Subject: [PATCH 05/26] fix: LoadTemplates applied templates in random order
 and kept some of them when one failed to parse

---
 ops/disassemble/disassemble.go | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/ops/disassemble/disassemble.go b/ops/disassemble/disassemble.go
index 687a2e2..c385070 100644
--- a/ops/disassemble/disassemble.go
+++ b/ops/disassemble/disassemble.go
@@ -6,6 +6,7 @@ import (
 	"fmt"
 	"io"
 	"io/ioutil"
+	"sort"
 	"strings"
 	"text/template"
 
@@ -53,12 +54,26 @@ func (p *Disassemble) LoadTemplates(r io.Reader) error {
 		return err
 	}
 
-	for name, t := range templates.Templates {
-		if _, err = p.root.New(name).Parse(t); err != nil {
+	names := []string{}
+	for name := range templates.Templates {
+		names = append(names, name)
+	}
+
+	sort.Strings(names)
+
+	root, err := p.root.Clone()
+	if err != nil {
+		return err
+	}
+
+	for _, name := range names {
+		if _, err = root.New(name).Parse(templates.Templates[name]); err != nil {
 			return err
 		}
 	}
 
+	p.root = root
+
 	return nil
 }
 
-- 
2.43.0


From 80c14f5c6bd8326bae754de37ca1f0858447b64f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:38:10 +0000
Subject: [PATCH 06/26] fix: transposing a MIDI file modified the caller's SMF
 (tracks, track contexts)

---
 ops/transpose/transpose.go | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/ops/transpose/transpose.go b/ops/transpose/transpose.go
index f359f1b..0eed763 100644
--- a/ops/transpose/transpose.go
+++ b/ops/transpose/transpose.go
@@ -5,6 +5,7 @@ import (
 
 	"github.com/transcriptaze/midiasm/encoding/midi"
 	"github.com/transcriptaze/midiasm/midi"
+	"github.com/transcriptaze/midiasm/midi/context"
 	"github.com/transcriptaze/midiasm/midi/events"
 	"github.com/transcriptaze/midiasm/midi/events/meta"
 	"github.com/transcriptaze/midiasm/midi/events/midi"
@@ -14,15 +15,17 @@ type Transpose struct {
 }
 
 func (t *Transpose) Execute(smf *midi.SMF, steps int) ([]byte, error) {
+	transposed := *smf
+	transposed.Tracks = make([]*midi.MTrk, len(smf.Tracks))
+
 	for i, mtrk := range smf.Tracks {
-		transposed := transpose(*mtrk, steps)
-		smf.Tracks[i] = transposed
+		transposed.Tracks[i] = transpose(*mtrk, steps)
 	}
 
 	var b bytes.Buffer
 	var e = midifile.NewEncoder(&b)
 
-	if err := e.Encode(*smf); err != nil {
+	if err := e.Encode(transposed); err != nil {
 		return nil, err
 	} else {
 		return b.Bytes(), nil
@@ -30,6 +33,12 @@ func (t *Transpose) Execute(smf *midi.SMF, steps int) ([]byte, error) {
 }
 
 func transpose(mtrk midi.MTrk, steps int) *midi.MTrk {
+	// ... transposing a key signature switches the context between sharps and flats
+	ctx := context.NewContext()
+	if mtrk.Context != nil {
+		*ctx = *mtrk.Context
+	}
+
 	track := midi.MTrk{
 		Tag:         "MTrk",
 		TrackNumber: mtrk.TrackNumber,
@@ -42,19 +51,19 @@ func transpose(mtrk midi.MTrk, steps int) *midi.MTrk {
 		case *metaevent.KeySignature:
 		case metaevent.KeySignature:
 			track.Events = append(track.Events, &events.Event{
-				Event: v.Transpose(mtrk.Context, steps),
+				Event: v.Transpose(ctx, steps),
 			})
 
 		case *midievent.NoteOn:
 		case midievent.NoteOn:
 			track.Events = append(track.Events, &events.Event{
-				Event: v.Transpose(mtrk.Context, steps),
+				Event: v.Transpose(ctx, steps),
 			})
 
 		case *midievent.NoteOff:
 		case midievent.NoteOff:
 			track.Events = append(track.Events, &events.Event{
-				Event: v.Transpose(mtrk.Context, steps),
+				Event: v.Transpose(ctx, steps),
 			})
 
 		default:
-- 
2.43.0


From fff941ca6fb9033c9294d3c18598b346001cc967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:38:39 +0000
Subject: [PATCH 07/26] fix: pitch bend values of 128 and up were encoded as 8
 bit rather than 7 bit data bytes

---
 midi/events/midi/pitch_bend.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/midi/events/midi/pitch_bend.go b/midi/events/midi/pitch_bend.go
index 4cd3ac5..e3ba0b4 100644
--- a/midi/events/midi/pitch_bend.go
+++ b/midi/events/midi/pitch_bend.go
@@ -58,8 +58,8 @@ func (e *PitchBend) unmarshal(tick uint64, delta uint32, status lib.Status, data
 func (b PitchBend) MarshalBinary() (encoded []byte, err error) {
 	encoded = []byte{
 		byte(0xe0 | b.Channel),
-		byte(b.Bend >> 8 & 0x00ff),
-		byte(b.Bend >> 0 & 0x00ff),
+		byte(b.Bend >> 7 & 0x007f),
+		byte(b.Bend >> 0 & 0x007f),
 	}
 
 	return
-- 
2.43.0


From 6a1b17e2a64b86ee2bec1e7c34bd62fed330480e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:39:39 +0000
Subject: [PATCH 08/26] fix: decoding panicked on events with invalid data or a
 data length beyond the end of the event

---
 midi/MTrk.go                  | 11 +++++++++--
 midi/events/meta/metaevent.go |  2 ++
 midi/events/midi/midievent.go |  2 ++
 midi/events/sysex/sysex.go    |  2 ++
 4 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/midi/MTrk.go b/midi/MTrk.go
index 869730a..afcae18 100644
--- a/midi/MTrk.go
+++ b/midi/MTrk.go
@@ -136,8 +136,11 @@ func parse(r *bufio.Reader, tick uint32, ctx *context.Context) (*events.Event, e
 		}
 
 		e, err := metaevent.Parse(uint64(tick)+uint64(delta), rr.Bytes()...)
+		if err != nil {
+			return nil, err
+		}
 
-		return events.NewEvent(e), err
+		return events.NewEvent(e), nil
 	}
 
 	// ... SysEx event
@@ -185,7 +188,11 @@ func parse(r *bufio.Reader, tick uint32, ctx *context.Context) (*events.Event, e
 
 	e, err := midievent.Parse(uint64(tick)+uint64(delta), ctx.RunningStatus, rr.Bytes()...)
 
+	if err != nil {
+		return nil, err
+	}
+
 	ctx.RunningStatus = status
 
-	return events.NewEvent(e), err
+	return events.NewEvent(e), nil
 }
diff --git a/midi/events/meta/metaevent.go b/midi/events/meta/metaevent.go
index 6326ea4..6ac8c08 100644
--- a/midi/events/meta/metaevent.go
+++ b/midi/events/meta/metaevent.go
@@ -181,6 +181,8 @@ func vlq(bytes []byte) (uint32, []byte, error) {
 func vlf(bytes []byte) ([]byte, error) {
 	if N, remaining, err := vlq(bytes); err != nil {
 		return nil, err
+	} else if uint64(N) > uint64(len(remaining)) {
+		return nil, fmt.Errorf("Invalid event data length (%d): expected at most %d", N, len(remaining))
 	} else {
 		return remaining[:N], nil
 	}
diff --git a/midi/events/midi/midievent.go b/midi/events/midi/midievent.go
index a741740..b061c68 100644
--- a/midi/events/midi/midievent.go
+++ b/midi/events/midi/midievent.go
@@ -137,6 +137,8 @@ func vlq(bytes []byte) (uint32, []byte, error) {
 func vlf(bytes []byte) ([]byte, error) {
 	if N, remaining, err := vlq(bytes); err != nil {
 		return nil, err
+	} else if uint64(N) > uint64(len(remaining)) {
+		return nil, fmt.Errorf("Invalid event data length (%d): expected at most %d", N, len(remaining))
 	} else {
 		return remaining[:N], nil
 	}
diff --git a/midi/events/sysex/sysex.go b/midi/events/sysex/sysex.go
index 48b2432..57794df 100644
--- a/midi/events/sysex/sysex.go
+++ b/midi/events/sysex/sysex.go
@@ -125,6 +125,8 @@ func vlq(bytes []byte) (uint32, []byte, error) {
 func vlf(bytes []byte) ([]byte, error) {
 	if N, remaining, err := vlq(bytes); err != nil {
 		return nil, err
+	} else if uint64(N) > uint64(len(remaining)) {
+		return nil, fmt.Errorf("Invalid event data length (%d): expected at most %d", N, len(remaining))
 	} else {
 		return remaining[:N], nil
 	}
-- 
2.43.0


From d574378a327f67b5d61df0c6f3af24c0aee7659f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:39:48 +0000
Subject: [PATCH 09/26] fix: corrupt SysEx, sequencer specific, pressure, key
 signature, SMPTE offset and note events panicked instead of returning an
 error

---
 midi/events/meta/key_signature.go       |  6 ++++++
 midi/events/meta/sequence_number.go     |  2 ++
 midi/events/meta/sequencer_specific.go  |  6 +++++-
 midi/events/meta/smpte_offset.go        | 20 ++++++++++++++++++++
 midi/events/midi/channel_pressure.go    |  2 ++
 midi/events/midi/note_on.go             |  2 ++
 midi/events/midi/polyphonic_pressure.go |  6 ++++++
 midi/events/sysex/message.go            |  6 ++++--
 8 files changed, 47 insertions(+), 3 deletions(-)

diff --git a/midi/events/meta/key_signature.go b/midi/events/meta/key_signature.go
index 8cac694..4388056 100644
--- a/midi/events/meta/key_signature.go
+++ b/midi/events/meta/key_signature.go
@@ -212,6 +212,12 @@ func (e *KeySignature) UnmarshalJSON(bytes []byte) error {
 		return err
 	} else if !equal(t.Tag, lib.TagKeySignature) {
 		return fmt.Errorf("invalid %v event (%v)", e.tag, string(bytes))
+	} else if t.KeyType != lib.Major && t.KeyType != lib.Minor {
+		return fmt.Errorf("Invalid KeySignature key type (%d): expected a value in the interval [0..1]", uint8(t.KeyType))
+	} else if _, ok := lib.MajorScale(t.Accidentals); t.KeyType == lib.Major && !ok {
+		return fmt.Errorf("Invalid major key signature (%d accidentals)", t.Accidentals)
+	} else if _, ok := lib.MinorScale(t.Accidentals); t.KeyType == lib.Minor && !ok {
+		return fmt.Errorf("Invalid minor key signature (%d accidentals)", t.Accidentals)
 	} else {
 		*e = MakeKeySignature(0, t.Delta, t.Accidentals, t.KeyType, []byte{}...)
 	}
diff --git a/midi/events/meta/sequence_number.go b/midi/events/meta/sequence_number.go
index 3b26242..8c3691e 100644
--- a/midi/events/meta/sequence_number.go
+++ b/midi/events/meta/sequence_number.go
@@ -63,6 +63,8 @@ func (e *SequenceNumber) UnmarshalBinary(bytes []byte) error {
 		return fmt.Errorf("Invalid %v event type (%02X)", lib.TagSequenceNumber, remaining[1])
 	} else if v, err := vlf(remaining[2:]); err != nil {
 		return err
+	} else if len(v) < 2 {
+		return fmt.Errorf("Invalid SequenceNumber data")
 	} else {
 		*e = MakeSequenceNumber(0, delta, binary.BigEndian.Uint16(v), bytes...)
 	}
diff --git a/midi/events/meta/sequencer_specific.go b/midi/events/meta/sequencer_specific.go
index d052294..d187d4a 100644
--- a/midi/events/meta/sequencer_specific.go
+++ b/midi/events/meta/sequencer_specific.go
@@ -31,6 +31,10 @@ func MakeSequencerSpecificEvent(tick uint64, delta lib.Delta, manufacturer lib.M
 }
 
 func (e *SequencerSpecificEvent) unmarshal(tick uint64, delta lib.Delta, status byte, data []byte, bytes ...byte) error {
+	if len(data) < 1 || (data[0] == 0x00 && len(data) < 3) {
+		return fmt.Errorf("Invalid SequencerSpecificEvent length (%d): expected manufacturer ID", len(data))
+	}
+
 	id := data[0:1]
 	d := data[1:]
 
@@ -68,7 +72,7 @@ func (e *SequencerSpecificEvent) UnmarshalBinary(bytes []byte) error {
 		return fmt.Errorf("Invalid %v event type (%02X)", lib.TagSequencerSpecificEvent, remaining[1])
 	} else if data, err := vlf(remaining[2:]); err != nil {
 		return err
-	} else if len(data) < 2 {
+	} else if len(data) < 2 || (data[0] == 0x00 && len(data) < 3) {
 		return fmt.Errorf("Invalid SequencerSpecificEvent channel data")
 	} else {
 		id := data[0:1]
diff --git a/midi/events/meta/smpte_offset.go b/midi/events/meta/smpte_offset.go
index cf02b93..1da6f70 100644
--- a/midi/events/meta/smpte_offset.go
+++ b/midi/events/meta/smpte_offset.go
@@ -224,8 +224,16 @@ func (e *SMPTEOffset) UnmarshalText(text []byte) error {
 		return err
 	} else if fractions, err := strconv.ParseUint(match[7], 10, 8); err != nil {
 		return err
+	} else if hour > 24 {
+		return fmt.Errorf("Invalid SMPTE offset hour (%d): expected a value in the interval [0..24]", hour)
+	} else if minute > 59 {
+		return fmt.Errorf("Invalid SMPTE offset minute (%d): expected a value in the interval [0..59]", minute)
+	} else if second > 59 {
+		return fmt.Errorf("Invalid SMPTE offset second (%d): expected a value in the interval [0..59]", second)
 	} else if frameRate != 24 && frameRate != 25 && frameRate != 29 && frameRate != 30 {
 		return fmt.Errorf("Invalid SMPTE offset frame rate (%02X): expected a value in the set [24,25,29,30]", frameRate)
+	} else if frames >= frameRate {
+		return fmt.Errorf("Invalid SMPTE offset frames (%d): expected a value in the interval [0..%d]", frames, frameRate-1)
 	} else if fractions > 100 {
 		return fmt.Errorf("Invalid SMPTE offset fractional frames (%d): expected a value in the interval [0..100", fractions)
 	} else {
@@ -279,6 +287,18 @@ func (e *SMPTEOffset) UnmarshalJSON(bytes []byte) error {
 		return err
 	} else if t.Tag != fmt.Sprintf("%v", lib.TagSMPTEOffset) {
 		return fmt.Errorf("invalid %v event (%v)", e.tag, string(bytes))
+	} else if t.Hour > 24 {
+		return fmt.Errorf("Invalid SMPTE offset hour (%d): expected a value in the interval [0..24]", t.Hour)
+	} else if t.Minute > 59 {
+		return fmt.Errorf("Invalid SMPTE offset minute (%d): expected a value in the interval [0..59]", t.Minute)
+	} else if t.Second > 59 {
+		return fmt.Errorf("Invalid SMPTE offset second (%d): expected a value in the interval [0..59]", t.Second)
+	} else if t.FrameRate != 24 && t.FrameRate != 25 && t.FrameRate != 29 && t.FrameRate != 30 {
+		return fmt.Errorf("Invalid SMPTE offset frame rate (%02X): expected a value in the set [24,25,29,30]", t.FrameRate)
+	} else if t.Frames >= t.FrameRate {
+		return fmt.Errorf("Invalid SMPTE offset frames (%d): expected a value in the interval [0..%d]", t.Frames, t.FrameRate-1)
+	} else if t.FractionalFrames > 100 {
+		return fmt.Errorf("Invalid SMPTE offset fractional frames (%d): expected a value in the interval [0..100]", t.FractionalFrames)
 	} else {
 		*e = MakeSMPTEOffset(0, t.Delta, t.Hour, t.Minute, t.Second, t.FrameRate, t.Frames, t.FractionalFrames, []byte{}...)
 	}
diff --git a/midi/events/midi/channel_pressure.go b/midi/events/midi/channel_pressure.go
index f2ed3af..02df880 100644
--- a/midi/events/midi/channel_pressure.go
+++ b/midi/events/midi/channel_pressure.go
@@ -140,6 +140,8 @@ func (e *ChannelPressure) UnmarshalJSON(bytes []byte) error {
 		return err
 	} else if !equal(t.Tag, lib.TagChannelPressure) {
 		return fmt.Errorf("invalid %v event (%v)", e.tag, string(bytes))
+	} else if t.Pressure > 127 {
+		return fmt.Errorf("invalid ChannelPressure pressure (%v)", t.Pressure)
 	} else {
 		*e = MakeChannelPressure(0, uint32(t.Delta), t.Channel, t.Pressure, []byte{}...)
 	}
diff --git a/midi/events/midi/note_on.go b/midi/events/midi/note_on.go
index 7d1a3d7..9cb5772 100644
--- a/midi/events/midi/note_on.go
+++ b/midi/events/midi/note_on.go
@@ -160,6 +160,8 @@ func (e *NoteOn) UnmarshalJSON(bytes []byte) error {
 		return err
 	} else if !equal(t.Tag, lib.TagNoteOn) {
 		return fmt.Errorf("invalid %v event (%v)", e.tag, string(bytes))
+	} else if t.Velocity > 127 {
+		return fmt.Errorf("invalid NoteOn velocity (%v)", t.Velocity)
 	} else {
 		note := Note{
 			Value: t.Note.Value,
diff --git a/midi/events/midi/polyphonic_pressure.go b/midi/events/midi/polyphonic_pressure.go
index 271136f..b9930cd 100644
--- a/midi/events/midi/polyphonic_pressure.go
+++ b/midi/events/midi/polyphonic_pressure.go
@@ -48,6 +48,10 @@ func (e *PolyphonicPressure) unmarshal(tick uint64, delta uint32, status lib.Sta
 	var channel = lib.Channel(status & 0x0f)
 	var pressure = data[0]
 
+	if pressure > 127 {
+		return fmt.Errorf("invalid pressure (%v)", pressure)
+	}
+
 	*e = MakePolyphonicPressure(tick, delta, channel, pressure, bytes...)
 
 	return nil
@@ -132,6 +136,8 @@ func (e *PolyphonicPressure) UnmarshalJSON(bytes []byte) error {
 		return err
 	} else if !equal(t.Tag, lib.TagPolyphonicPressure) {
 		return fmt.Errorf("invalid %v event (%v)", e.tag, string(bytes))
+	} else if t.Pressure > 127 {
+		return fmt.Errorf("invalid PolyphonicPressure pressure (%v)", t.Pressure)
 	} else {
 		*e = MakePolyphonicPressure(0, uint32(t.Delta), t.Channel, t.Pressure, []byte{}...)
 	}
diff --git a/midi/events/sysex/message.go b/midi/events/sysex/message.go
index fff7472..bc14f1b 100644
--- a/midi/events/sysex/message.go
+++ b/midi/events/sysex/message.go
@@ -50,8 +50,8 @@ func (e *SysExMessage) unmarshal(tick uint64, delta uint32, status lib.Status, d
 		return fmt.Errorf("Invalid SysExMessage event type (%02x): expected 'F0'", status)
 	}
 
-	if len(data) == 0 {
-		return fmt.Errorf("Invalid SysExMessage event data (0 bytes")
+	if len(data) < 2 {
+		return fmt.Errorf("Invalid SysExMessage event data (%d bytes)", len(data))
 	}
 
 	id := data[0:1]
@@ -98,6 +98,8 @@ func (e *SysExMessage) UnmarshalBinary(bytes []byte) error {
 		return fmt.Errorf("Invalid %v event type (%02X)", lib.TagSysExMessage, remaining[0])
 	} else if data, err := vlf(remaining[1:]); err != nil {
 		return err
+	} else if len(data) < 2 {
+		return fmt.Errorf("Invalid SysExMessage event data (%d bytes)", len(data))
 	} else {
 		id := data[0:1]
 		manufacturer := lib.LookupManufacturer(id)
-- 
2.43.0


From 516aad7c00bc27349fd8e118bcd56f686dd0933b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:40:42 +0000
Subject: [PATCH 10/26] fix: assembling a text file with an invalid event left
 a goroutine blocked forever

---
 ops/assemble/text.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ops/assemble/text.go b/ops/assemble/text.go
index 5d39a0e..e308006 100644
--- a/ops/assemble/text.go
+++ b/ops/assemble/text.go
@@ -180,15 +180,15 @@ func (a TextAssembler) parseMTrk(chunk []string) (*midi.MTrk, error) {
 	}()
 
 	go func() {
+		defer close(lines)
+
 		for _, line := range chunk {
 			select {
 			case lines <- line:
 			case <-closed:
-				break
+				return
 			}
 		}
-
-		close(lines)
 	}()
 
 	// ... make MTrk
-- 
2.43.0


From 860bf8f196b54084670b7b4cb492be02a9061761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:41:00 +0000
Subject: [PATCH 11/26] fix: comments and event text mentioning MThd, MTrk or
 another event were mistaken for chunk headers and events when assembling a
 text file

---
 midi/events/text.go  | 20 ++++++++++++++++++--
 ops/assemble/text.go | 27 +++++++++++++++------------
 2 files changed, 33 insertions(+), 14 deletions(-)

diff --git a/midi/events/text.go b/midi/events/text.go
index 2a9b639..cec01e4 100644
--- a/midi/events/text.go
+++ b/midi/events/text.go
@@ -8,10 +8,11 @@ import (
 	"github.com/transcriptaze/midiasm/midi/events/meta"
 	"github.com/transcriptaze/midiasm/midi/events/midi"
 	"github.com/transcriptaze/midiasm/midi/events/sysex"
+	"github.com/transcriptaze/midiasm/midi/lib"
 )
 
 func (e *Event) UnmarshalText(text []byte) error {
-	s := string(text)
+	s := tag(string(text))
 
 	switch {
 	case strings.Contains(s, "SequenceNumber"):
@@ -99,10 +100,25 @@ func (e *Event) UnmarshalText(text []byte) error {
 		return unmarshalText[sysex.SysExEscapeMessage](e, text)
 
 	default:
-		return fmt.Errorf("Unrecognised event (%v)", s)
+		return fmt.Errorf("Unrecognised event (%v)", string(text))
 	}
 }
 
+// Returns the event tag in a line i.e. the first one, anything after that is event data.
+func tag(line string) string {
+	first := len(line)
+	s := ""
+
+	for t := lib.TagSequenceNumber; t <= lib.TagSysExMessage; t++ {
+		if ix := strings.Index(line, t.String()); ix >= 0 && ix < first {
+			first = ix
+			s = t.String()
+		}
+	}
+
+	return s
+}
+
 func unmarshalText[
 	E TEvent,
 	P interface {
diff --git a/ops/assemble/text.go b/ops/assemble/text.go
index e308006..ad67684 100644
--- a/ops/assemble/text.go
+++ b/ops/assemble/text.go
@@ -34,10 +34,7 @@ func (a TextAssembler) Assemble(r io.Reader) ([]byte, error) {
 	for _, chunk := range chunks {
 		for _, line := range chunk {
 			switch {
-			case strings.HasPrefix(line, "%%"):
-				// comment - ignore
-
-			case strings.Contains(line, "MThd"):
+			case isHeader(line, "MThd"):
 				if mthd, err := a.parseMThd(chunk); err != nil {
 					return nil, err
 				} else {
@@ -46,8 +43,10 @@ func (a TextAssembler) Assemble(r io.Reader) ([]byte, error) {
 
 				break
 
-			case strings.Contains(line, "MTrk"):
-				if mtrk, err := a.parseMTrk(chunk); err != nil {
+			case isHeader(line, "MTrk"):
+				if smf.MThd == nil {
+					return nil, fmt.Errorf("missing MThd")
+				} else if mtrk, err := a.parseMTrk(chunk); err != nil {
 					return nil, err
 				} else {
 					mtrk.TrackNumber = lib.TrackNumber(len(smf.Tracks))
@@ -101,8 +100,6 @@ func (a TextAssembler) scan(scanner *bufio.Scanner, lines chan string) {
 }
 
 func (a TextAssembler) chunkify(lines chan string, chunks chan []string) {
-	tags := regexp.MustCompile("(MThd)|(MTrk)")
-
 	clone := func(slice []string) []string {
 		chunk := make([]string, len(slice))
 		copy(chunk, slice)
@@ -111,14 +108,14 @@ func (a TextAssembler) chunkify(lines chan string, chunks chan []string) {
 
 	var chunk []string
 	for line := range lines {
-		if strings.Contains(line, "MThd") {
+		if isHeader(line, "MThd") {
 			chunk = []string{line}
 			break
 		}
 	}
 
 	for line := range lines {
-		if match := tags.FindStringSubmatch(line); match != nil {
+		if isHeader(line, "MThd") || isHeader(line, "MTrk") {
 			chunks <- clone(chunk)
 			chunk = []string{line}
 		} else {
@@ -133,9 +130,15 @@ func (a TextAssembler) chunkify(lines chan string, chunks chan []string) {
 	close(chunks)
 }
 
+// Returns true if the line is the header line of the tagged chunk i.e. neither a comment
+// nor an event that happens to mention the tag.
+func isHeader(line string, tag string) bool {
+	return strings.Contains(line, tag) && !strings.HasPrefix(line, "%%") && !strings.Contains(line, "delta:")
+}
+
 func (a TextAssembler) parseMThd(chunk []string) (*midi.MThd, error) {
 	for _, line := range chunk {
-		if strings.Contains(line, "MThd") {
+		if isHeader(line, "MThd") {
 			var format uint16
 			var division uint16
 
@@ -195,7 +198,7 @@ func (a TextAssembler) parseMTrk(chunk []string) (*midi.MTrk, error) {
 	var mtrk *midi.MTrk
 
 	for line := range lines {
-		if strings.Contains(line, "MTrk") {
+		if isHeader(line, "MTrk") {
 			if v, err := midi.NewMTrk(); err != nil {
 				return nil, err
 			} else {
-- 
2.43.0


From 20b01f8060f73f1a3e381324d0ee2ec7cc97cbf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:41:09 +0000
Subject: [PATCH 12/26] fix: assembling an empty track, a time signature
 denominator above 128 or an invalid JSON header panicked, hung or reported a
 memory address

---
 midi/events/meta/time_signature.go | 11 ++---------
 ops/assemble/assemble.go           |  4 ++++
 ops/assemble/json.go               |  2 +-
 3 files changed, 7 insertions(+), 10 deletions(-)

diff --git a/midi/events/meta/time_signature.go b/midi/events/meta/time_signature.go
index 5d271e5..73de1b2 100644
--- a/midi/events/meta/time_signature.go
+++ b/midi/events/meta/time_signature.go
@@ -18,13 +18,6 @@ type TimeSignature struct {
 }
 
 func MakeTimeSignature(tick uint64, delta lib.Delta, numerator, denominator, ticksPerClick, thirtySecondsPerQuarter uint8, bytes ...byte) TimeSignature {
-	d := 0
-	dd := uint8(1)
-	for dd < denominator {
-		dd *= 2
-		d += 1
-	}
-
 	return TimeSignature{
 		event: event{
 			tick:   tick,
@@ -66,8 +59,8 @@ func (t TimeSignature) String() string {
 
 func (t TimeSignature) MarshalBinary() (encoded []byte, err error) {
 	d := 0
-	denominator := uint8(1)
-	for denominator < t.Denominator {
+	denominator := uint16(1)
+	for denominator < uint16(t.Denominator) {
 		denominator *= 2
 		d += 1
 	}
diff --git a/ops/assemble/assemble.go b/ops/assemble/assemble.go
index 01275c3..2270079 100644
--- a/ops/assemble/assemble.go
+++ b/ops/assemble/assemble.go
@@ -12,6 +12,10 @@ type Assembler interface {
 }
 
 func fixups(mtrk *midi.MTrk) (*midi.MTrk, error) {
+	if len(mtrk.Events) == 0 {
+		return mtrk, nil
+	}
+
 	for ix := range mtrk.Events[1:] {
 		previous := mtrk.Events[ix]
 		event := mtrk.Events[ix+1]
diff --git a/ops/assemble/json.go b/ops/assemble/json.go
index 007086f..3aa85b0 100644
--- a/ops/assemble/json.go
+++ b/ops/assemble/json.go
@@ -83,7 +83,7 @@ func (a JSONAssembler) parseMThd(h mthd) (*midi.MThd, error) {
 	} else if h.Format == nil {
 		return nil, fmt.Errorf("missing or invalid 'format' field in header")
 	} else if *h.Format != 0 && *h.Format != 1 && *h.Format != 2 {
-		return nil, fmt.Errorf("invalid 'format' (%v) in header", h.Format)
+		return nil, fmt.Errorf("invalid 'format' (%v) in header", *h.Format)
 	} else {
 		format = *h.Format
 	}
-- 
2.43.0


From 75bbbf3b981bbddc650ed3c88e814e3e3c9f69e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:41:36 +0000
Subject: [PATCH 13/26] fix: validate, notes and click panicked on MIDI files
 without tracks or with a zero or SMPTE division

---
 midi/smf.go        | 6 +++++-
 ops/click/click.go | 4 ++++
 ops/notes/notes.go | 8 ++++++++
 3 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/midi/smf.go b/midi/smf.go
index d1d7a09..f02c318 100644
--- a/midi/smf.go
+++ b/midi/smf.go
@@ -98,7 +98,11 @@ func (smf *SMF) validateFormat1() []ValidationError {
 		}
 	}
 
-	for _, track := range smf.Tracks[1:] {
+	for i, track := range smf.Tracks {
+		if i == 0 {
+			continue
+		}
+
 		for _, e := range track.Events {
 			if !events.IsTrack1Event(e) {
 				errors = append(errors, ValidationError(fmt.Errorf("Track %d: unexpected event (%s)", track.TrackNumber, events.Clean(e))))
diff --git a/ops/click/click.go b/ops/click/click.go
index 4aa2baf..df3a09b 100644
--- a/ops/click/click.go
+++ b/ops/click/click.go
@@ -37,6 +37,10 @@ type signature struct {
 }
 
 func (x *ClickTrack) Execute(smf *midi.SMF) error {
+	if len(smf.Tracks) == 0 {
+		return fmt.Errorf("MIDI file has no tracks")
+	}
+
 	clucks := map[uint]Cluck{}
 	ppqn := uint64(smf.MThd.Division)
 	tempoMap := make([]*events.Event, 0)
diff --git a/ops/notes/notes.go b/ops/notes/notes.go
index b6115db..3e7c0da 100644
--- a/ops/notes/notes.go
+++ b/ops/notes/notes.go
@@ -59,6 +59,10 @@ func (x *Notes) Execute(smf *midi.SMF) error {
 func extract(smf *midi.SMF, transposition int) ([]Note, error) {
 	notes := make([]Note, 0)
 
+	if len(smf.Tracks) == 0 {
+		return notes, nil
+	}
+
 	// ... build tempo map
 	tempoMap := buildTempoMap(*smf)
 
@@ -89,6 +93,10 @@ func buildTempoMap(smf midi.SMF) []events.Event {
 }
 
 func buildTrackEvents(track midi.MTrk, tempoMap []events.Event, ppqn uint16) ([]event, error) {
+	if ppqn == 0 {
+		return nil, fmt.Errorf("unsupported MThd division: expected metrical time (PPQN)")
+	}
+
 	ctx := context.NewContext()
 
 	// ... build event list
-- 
2.43.0


From 662ff1f9fd98d729ad5e508bf9e2b7c5ba6ff430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:41:56 +0000
Subject: [PATCH 14/26] fix: a corrupt chunk or event length allocated up to
 4GB of memory

---
 encoding/midi/decoder.go | 10 +++++++---
 midi/events/event.go     |  4 ++--
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/encoding/midi/decoder.go b/encoding/midi/decoder.go
index 8dad338..b77dda2 100644
--- a/encoding/midi/decoder.go
+++ b/encoding/midi/decoder.go
@@ -1,6 +1,7 @@
 package midifile
 
 import (
+	"bytes"
 	"encoding/binary"
 	"errors"
 	"fmt"
@@ -87,12 +88,15 @@ func (r *chunker) next() ([]byte, error) {
 		return nil, err
 	}
 
+	// ... reads at most N bytes rather than preallocating because a corrupt chunk can have any length
 	N := binary.BigEndian.Uint32(buffer[4:])
-	chunk := make([]byte, N)
+	chunk := bytes.NewBuffer(buffer)
 
-	if _, err := io.ReadFull(r.reader, chunk); err != nil {
+	if _, err := io.CopyN(chunk, r.reader, int64(N)); err == io.EOF {
+		return nil, io.ErrUnexpectedEOF
+	} else if err != nil {
 		return nil, err
 	}
 
-	return append(buffer, chunk...), nil
+	return chunk.Bytes(), nil
 }
diff --git a/midi/events/event.go b/midi/events/event.go
index 4186e47..0454a30 100644
--- a/midi/events/event.go
+++ b/midi/events/event.go
@@ -128,13 +128,13 @@ func VLF(r io.ByteReader) ([]byte, error) {
 		return nil, err
 	}
 
-	bytes := make([]byte, N)
+	bytes := []byte{}
 
 	for i := 0; i < int(N); i++ {
 		if b, err := r.ReadByte(); err != nil {
 			return nil, err
 		} else {
-			bytes[i] = b
+			bytes = append(bytes, b)
 		}
 	}
 
-- 
2.43.0


From 6415f5365d87e675129b9b896e7f7736c08eb936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:42:06 +0000
Subject: [PATCH 15/26] fix: manufacturers sharing a name were looked up in
 random order, and events without bytes panicked when disassembled

---
 midi/lib/manufacturer.go       | 12 +++++++++---
 ops/disassemble/disassemble.go |  3 +--
 2 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/midi/lib/manufacturer.go b/midi/lib/manufacturer.go
index f89c662..7674f7a 100644
--- a/midi/lib/manufacturer.go
+++ b/midi/lib/manufacturer.go
@@ -83,12 +83,18 @@ func LookupManufacturer(id []byte) Manufacturer {
 }
 
 func FindManufacturer(s string) (Manufacturer, error) {
-	for _, m := range manufacturers {
-		if s == m.Name {
-			return m, nil
+	// ... some manufacturers have more than one ID: always picks the first one
+	key := ""
+	for k, m := range manufacturers {
+		if s == m.Name && (key == "" || len(k) < len(key) || (len(k) == len(key) && k < key)) {
+			key = k
 		}
 	}
 
+	if m, ok := manufacturers[key]; ok {
+		return m, nil
+	}
+
 	return Manufacturer{}, fmt.Errorf("Unrecognised manufacturer %q", s)
 }
 
diff --git a/ops/disassemble/disassemble.go b/ops/disassemble/disassemble.go
index c385070..69cd799 100644
--- a/ops/disassemble/disassemble.go
+++ b/ops/disassemble/disassemble.go
@@ -111,8 +111,7 @@ func pad(width int, v any) string {
 func valign(bytes lib.Hex, w ...int) string {
 	ix := 0
 
-	for {
-		b := bytes[ix]
+	for _, b := range bytes {
 		ix += 1
 
 		if b&0x80 == 0 {
-- 
2.43.0


From d268cd558c79839f7d591a8c54e7d613107ae404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:16:11 +0000
Subject: [PATCH 16/26] fix: texts and sequencer specific data of 128 bytes or
 more were encoded with a one byte length

---
 midi/events/meta/copyright.go          | 7 +------
 midi/events/meta/cue_point.go          | 7 +------
 midi/events/meta/device_name.go        | 7 +------
 midi/events/meta/instrument_name.go    | 7 +------
 midi/events/meta/lyric.go              | 7 +------
 midi/events/meta/marker.go             | 7 +------
 midi/events/meta/metaevent.go          | 8 ++++++++
 midi/events/meta/program_name.go       | 7 +------
 midi/events/meta/sequencer_specific.go | 8 ++------
 midi/events/meta/text.go               | 7 +------
 10 files changed, 18 insertions(+), 54 deletions(-)

diff --git a/midi/events/meta/copyright.go b/midi/events/meta/copyright.go
index c04a9ff..9f94655 100644
--- a/midi/events/meta/copyright.go
+++ b/midi/events/meta/copyright.go
@@ -35,12 +35,7 @@ func (e *Copyright) unmarshal(tick uint64, delta lib.Delta, status byte, data []
 }
 
 func (e Copyright) MarshalBinary() (encoded []byte, err error) {
-	return append([]byte{
-		byte(e.Status),
-		byte(e.Type),
-		byte(len(e.Copyright)),
-	},
-		[]byte(e.Copyright)...), nil
+	return marshal(byte(e.Status), byte(e.Type), []byte(e.Copyright))
 }
 
 func (e *Copyright) UnmarshalBinary(bytes []byte) error {
diff --git a/midi/events/meta/cue_point.go b/midi/events/meta/cue_point.go
index 697737a..dc7b5d9 100644
--- a/midi/events/meta/cue_point.go
+++ b/midi/events/meta/cue_point.go
@@ -36,12 +36,7 @@ func (e *CuePoint) unmarshal(tick uint64, delta lib.Delta, status byte, data []b
 }
 
 func (e CuePoint) MarshalBinary() (encoded []byte, err error) {
-	return append([]byte{
-		byte(e.Status),
-		byte(e.Type),
-		byte(len(e.CuePoint)),
-	},
-		[]byte(e.CuePoint)...), nil
+	return marshal(byte(e.Status), byte(e.Type), []byte(e.CuePoint))
 }
 
 func (e *CuePoint) UnmarshalBinary(bytes []byte) error {
diff --git a/midi/events/meta/device_name.go b/midi/events/meta/device_name.go
index 7dfe32c..42d644d 100644
--- a/midi/events/meta/device_name.go
+++ b/midi/events/meta/device_name.go
@@ -36,12 +36,7 @@ func (e *DeviceName) unmarshal(tick uint64, delta lib.Delta, status byte, data [
 }
 
 func (d DeviceName) MarshalBinary() (encoded []byte, err error) {
-	return append([]byte{
-		byte(d.Status),
-		byte(d.Type),
-		byte(len(d.Name)),
-	},
-		[]byte(d.Name)...), nil
+	return marshal(byte(d.Status), byte(d.Type), []byte(d.Name))
 }
 
 func (e *DeviceName) UnmarshalBinary(bytes []byte) error {
diff --git a/midi/events/meta/instrument_name.go b/midi/events/meta/instrument_name.go
index 5f61f73..64853f0 100644
--- a/midi/events/meta/instrument_name.go
+++ b/midi/events/meta/instrument_name.go
@@ -36,12 +36,7 @@ func (e *InstrumentName) unmarshal(tick uint64, delta lib.Delta, status byte, da
 }
 
 func (e InstrumentName) MarshalBinary() (encoded []byte, err error) {
-	return append([]byte{
-		byte(e.Status),
-		byte(e.Type),
-		byte(len(e.Name)),
-	},
-		[]byte(e.Name)...), nil
+	return marshal(byte(e.Status), byte(e.Type), []byte(e.Name))
 }
 
 func (e *InstrumentName) UnmarshalBinary(bytes []byte) error {
diff --git a/midi/events/meta/lyric.go b/midi/events/meta/lyric.go
index b2b80b9..9970ceb 100644
--- a/midi/events/meta/lyric.go
+++ b/midi/events/meta/lyric.go
@@ -36,12 +36,7 @@ func (e *Lyric) unmarshal(tick uint64, delta lib.Delta, status byte, data []byte
 }
 
 func (l Lyric) MarshalBinary() (encoded []byte, err error) {
-	return append([]byte{
-		byte(l.Status),
-		byte(l.Type),
-		byte(len(l.Lyric)),
-	},
-		[]byte(l.Lyric)...), nil
+	return marshal(byte(l.Status), byte(l.Type), []byte(l.Lyric))
 }
 
 func (e *Lyric) UnmarshalBinary(bytes []byte) error {
diff --git a/midi/events/meta/marker.go b/midi/events/meta/marker.go
index 568a847..0ec42af 100644
--- a/midi/events/meta/marker.go
+++ b/midi/events/meta/marker.go
@@ -36,12 +36,7 @@ func (e *Marker) unmarshal(tick uint64, delta lib.Delta, status byte, data []byt
 }
 
 func (m Marker) MarshalBinary() (encoded []byte, err error) {
-	return append([]byte{
-		byte(m.Status),
-		byte(m.Type),
-		byte(len(m.Marker)),
-	},
-		[]byte(m.Marker)...), nil
+	return marshal(byte(m.Status), byte(m.Type), []byte(m.Marker))
 }
 
 func (e *Marker) UnmarshalBinary(bytes []byte) error {
diff --git a/midi/events/meta/metaevent.go b/midi/events/meta/metaevent.go
index 6ac8c08..01c3542 100644
--- a/midi/events/meta/metaevent.go
+++ b/midi/events/meta/metaevent.go
@@ -188,6 +188,14 @@ func vlf(bytes []byte) ([]byte, error) {
 	}
 }
 
+func marshal(status byte, eventType byte, data []byte) ([]byte, error) {
+	if v, err := lib.VLF(data).MarshalBinary(); err != nil {
+		return nil, err
+	} else {
+		return append([]byte{status, eventType}, v...), nil
+	}
+}
+
 func delta(bytes []byte) (lib.Delta, []byte, error) {
 	v, remaining, err := vlq(bytes)
 
diff --git a/midi/events/meta/program_name.go b/midi/events/meta/program_name.go
index e2fb57c..61e85a8 100644
--- a/midi/events/meta/program_name.go
+++ b/midi/events/meta/program_name.go
@@ -36,12 +36,7 @@ func (e *ProgramName) unmarshal(tick uint64, delta lib.Delta, status byte, data
 }
 
 func (e ProgramName) MarshalBinary() (encoded []byte, err error) {
-	return append([]byte{
-		byte(e.Status),
-		byte(e.Type),
-		byte(len(e.Name)),
-	},
-		[]byte(e.Name)...), nil
+	return marshal(byte(e.Status), byte(e.Type), []byte(e.Name))
 }
 
 func (e *ProgramName) UnmarshalBinary(bytes []byte) error {
diff --git a/midi/events/meta/sequencer_specific.go b/midi/events/meta/sequencer_specific.go
index d187d4a..048b5ec 100644
--- a/midi/events/meta/sequencer_specific.go
+++ b/midi/events/meta/sequencer_specific.go
@@ -48,17 +48,13 @@ func (e *SequencerSpecificEvent) unmarshal(tick uint64, delta lib.Delta, status
 	return nil
 }
 
-// FIXME encode as VLF
 func (e SequencerSpecificEvent) MarshalBinary() (encoded []byte, err error) {
-	b := []byte{
-		byte(e.Status),
-		byte(e.Type),
-		byte(len(e.Manufacturer.ID) + len(e.Data))}
+	b := []byte{}
 
 	b = append(b, e.Manufacturer.ID...)
 	b = append(b, e.Data...)
 
-	return b, nil
+	return marshal(byte(e.Status), byte(e.Type), b)
 }
 
 func (e *SequencerSpecificEvent) UnmarshalBinary(bytes []byte) error {
diff --git a/midi/events/meta/text.go b/midi/events/meta/text.go
index 05be373..84da237 100644
--- a/midi/events/meta/text.go
+++ b/midi/events/meta/text.go
@@ -37,12 +37,7 @@ func (e *Text) unmarshal(tick uint64, delta lib.Delta, status byte, data []byte,
 }
 
 func (e Text) MarshalBinary() (encoded []byte, err error) {
-	return append([]byte{
-		byte(e.Status),
-		byte(e.Type),
-		byte(len(e.Text)),
-	},
-		[]byte(e.Text)...), nil
+	return marshal(byte(e.Status), byte(e.Type), []byte(e.Text))
 }
 
 func (e *Text) UnmarshalBinary(bytes []byte) error {
-- 
2.43.0


From ae7708df6b951f57871a4b0cdf72171476b56f02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:19:05 +0000
Subject: [PATCH 17/26] fix: re-encoding a decoded SysEx continuation message
 lost its F7 terminator

---
 midi/events/sysex/continuation_message.go | 26 ++++++++---------------
 1 file changed, 9 insertions(+), 17 deletions(-)

diff --git a/midi/events/sysex/continuation_message.go b/midi/events/sysex/continuation_message.go
index 738a692..6d17bc0 100644
--- a/midi/events/sysex/continuation_message.go
+++ b/midi/events/sysex/continuation_message.go
@@ -47,16 +47,12 @@ func (e *SysExContinuationMessage) unmarshal(tick uint64, delta uint32, status l
 		return fmt.Errorf("Invalid SysExContinuationMessage event type (%02x): expected 'F7'", status)
 	}
 
-	d := data
-	if len(data) > 0 {
-		terminator := data[len(d)-1]
-		if terminator == 0xf7 {
-			d = data[:len(d)-1]
-		}
+	if N := len(data); N > 0 && data[N-1] == 0xf7 {
+		*e = MakeSysExContinuationEndMessage(tick, delta, data[:N-1], bytes...)
+	} else {
+		*e = MakeSysExContinuationMessage(tick, delta, data, bytes...)
 	}
 
-	*e = MakeSysExContinuationMessage(tick, delta, d, bytes...)
-
 	return nil
 }
 
@@ -91,16 +87,12 @@ func (e *SysExContinuationMessage) UnmarshalBinary(bytes []byte) error {
 	} else if data, err := vlf(remaining[1:]); err != nil {
 		return err
 	} else {
-		d := data
-		if len(data) > 0 {
-			terminator := data[len(d)-1]
-			if terminator == 0xf7 {
-				d = data[:len(d)-1]
-				// ctx.Casio = false
-			}
+		if N := len(data); N > 0 && data[N-1] == 0xf7 {
+			// ctx.Casio = false
+			*e = MakeSysExContinuationEndMessage(0, uint32(delta), data[:N-1], bytes...)
+		} else {
+			*e = MakeSysExContinuationMessage(0, uint32(delta), data, bytes...)
 		}
-
-		*e = MakeSysExContinuationMessage(0, uint32(delta), d, bytes...)
 	}
 
 	return nil
-- 
2.43.0


From 428b11019f81fcd1dcfd3e254d7a0e57cba3489a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:19:38 +0000
Subject: [PATCH 18/26] fix: notes below octave 0, as written by disassemble,
 were rejected by assemble

---
 midi/events/midi/note_off.go | 2 +-
 midi/events/midi/note_on.go  | 6 ++++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/midi/events/midi/note_off.go b/midi/events/midi/note_off.go
index f5d4867..aed03c5 100644
--- a/midi/events/midi/note_off.go
+++ b/midi/events/midi/note_off.go
@@ -161,7 +161,7 @@ func (n *NoteOff) UnmarshalText(bytes []byte) error {
 	n.tag = lib.TagNoteOff
 	n.Status = 0x80
 
-	re := regexp.MustCompile(`(?i)delta:([0-9]+)(?:.*?)NoteOff\s+channel:([0-9]+)\s+note:([A-G][♯♭]?[0-9]),\s*velocity:([0-9]+)`)
+	re := regexp.MustCompile(`(?i)delta:([0-9]+)(?:.*?)NoteOff\s+channel:([0-9]+)\s+note:([A-G][♯♭]?-?[0-9]),\s*velocity:([0-9]+)`)
 	text := string(bytes)
 
 	if match := re.FindStringSubmatch(text); match == nil || len(match) < 5 {
diff --git a/midi/events/midi/note_on.go b/midi/events/midi/note_on.go
index 9cb5772..cf79308 100644
--- a/midi/events/midi/note_on.go
+++ b/midi/events/midi/note_on.go
@@ -105,7 +105,7 @@ func (e *NoteOn) UnmarshalBinary(bytes []byte) error {
 }
 
 func (e *NoteOn) UnmarshalText(bytes []byte) error {
-	re := regexp.MustCompile(`(?i)delta:([0-9]+)(?:.*?)NoteOn\s+channel:([0-9]+)\s+note:([A-G][♯♭]?[0-9]),\s*velocity:([0-9]+)`)
+	re := regexp.MustCompile(`(?i)delta:([0-9]+)(?:.*?)NoteOn\s+channel:([0-9]+)\s+note:([A-G][♯♭]?-?[0-9]),\s*velocity:([0-9]+)`)
 	text := string(bytes)
 
 	if match := re.FindStringSubmatch(text); match == nil || len(match) < 5 {
@@ -235,9 +235,11 @@ func ParseNote(ctx *context.Context, s string) (Note, error) {
 		return Note{}, err
 	} else if octave, err := strconv.ParseInt(match[2], 10, 8); err != nil {
 		return Note{}, err
+	} else if v := 12*(int(octave)+1) + int(note.Ord); v < 0 || v > 127 {
+		return Note{}, fmt.Errorf("invalid note (%v)", s)
 	} else {
 		return Note{
-			Value: uint8(12*int8(octave+1) + int8(note.Ord)),
+			Value: uint8(v),
 			Name:  fmt.Sprintf("%s%d", note.Name, octave),
 			Alias: fmt.Sprintf("%s%d", note.Name, octave),
 		}, nil
-- 
2.43.0


From be797ddc5de351cd159cfe6d833193a4f97810a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:22:03 +0000
Subject: [PATCH 19/26] fix: text time signatures with certain 32nds per
 quarter (19, 29, 90..) were rejected by assemble

---
 midi/events/meta/time_signature.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/midi/events/meta/time_signature.go b/midi/events/meta/time_signature.go
index 73de1b2..a818947 100644
--- a/midi/events/meta/time_signature.go
+++ b/midi/events/meta/time_signature.go
@@ -108,7 +108,7 @@ func (e *TimeSignature) UnmarshalBinary(bytes []byte) error {
 }
 
 func (e *TimeSignature) UnmarshalText(bytes []byte) error {
-	re := regexp.MustCompile(`(?i)delta:([0-9]+)(?:.*?)TimeSignature\s+([0-9]+)/([1-9][0-9]*),\s* ([0-9]+) ticks per click,\s*([1-9][0-8]*)/32 per quarter`)
+	re := regexp.MustCompile(`(?i)delta:([0-9]+)(?:.*?)TimeSignature\s+([0-9]+)/([1-9][0-9]*),\s* ([0-9]+) ticks per click,\s*([1-9][0-9]*)/32 per quarter`)
 	text := string(bytes)
 
 	if match := re.FindStringSubmatch(text); match == nil || len(match) < 6 {
-- 
2.43.0


From 5e32d6a6e190d147db0998f2c1bf3176a507f866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:25:43 +0000
Subject: [PATCH 20/26] fix: RealTime Extensions (7F) system exclusive messages
 were re-encoded with the manufacturer ID 7E

---
 midi/lib/manufacturer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/midi/lib/manufacturer.go b/midi/lib/manufacturer.go
index 7674f7a..e042776 100644
--- a/midi/lib/manufacturer.go
+++ b/midi/lib/manufacturer.go
@@ -160,7 +160,7 @@ var manufacturers = map[string]Manufacturer{
 
 	"7D": Manufacturer{ID: []byte{0x7d}, Region: "Special Purpose", Name: "Non-Commercial"},
 	"7E": Manufacturer{ID: []byte{0x7e}, Region: "Special Purpose", Name: "Non-RealTime Extensions"},
-	"7F": Manufacturer{ID: []byte{0x7e}, Region: "Special Purpose", Name: "RealTime Extensions"},
+	"7F": Manufacturer{ID: []byte{0x7f}, Region: "Special Purpose", Name: "RealTime Extensions"},
 
 	// American
 	"01": Manufacturer{ID: []byte{0x01}, Region: "American", Name: "Sequential Circuits"},
-- 
2.43.0


From d2e54d6c34f4313de58075e4c1bd7ec11ba469ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:37 +0000
Subject: [PATCH 21/26] fix: text sources with lines longer than 64 KB could
 not be assembled

A text event, system exclusive message or other event whose line exceeds
bufio.MaxScanTokenSize, as disassemble prints it, failed to assemble.
---
 ops/assemble/text.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ops/assemble/text.go b/ops/assemble/text.go
index ad67684..b2242f5 100644
--- a/ops/assemble/text.go
+++ b/ops/assemble/text.go
@@ -5,6 +5,7 @@ import (
 	"bytes"
 	"fmt"
 	"io"
+	"math"
 	"regexp"
 	"strconv"
 	"strings"
@@ -73,6 +74,7 @@ func (a TextAssembler) Assemble(r io.Reader) ([]byte, error) {
 
 func (a TextAssembler) read(r io.Reader) ([][]string, error) {
 	scanner := bufio.NewScanner(r)
+	scanner.Buffer(nil, math.MaxInt)
 	lines := make(chan string)
 	chunks := make(chan []string)
 
-- 
2.43.0


From 3259fa3aa71b562269013562c9ca7dcb57231b32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:19:44 +0000
Subject: [PATCH 22/26] fix: assemble without --out discarded the assembled
 MIDI file and reported success

---
 commands/assemble.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/commands/assemble.go b/commands/assemble.go
index 69f00da..e1257a1 100644
--- a/commands/assemble.go
+++ b/commands/assemble.go
@@ -7,6 +7,7 @@ import (
 	"io"
 	"os"
 	"path/filepath"
+	"strings"
 
 	impl "github.com/transcriptaze/midiasm/ops/assemble"
 )
@@ -68,6 +69,12 @@ func (a assemble) Execute(flagset *flag.FlagSet) error {
 		return err
 	}
 
+	if a.out == "" {
+		if a.out = strings.TrimSuffix(filename, filepath.Ext(filename)) + ".midi"; a.out == filename {
+			return fmt.Errorf("the default output file (%v) is the input file - please use --out to specify the MIDI file", filename)
+		}
+	}
+
 	if a.out != "" {
 		if err := os.WriteFile(a.out, midi, 0660); err != nil {
 			return err
-- 
2.43.0


From a8b86131917c82cdd49a156453d8fc6827092345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:19:44 +0000
Subject: [PATCH 23/26] fix: transpose without the required --out discarded the
 transposed MIDI file and reported success

---
 commands/transpose.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/commands/transpose.go b/commands/transpose.go
index 7e9a724..08e4976 100644
--- a/commands/transpose.go
+++ b/commands/transpose.go
@@ -47,6 +47,10 @@ func (t transpose) Help() {
 func (t transpose) Execute(flagset *flag.FlagSet) error {
 	filename := flagset.Arg(0)
 
+	if t.out == "" {
+		return fmt.Errorf("missing --out file")
+	}
+
 	smf, err := decode(filename)
 	if err != nil {
 		return err
-- 
2.43.0


From 15fae7c534a8e9d4fb65f643052bff8394f42660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:06:37 +0000
Subject: [PATCH 24/26] fix: notes disassembled with --C4 were assembled an
 octave lower, or rejected

---
 midi/events/midi/note_on.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/midi/events/midi/note_on.go b/midi/events/midi/note_on.go
index cf79308..34fe0b4 100644
--- a/midi/events/midi/note_on.go
+++ b/midi/events/midi/note_on.go
@@ -229,13 +229,19 @@ func (e NoteOn) Format(ctx *context.Context) NoteOn {
 func ParseNote(ctx *context.Context, s string) (Note, error) {
 	re := regexp.MustCompile(`([A-G][♯♭]?)([-]?[0-9])`)
 
+	// ... lowest octave (see FormatNote)
+	lowest := -1
+	if context.MiddleC == lib.C4 {
+		lowest = -2
+	}
+
 	if match := re.FindStringSubmatch(s); match == nil || len(match) != 3 {
 		return Note{}, fmt.Errorf("invalid note (%v)", s)
 	} else if note, err := lib.LookupNote(match[1]); err != nil {
 		return Note{}, err
 	} else if octave, err := strconv.ParseInt(match[2], 10, 8); err != nil {
 		return Note{}, err
-	} else if v := 12*(int(octave)+1) + int(note.Ord); v < 0 || v > 127 {
+	} else if v := 12*(int(octave)-lowest) + int(note.Ord); v < 0 || v > 127 {
 		return Note{}, fmt.Errorf("invalid note (%v)", s)
 	} else {
 		return Note{
-- 
2.43.0


From 7eae827e5b764162f55e5567bf6cb51e98ee9781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:08:50 +0000
Subject: [PATCH 25/26] fix: a MIDI file with SMPTE time code was assembled
 from its JSON export with a division of 0

---
 ops/assemble/json.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/ops/assemble/json.go b/ops/assemble/json.go
index 3aa85b0..1dc046f 100644
--- a/ops/assemble/json.go
+++ b/ops/assemble/json.go
@@ -16,9 +16,10 @@ type JSONAssembler struct {
 }
 
 type mthd struct {
-	Tag    *string `json:"tag,omitempty"`
-	Format *uint16 `json:"format,omitempty"`
-	PPQN   *uint16 `json:"PPQN,omitempty"`
+	Tag      *string `json:"tag,omitempty"`
+	Format   *uint16 `json:"format,omitempty"`
+	Division *uint16 `json:"division,omitempty"`
+	PPQN     *uint16 `json:"PPQN,omitempty"`
 }
 
 type mtrk struct {
@@ -93,6 +94,11 @@ func (a JSONAssembler) parseMThd(h mthd) (*midi.MThd, error) {
 	} else {
 		division = *h.PPQN
 
+		// ... an exported SMPTE time code file has a PPQN of 0
+		if division == 0 && h.Division != nil {
+			division = *h.Division
+		}
+
 		if division&0x8000 == 0x8000 {
 			fps := division & 0xff00 >> 8
 			if fps != 0xe8 && fps != 0xe7 && fps != 0xe3 && fps != 0xe2 {
-- 
2.43.0


From 885c7ad6bd1544b1f36b3079ee7f5914e857fd5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:00:57 +0000
Subject: [PATCH 26/26] fix: delta times of 2^28 and more were encoded without
 the continuation bit of their first byte

---
 midi/lib/delta.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/midi/lib/delta.go b/midi/lib/delta.go
index 3402db5..ef8ffb6 100644
--- a/midi/lib/delta.go
+++ b/midi/lib/delta.go
@@ -52,7 +52,7 @@ func (d Delta) MarshalBinary() ([]byte, error) {
 	}
 
 	buffer[1] |= 0x80
-	buffer[0] = byte(b & 0x7f)
+	buffer[0] = 0x80 | byte(b&0x7f)
 
 	return buffer, nil
 }
-- 
2.43.0

