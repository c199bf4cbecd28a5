#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json,os
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),observe=(),hook=None):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],
        state=[dict(name=a,meaning=b,where=c) for a,b,c in state],observe_at=list(observe),hook_needed=hook)))

p("C01","Results do not depend on how the input stream is delivered",
 "Decoding a MIDI file, assembling a text or JSON source and loading formatting templates or manufacturer definitions give the same result (the same bytes and events, or an error in every case) however the reader delivers the same bytes: in one piece, a byte at a time, in arbitrary fragments, with empty reads in between, or with the last data returned together with end-of-file.",
 ["inputs","schedules","fault_sequences"],"every input, valid or not, and every division of it into read results, including (0,nil) and (n,EOF) returns",
 "the tests read from bytes.Buffer and strings.Reader, which deliver everything in one piece; the fragmentations of even a small file are exponentially many",
 ["encoding/midi/decoder.go","ops/assemble/text.go","ops/assemble/json.go","ops/disassemble/disassemble.go","midi/lib"],
 [("io.ReadFull per chunk","encoding/midi/decoder.go chunker.next"),("bufio.Scanner and the line/chunk pipeline","ops/assemble/text.go read, scan, chunkify"),("json.Decoder / ioutil.ReadAll","ops/assemble/json.go, ops/disassemble/disassemble.go LoadTemplates")],
 observe=["return values of Decode, Assemble, LoadTemplates, LoadManufacturers"])

p("C02","A read failure or premature end never passes for a complete input",
 "When reading an input fails part-way, or a MIDI file or JSON source ends before its end, the operation reports an error; it never returns, prints or writes a result that differs from the one for the complete input. On the command line the failure is reported with a non-zero exit status and a message.",
 ["inputs","fault_sequences"],"every input and every position and kind of read failure or truncation, for every command and every reader-taking library call",
 "no test injects a read error; each position in each input is a separate case",
 ["encoding/midi/decoder.go","midi/MThd.go","midi/MTrk.go","ops/assemble","ops/disassemble/disassemble.go","commands","cmd/midiasm/main.go"],
 [("ReadFull distinguishes EOF from ErrUnexpectedEOF","encoding/midi/decoder.go"),("track count check against MThd","encoding/midi/decoder.go Decode"),("scanner.Err after the pipeline drains","ops/assemble/text.go read"),("error propagation to exit status 1","cmd/midiasm/main.go")],
 observe=["exit status, stdout and stderr, output files","error return values"])

p("C03","Damaged stored bytes never crash, hang or exhaust the process",
 "Whatever bytes a MIDI file, text or JSON source, template file or manufacturer definition holds on disk (flipped bits, overwritten, lost, duplicated or garbage ranges), every command and library operation ends within a bounded number of steps and with memory in proportion to the input, either with a result or with an ordinary error: no panic, no deadlock, no runaway loop, no huge allocation from a corrupt length (output that a template explicitly asks for, such as a column a million wide, is not runaway).",
 ["inputs","fault_sequences"],"every stored file and every corruption of it, every command",
 "the tests decode a handful of well-formed files; corruption sites and values are unbounded",
 ["midi","midi/events","midi/lib","encoding/midi","ops","commands"],
 [("length and range validation while unmarshalling","midi/MThd.go, midi/MTrk.go, midi/events/**"),("errors returned through decode to main","commands/command.go, cmd/midiasm/main.go")],
 observe=["exit status and fatal messages of the process","statements executed and bytes allocated"])

p("C04","Exit status 0 means the whole output was stored",
 "When a command exits with status 0 every output it was asked for (the --out file, the default .midi file of assemble, each file of a --split disassembly, or standard output) holds exactly the bytes a fault-free run produces, and an --out file, or the files of a --split disassembly together, hold all that is printed when the output goes to standard output (tsv: in tabular form); if any create, write, close or directory operation on an output fails, or the output that transpose requires is not named, the command exits non-zero with an error message. Likewise a library call that writes to a caller's writer returns an error whenever that writer failed.",
 ["fault_sequences","inputs","configurations"],"every command and option, every input, every position and kind of output failure: disk full, I/O error, quota, failed close, closed pipe, failing directory creation, failing writer",
 "the tests write to memory buffers that never fail",
 ["commands","ops/disassemble","ops/notes","ops/click","ops/export","encoding/midi/encoder.go","cmd/midiasm/main.go"],
 [("error returns of Write, Flush and Close propagated","commands/*.go, ops/**"),("exit status","cmd/midiasm/main.go")],
 observe=["exit status","bytes on the simulated disk and on stdout"])

p("C05","Interrupted and partial system calls are invisible",
 "Interrupted system calls, short reads, short writes, an existing (longer or shorter) output file, and an output path that is the same file as the input (same name, hard link or symbolic link) do not change what a command produces: same exit status, same output bytes, nothing missing, duplicated or left over from before.",
 ["fault_sequences","schedules","configurations"],"every command, every input and every sequence of interruptions and partial transfers, every prior state of the output",
 "real kernels rarely interrupt or shorten transfers on local files, so tests never see it",
 ["commands","ops"],
 [("whole input read before the output is opened","commands/command.go, commands/*.go"),("os.Create truncates","commands/*.go"),("io.Writer contract handling","ops/**")],
 observe=["exit status, output files"])

p("C06","A failing input never damages earlier output",
 "When a command fails because its input cannot be opened, read or understood (missing, unreadable, read error, truncated or corrupt MIDI, text, JSON or template file), output files that already existed keep their exact contents and no new output file appears.",
 ["fault_sequences","inputs","configurations"],"every command, every kind and position of input failure, every prior output",
 "tests have no prior output files and no failing inputs",
 ["commands"],
 [("input decoded in full before any output is created or truncated","commands/*.go")],
 observe=["the simulated disk before and after"])

p("C07","Nothing but the named outputs is ever touched",
 "At every instant of every run, also when it is killed or a fault hits, no file or directory that existed before is modified, truncated, renamed, deleted or re-permissioned except the outputs named by the command's options (and assemble's default output), in particular not the input; after a run that ends by itself nothing exists that was not there before, other than those outputs (and the directories needed for --split).",
 ["crash_points","fault_sequences","histories","configurations"],"every command, option set, directory layout, fault sequence and crash point",
 "tests never look at the rest of the file system nor kill the process",
 ["commands"],
 [("only os.Create/os.WriteFile/os.MkdirAll on the --out path","commands/*.go")],
 observe=["every effect on the simulated disk, in order"])

p("C08","Same input, same output, under every schedule and environment",
 "The bytes a command writes to its output files and to standard output and its exit status depend only on its arguments and its input files: goroutine scheduling, map iteration order and hash seeds, the clock, the process id, the number of CPUs, the environment, the user it runs as (given the permissions it needs), the working directory, what its standard streams are connected to, --verbose/--debug (for output files) and earlier output files make no difference.",
 ["schedules","configurations","inputs"],"every command and input, every goroutine interleaving, map order and environment",
 "a test run sees one schedule and one map order; order-dependent results pass most of the time",
 ["ops/assemble/text.go","ops/notes/notes.go","ops/click/click.go","ops/disassemble/disassemble.go","midi/lib","midi/events","commands"],
 [("ordered channels in the text assembler","ops/assemble/text.go"),("sorting before printing","ops/click/click.go, ops/notes/notes.go")],
 observe=["exit status, stdout, output files"])

p("C09","Concurrent library operations do not affect one another",
 "Goroutines that decode, encode, assemble, disassemble, export, list notes or transpose at the same time, each on its own input or all on one shared decoded file, each get exactly the result the same operation gives alone in a fresh process, for every interleaving, and no two of them race on memory.",
 ["schedules","inputs"],"every set of concurrent operations and every interleaving at statement granularity",
 "no test runs two operations concurrently",
 ["encoding/midi","midi","midi/context","midi/events","midi/lib","ops","log"],
 [("per-call state only; package variables constant after initialisation","encoding/midi/decoder.go, midi/context/context.go, midi/lib, ops/**")],
 state=[("context.MiddleC, lib manufacturers, log level","process-wide configuration, written only by their setters","midi/context/context.go, midi/lib, log")],
 observe=["results of each operation; data-race reports"])

p("C10","Operations always return and leave nothing running",
 "Every library operation returns, for every schedule and for every input, including malformed input and readers or writers that fail at any point, and once it has returned no goroutine it started remains blocked or running.",
 ["schedules","inputs","fault_sequences"],"every operation, input, stream failure and interleaving",
 "a leaked or blocked goroutine does not fail a test, and a deadlock needs its schedule",
 ["ops/assemble/text.go"],
 [("channel hand-off between scan, chunkify and parse; 'closed' channel releases the producer on error","ops/assemble/text.go parseMTrk, read")],
 observe=["goroutines alive after quiescence; runtime deadlock report"])

p("C11","Operations leave the decoded file and later operations unaffected",
 "Any sequence of operations in one process (disassemble, export, encode, notes, transpose, click, validate, decode, assemble; successful or failed, on the same or different files) gives for each operation exactly the result it gives in a fresh process on a freshly decoded file; in particular an operation on a decoded file does not change that file.",
 ["histories","inputs","fault_sequences"],"every sequence of operations, including failed ones, on one or several decoded files",
 "each test runs one operation on one fresh value",
 ["ops/transpose/transpose.go","ops/disassemble/disassemble.go","ops/notes/notes.go","ops/click/click.go","ops/export/export.go","midi","midi/context"],
 [("operations copy what they change","ops/transpose/transpose.go transpose"),("a fresh context per decoded track","encoding/midi/decoder.go")],
 state=[("SMF, MTrk.Context","the decoded file and its per-track running state","midi/smf.go, midi/MTrk.go")],
 observe=["result of each operation in the history; JSON and binary image of the decoded file before and after"])

p("C12","After a crash or failure, running the command again heals everything",
 "For every history of commands in which any command may be killed at any point, lose unsynced output in a power cut, or fail on a fault, a command run again to completion without faults produces exactly the fault-free result, in its output files and exit status, and every command of the history that exited 0 produced its fault-free output: partial, torn or stale output of earlier attempts is never picked up, appended to or in the way.",
 ["crash_points","histories","fault_sequences"],"every history of commands over a shared directory (chains such as disassemble, assemble, transpose, export), every crash point, every surviving subset of unsynced writes",
 "tests never interrupt a command",
 ["commands"],
 [("outputs are opened with truncation and written from the start","commands/*.go"),("no state is kept between runs","commands/*.go")],
 observe=["simulated disk after each command; exit status"])

p("C13","Text assembly keeps every event exactly once and in order",
 "For every schedule of the text assembler's concurrent stages and every delivery of its input, the assembled MIDI file holds for each MTrk section of the source one track, in order, and in it each event line exactly once, in order, with its delta time and data, and nothing else; comment lines, blank lines and text before the MThd line contribute nothing.",
 ["schedules","inputs"],"every well-formed text source (any number of tracks, events, comments, blank lines) and every interleaving of scanner, chunker and parser goroutines",
 "tests assemble a few short sources under whatever schedule the Go runtime happens to choose",
 ["ops/assemble/text.go","ops/assemble/assemble.go","encoding/midi/encoder.go"],
 [("unbuffered channels scan -> chunkify -> read, chunk slices copied","ops/assemble/text.go"),("line producer per track","ops/assemble/text.go parseMTrk")],
 observe=["assembled bytes, parsed by an independent reference reader"])

p("C14","Failed operations have no lasting effect on their receiver",
 "A library object whose operation failed (a disassembler whose template load failed because the stream broke or a template did not parse, a decoder, assembler or encoder whose stream failed) behaves afterwards exactly like one on which that operation was never attempted.",
 ["histories","fault_sequences","inputs"],"every object, every failing operation and position of failure, every later use",
 "tests discard an object after its first error",
 ["ops/disassemble/disassemble.go","encoding/midi","ops/assemble","midi/lib"],
 [("the whole template file is read and parsed before use","ops/disassemble/disassemble.go LoadTemplates")],
 observe=["results of later operations on the same object"])

p("C15","Chains of conversions conserve the music",
 "However commands are chained, disassembling a MIDI file and assembling the text, exporting it and assembling the JSON, or transposing it, any number of times and in any order, with --C4 in none or both of disassembling and assembling, under every schedule and with any step killed, failed or hit by a power cut and then run again, the resulting MIDI file has the same format, division and tracks and in each track the same events in the same order with the same delta times and data as the first one, except that transposing by n semitones moves each note-on and note-off n semitones up (stopping at the ends of the MIDI range) and each key signature to a spelling of the key n semitones away. Files in metrical time (SMPTE time where the text form is not used) with an end-of-track in each track; known manufacturers, texts without line breaks or surrounding blanks and, for JSON, in UTF-8, system exclusive packets not interleaved with other events, at most six accidentals, no polyphonic pressure.",
 ["histories","schedules","crash_points","fault_sequences","inputs"],"every such MIDI file and every chain of conversions, every schedule, crash point and fault followed by a retry",
 "the tests convert a few hand-made events one way, in one process; they never feed one command's output to the next",
 ["ops/disassemble","ops/assemble","ops/export","ops/transpose","encoding/midi","midi","midi/events","midi/lib","commands"],
 [("binary, text and JSON forms of each event are inverse","midi/events/**"),("SysEx and end-of-track fixups","ops/assemble/assemble.go"),("running status and per-track context","encoding/midi/decoder.go, midi/events/binary.go"),("NoteOn, NoteOff and KeySignature transposition","ops/transpose/transpose.go, midi/events/**, midi/lib/scales.go")],
 observe=["the MIDI files on the simulated disk, read by an independent reader"])

p("C16","Diagnostics never change the result",
 "A command's exit status and everything it produces (its output files and, when the output goes to standard output, what it prints there) are the same with and without --verbose or --debug, and whether or not its diagnostics (warnings, log lines and messages on standard error, and messages on standard output when the output goes to files) can be written: a standard error stream that is closed, full, failing, interrupted or short at any write costs only the message. (With --verbose or --debug and the output on standard output, only the exit status is promised: the messages may share the stream.)",
 ["fault_sequences","inputs","schedules"],"every command, input (valid or damaged), verbosity and fault on any write of a diagnostic",
 "tests run with a working standard error and never compare verbosities",
 ["log/log.go","commands","cmd/midiasm/main.go","midi/smf.go"],
 [("warnings and debug lines printed and forgotten","log/log.go"),("validation warnings and verbose messages","commands/*.go"),("final error message, then exit status","cmd/midiasm/main.go")],
 observe=["exit status, output files and standard output of the runs"])

p("C17","Commands that run at the same time do not disturb one another",
 "Several commands running at the same time, on the same inputs or in the same directories but with different outputs, each give exactly the result (exit status and output files) they give alone, for every interleaving of their system calls, and also when another of them is killed part-way.",
 ["schedules","crash_points","inputs"],"every set of commands with different outputs, every interleaving at system-call granularity, every kill of one of them",
 "tests run one command at a time, in process",
 ["commands"],
 [("no lock, scratch or state files shared between runs","commands/*.go"),("output directory created if it is not there","commands/export.go, commands/tsv.go, commands/disassemble.go")],
 observe=["exit status of each process; the shared simulated disk at the end"])

# ---- pure functions of their input: not simulation targets
def na(id,title,st,text,files,mech):
    p(id,title,st,["inputs"],text,"the tests sample a few hand-made files",files,mech)
na("C54","Note extraction pairs each note and times it by the tempo map","Each sounding note is listed once with the start and end implied by its note-on, its matching note-off (or zero-velocity note-on, or end of track) and the tempo map.","every valid file",["ops/notes"],[("tempo map and pending-note table","ops/notes/notes.go")])
na("C55","Validation flags exactly the structural faults it documents","Validate reports a missing, misplaced or duplicate end-of-track, channel events in a format 1 tempo track, and meta events outside their track, and reports nothing for a conforming file.","every decoded file",["midi/smf.go"],[("SMF.Validate","midi/smf.go")])
na("C56","TSV export has one row per event with documented columns","Each track event appears once, in order, in the track's column group with tick, delta, tag, channel, note, velocity and details.","every valid file",["commands/tsv.go"],[("tsv.export","commands/tsv.go")])

with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P),[x['id'] for x in P if len(x['title'])>80])
