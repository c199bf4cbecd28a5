#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the table below."""
import json
T="deterministic simulation with fault injection: "
C={
"C01":("seeded read fragmentation of the real decoder, assembler and loaders under a controlled scheduler, compared with one-piece delivery",),
"C02":("seeded read errors and premature ends at every layer (reader, simulated kernel), compared with the complete input",),
"C03":("seeded storage corruption; runs bounded by executed statements and allocated bytes",),
"C04":("seeded output faults (full disk, I/O error, failed close, broken pipe, failing writer), disk compared with the fault-free run",),
"C05":("seeded interrupted and short system calls, prior and aliased outputs, compared with the fault-free run",),
"C06":("seeded input faults with prior outputs on the simulated disk",),
"C07":("every file-system effect of every run audited, with faults and kills at any system call",),
"C08":("seeded schedules, map orders, clocks, CPUs, users and environments, compared with a reference run",),
"C09":("seeded interleavings of concurrent library operations against solo runs, plus a simulated build with the race detector",),
"C10":("seeded schedules and stream failures; goroutines alive and deadlock checked at quiescence",),
"C11":("seeded operation histories with failures, against each operation in a fresh process",),
"C12":("seeded command histories with kills, power cuts (lost or torn unsynced writes) and faults, against the fault-free history",),
"C13":("seeded schedules and deliveries of the text assembler, against an independent reference reader",),
"C14":("seeded failing operations on live objects, against objects never used for them",),
"C15":("seeded chains of commands with schedules, kills, power cuts and faults; the music compared with a reference model by an independent reader",),
"C16":("seeded faults on every write of a diagnostic, and verbosities, compared with the quiet fault-free run",),
"C17":("seeded interleavings at system-call granularity of several processes on one simulated disk, with kills, compared with each alone",),
}
N={}
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
checks=[];na=[]
NA="a pure function of one input: no schedule, clock, I/O, fault or history enters the statement, so a simulator has nothing to decide; generated inputs alone would be property-based testing, another family"
for p in props:
    i=p['id']
    if i in C:
        checks.append(dict(property=i,quick_cmd=f"bash check.sh check {i}",thorough_cmd=f"VERIF_TIER=thorough bash check.sh check {i}",
          evidence_file=f"evidence/{i}.json",technique=T+C[i][0],level="exploration",
          level_note="Seeded search over "+p['quantifier']['text']+": sampled, not exhaustive. Trusts the simulated kernel and scheduler, the input generator's range and, as oracle, "+("an independent MIDI reader of its own" if i in("C13","C15") else "fault-free runs of the same code")+". The seed and minimised trace of a failure are in the replay file."))
    else: na.append(dict(property=i,reason=N.get(i,NA)))
json.dump(dict(version=1,setup_cmd="bash setup.sh",checks=checks,not_applicable=na,
 notes="No hooks in /repo: the simulator instruments copies of the sources at build time (go build -overlay), so /repo holds only fix: commits. known_findings.txt lists the defects repaired."),open('/verif/MANIFEST.json','w'),indent=1,ensure_ascii=False)
