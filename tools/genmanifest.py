#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os, subprocess
here=os.path.dirname(os.path.abspath(__file__))
props=[json.loads(l) for l in open(os.path.join(here,"..","properties.jsonl"))]
T={
"C01":("random payloads generated from an independent layout model, decoded and compared with the model (rapid)","exploration","layout tables written by hand from the formats act as reference decoder"),
"C02":("random box values encoded and compared byte for byte with an independent reference encoder (rapid)","exploration","includes tables shorter/longer than declared and unregistered types"),
"C03":("generated round trips: value -> bytes -> value, canonical bytes -> box -> bytes, single-field edits (rapid)","exploration","canonical payloads come from the reference encoder"),
"C04":("grammar-based and mutational fuzzing of files, payloads, nesting and command input with crash, hang and allocation oracles (rapid)","exploration","quadratic running time on megabyte inputs is not claimed"),
"C05":("mutated, cut and inflated payloads decoded in the middle of a larger stream, judged by a reference decoder (rapid)","exploration","every cut position of a payload is tried"),
"C06":("generated box trees traversed by randomly scripted handlers, compared with the tree (rapid)","exploration","sparse files beyond 4 GiB included"),
"C07":("single structural faults injected into generated files; the fault must be reported and its absence accepted (rapid)","fault_enumeration","one fault per file, at every kind of place"),
"C08":("generated context-rich trees compared with an independent context model, in traversal and extraction (rapid)","exploration","context rules restated in tree.go"),
"C09":("generated trees and path sets compared with a reference matcher; damage outside the paths (rapid)","exploration","reference matcher in p09.go"),
"C10":("stateful model-based generation of writer call sequences against a reference byte model (rapid)","exploration","sparse writer target allows sizes beyond 4 GiB"),
"C11":("generated headers written, read back and judged by a reference header codec (rapid)","exploration","one known finding, see known_findings.txt"),
"C12":("generated files and edit plans rewritten with the library and compared with the edited tree (rapid)","exploration","reference renderer in tree.go"),
"C13":("generated whole progressive movies probed and compared with the generator's facts (rapid)","exploration","one known finding, see known_findings.txt"),
"C14":("generated fragmented movies probed and compared with the generator's facts (rapid)","exploration","32-bit sums are kept in range"),
"C15":("generated AVC tracks and hand-built tracks searched and compared with the generator's sample contents (rapid)","exploration","NAL lengths 1, 2 and 4"),
"C16":("generated sample and segment lists compared with a direct evaluation of the definition (rapid)","exploration","big-integer reference"),
"C17":("generated boxes rendered and compared with an independent text renderer, plus metamorphic indent relation (rapid)","exploration","one known finding, see known_findings.txt"),
"C18":("enumerated I/O fault injection: each call of a generated operation fails once (rapid)","fault_enumeration","all calls up to 48 per operation, sampled beyond; truncated sources"),
"C19":("differential runs of generated operations over eleven ways of delivering the same bytes (rapid)","exploration","well-formed and damaged sources"),
"C20":("generated values of generated struct definitions against an independent interpreter of the field tags (rapid)","exploration","struct definitions are generated afresh from the seed and compiled in"),
"C21":("generated lookups compared with a model of the registry over all registration calls (rapid)","exploration","includes user registrations that shadow built-in types"),
"C22":("stateful generation of bit-level operations against a bit-string model; generated hook programs (rapid)","exploration","hooks record what they were given"),
"C23":("generated field values and operation sequences against a reference of each accessor (rapid)","exploration","all accessors found by reflection are covered"),
"C24":("generated operation histories and concurrent runs compared with isolated runs; deep snapshots (rapid)","exploration","data races are looked for with the race detector where cgo is available"),
"C25":("generated files given to the extract command, output compared with the tree (rapid)","exploration","in process, and a share through the built binary"),
"C26":("generated files and options given to the dump command, output compared with a reference rendering (rapid)","exploration","in process, and a share through the built binary"),
"C27":("generated files and edits given to the edit command, output compared with the edited tree (rapid)","exploration","in process, and a share through the built binary"),
"C28":("generated fragmented movies given to the divide command, output files compared with the generator's facts (rapid)","exploration","in process, and a share through the built binary"),
"C29":("generated movies given to the probe command, both reports parsed and compared with the generator's facts (rapid)","exploration","in process, and a share through the built binary"),
"C30":("generated files given to the psshdump command, output parsed and compared with the tree (rapid)","exploration","in process, and a share through the built binary"),
"C31":("fault injection into the output of the commands: a limit at any byte, outputs that cannot be created, a full device (rapid)","fault_enumeration","errors of Close and reads that fail midway are not injected"),
}
import re
src="".join(open(os.path.join(here,"..","harness",f)).read() for f in sorted(os.listdir(os.path.join(here,"..","harness"))) if f.endswith(".go"))
built=set(re.findall(r'ID:\s*"(C\d+)"',src))
checks=[];na=[]
for p in props:
    i=p["id"]
    if i in built:
        t,l,n=T[i]
        checks.append(dict(property=i,quick_cmd=f"bash check.sh {i} quick",thorough_cmd=f"bash check.sh {i} thorough",technique=t,level=l,level_note=n))
    else:
        na.append(dict(property=i,reason="check under construction"))
m=dict(version=1,setup_cmd="bash setup.sh",checks=checks,not_applicable=na)
json.dump(m,open(os.path.join(here,"..","MANIFEST.json"),"w"),indent=1)
print(len(checks),"claimed",[x["property"] for x in na])
