#!/usr/bin/env python3
# writes MANIFEST.json: checks for the properties the simulator decides, reasons for the others
import json,subprocess,sys
NA={
"C30":"no schedule, fault, time or I/O in it: the worst-case cost formulas are pure functions of declared sizes; simulation would only be input generation under another name",
"C31":"no schedule, fault, time or I/O in it: each entry point compares one number of its argument with constants before doing anything",
"C32":"no schedule, fault, time or I/O in it: printing is a pure function of the value printed",
"C33":"no schedule, fault, time or I/O in it: conversion between two sets of plain types (and the debugger server needs a network stack and an HTTP framework this sandbox cannot build)",
}
NOTE="seeded search over simulated runs of the real code on a simulated storage engine; a clean result is evidence for the sampled schedules, faults and histories, not a proof. Trusted: the simulated engine's model of RocksDB's documented guarantees, the reference model, the stand-in for the orchard crate."
EXTRA={}
ids=sys.argv[1:]
checks=[]
props=[json.loads(l)["id"] for l in open('/verif/properties.jsonl')]
for i in props:
    if i not in ids: continue
    checks.append({"property":i,"quick_cmd":f"VERIF_TIER=quick bash tools/check.sh {i}","thorough_cmd":f"VERIF_TIER=thorough bash tools/check.sh {i}","evidence_file":f"evidence/{i}.json","technique":"deterministic simulation with fault injection, seeded search against a reference model","level":"exploration","level_note":EXTRA.get(i,"")+NOTE})
na=[{"property":i,"reason":NA.get(i,"the simulator does not decide it yet")} for i in props if i not in ids]
m={"version":1,"setup_cmd":"bash tools/build.sh","hooks":{"guard":"none: the code's own seams suffice (the rocksdb, orchard and reqwest crates are replaced by simulated ones with cargo patches in /verif/sim/harness)","enable":"no flag; the checks build /repo's unmodified sources against the simulated crates","source_commits":[]},"checks":checks,"not_applicable":na,"notes":"see DESIGN.md"}
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1)
