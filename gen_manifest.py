#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl."""
import json
notes={
 "C01":"Bounded exhaustive enumeration on the real code, supervised by a separate process that detects hangs, aborts and memory exhaustion; families a million levels deep are listed as known findings.",
 "C21":"The real binary is built from the working tree and run on every file and every input stream of the bounded spaces; its output must equal what the library's result prescribes, answer by answer. Trusts the library's results (decided by the other properties).",
 "C22":"The real WebAssembly module is built from the working tree and run in Node on every text of the bounded spaces; its value is compared with the native tree. Trusts the hand-written JavaScript glue (what wasm-bindgen 0.2.100 generates) and the native result.",
 "C23":"All pairs and triples of probe texts, on one thread and on two, and all schedules of two simultaneous analyses with a bounded number of preemptions, under a controlled scheduler that may switch at every memory allocation, against results from fresh processes. Races between two allocations are not split.",
 "C24":"The page's own script runs in Node on a stand-in for the browser whose events happen in every bounded order; what the page shows is read back and compared with what the real WebAssembly module returns. Trusts the stand-in for the DOM, and the value that C22 decides.",
 "C25":"The real binary is built from the working tree and run on every case of the bounded spaces with real faults (ill-formed bytes, odd paths, a socket that fails after n bytes, a file size limit of n bytes, a full device, a closed pipe); what it must have printed before the fault is taken from the library's results.",
 "C06":"Relates two runs of the real code (a program and the same program with meaningless characters added); no model of the grammar is trusted, only the rules where such characters may be added.",
 "C19":"Histories of lines are replayed on the real resolver against the model's session, and typed into the real binary. Trusts the reference model and the small-scope hypothesis beyond the bounds.",
 "C20":"Relates the three modes of the real code to each other and to the reference parser.",
}
d="Exhaustive within the stated bounds: every reachable model state or sequence is replayed on the real code, whose result must agree with an independent executable reference model in the aspect of this property. Trusts the reference model (written from the language description; every disagreement was examined) and the small-scope hypothesis beyond the bounds."
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
m={"version":1,"setup_cmd":"bash setup.sh","checks":[],"not_applicable":[],
"notes":"No hooks: everything is observed through the public API, the command line and the WebAssembly export. See DESIGN.md."}
for p in props:
  i=p["id"]
  m["checks"].append({"property":i,"quick_cmd":f"bash check.sh {i} quick","thorough_cmd":f"bash check.sh {i} thorough",
   "evidence_file":f"evidence/{i}.json",
   "technique":"explicit-state model checking: exhaustive bounded enumeration of inputs and model states, each replayed on the implementation",
   "level":"model_checking","level_note":notes.get(i,d)})
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1); open('/verif/MANIFEST.json','a').write("\n")
