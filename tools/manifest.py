#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.conf (claimed checks) and the table below."""
import json,re,os
os.chdir(os.path.dirname(os.path.abspath(__file__))+"/..")
claimed=sorted(set(re.findall(r'\[(C\d\d)\]=',open("checks.conf").read())))
T="bounded-exhaustive explicit enumeration of executions of the real code, checked against an independent reference model"
tech={
 "C03":"explicit-state reference model of the growing procedure replayed against the trainer on every text/option in bounds",
 "C04":"reachable-state search (all visiting orders) of a pruning model, replayed against the trainer on every text/option in bounds",
 "C06":"exhaustive fault enumeration: every truncation point of every file in a corpus of small models",
 "C11":"explicit-state exploration of the real sparse table: all operation sequences to a depth, against std::map",
 "C12":"explicit-state exploration of all journalled update sequences to a depth on the real classes",
 "C16":"exhaustive enumeration of channel assignments, delivery split points and unreadable inputs on the real tools, against the plain-file run",
 "C17":"exhaustive fault enumeration: every write/flush/close of an output file fails in turn",
 "C24":"exhaustive interleaving exploration of two object scripts on the real classes",
 "C25":"exhaustive exploration of scorer call sequences to a depth on the real class",
}
level={"C06":"fault_enumeration","C17":"fault_enumeration","C11":"model_checking","C12":"model_checking","C24":"model_checking","C25":"model_checking"}
note={}
try: note=json.load(open("tools/level_notes.json"))
except FileNotFoundError: pass
props=[json.loads(l) for l in open("properties.jsonl")]
m={"version":1,"setup_cmd":"true","checks":[],"not_applicable":[]}
for p in props:
    i=p["id"]
    if i in claimed:
        m["checks"].append({"property":i,"quick_cmd":f"./check.sh {i}","thorough_cmd":f"./check.sh {i} --tier thorough",
          "technique":tech.get(i,T),"level":level.get(i,"exploration"),
          "level_note":note.get(i,"Every case of the bounded space listed in the evidence file is executed on the real code (nothing sampled); the guarantee does not extend beyond the bounds.")})
    else: m["not_applicable"].append({"property":i,"reason":"no check built yet"})
json.dump(m,open("MANIFEST.json","w"),indent=1); open("MANIFEST.json","a").write("\n")
