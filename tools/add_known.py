#!/usr/bin/env python3
# add_known.py ID WHAT CASE=SIG...: adds known findings (manual use only)
import json,sys
p='/verif/known_findings.json'
d=json.load(open(p))
pid,what=sys.argv[1:3]
for a in sys.argv[3:]:
    case,sig=a.rsplit('=',1)
    e={"property":pid,"case":case,"sig":sig,"what":what}
    if not any(k["property"]==pid and k["case"]==case and k["sig"]==sig for k in d["known"]):
        d["known"].append(e)
json.dump(d,open(p,'w'),indent=1,ensure_ascii=False)
