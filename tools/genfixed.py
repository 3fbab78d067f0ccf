#!/usr/bin/env python3
"""Lists the fix: commits of /repo in known_findings.json (kind "fixed"), keeping entries of kind "finding"."""
import json,subprocess,os
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
prop={
"parenthesize a receive-only":"C07","separate the embeds":"C07","keep result types":"C10","keep embedded fields":"C10","convert reflect map":"C10",
"convert predeclared":"C09","write to the first entry":"C21","report a failure to close":"C17","accept a correctly":"C11","prefix names":"C11",
"derive a valid identifier":"C03","qualify and import references":"C15","keep the tag":"C20","render methods used":"C12","render go/types methods":"C12",
"leave the model alone":"C16","render go/types packages":"C12","unexported fields in structs":"C13","arrays that are not":"C13","convert go/types and reflect values":"C13",
"do not recurse into":"C13","keep the import path":"C16","the entries of maps in template data in a fixed order":"C16","cannot be looked up by their keys":"C13","pointers to interfaces":"C13","unnamed type specs":"C13","zero value of Package":"C13","embedded interfaces referenced":"C12","comments of unnamed types":"C19","order map keys":"C16",
"copy the signature":"C23","copy the lists of their parts":"C23","copy the lists given":"C23","Printf copies its arguments":"C23","render declarations without any":"C14","cannot be looked up by their keys":"C13","template data that refers to itself":"C13"}
old=[]
f=here+'/known_findings.json'
if os.path.exists(f): old=[e for e in json.load(open(f)) if e['kind']=='finding']
out=[]
for l in subprocess.check_output(['git','-C','/repo','log','--reverse','--format=%h %s','ecd89a5..']).decode().splitlines():
    h,s=l.split(' ',1)
    if not s.startswith('fix:'): continue
    p=[v for k,v in prop.items() if k in s]
    assert len(p)==1,(s,p)
    out.append({"kind":"fixed","property":p[0],"commit":h,"message":"","harness":"","what":f"fixed: property={p[0]} {h} {s[5:]}"})
json.dump(old+out,open(f,'w'),indent=1); open(f,'a').write('\n')
