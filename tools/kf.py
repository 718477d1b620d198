#!/usr/bin/env python3
"""Edit known_findings.json: kf.py fixed C05 'commit what' | kf.py find KF-C05-1 'what' [match]"""
import json,sys
p='/verif/known_findings.json'; k=json.load(open(p))
if sys.argv[1]=='fixed': k['fixed'].append('fixed: property=%s %s'%(sys.argv[2],sys.argv[3]))
else:
    i=sys.argv[2]; k['findings']=[f for f in k['findings'] if f['id']!=i]
    k['findings'].append({"id":i,"property":i[3:6],"match":sys.argv[4] if len(sys.argv)>4 else "\\["+i+"\\]","what":sys.argv[3]})
json.dump(k,open(p,'w'),indent=1); open(p,'a').write('\n')
