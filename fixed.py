#!/usr/bin/env python3
"""fixed.py PROP: record /repo's last commit as a repair."""
import json,sys,subprocess
h,s=subprocess.check_output(['git','-C','/repo','log','-1','--format=%h %s'],text=True).strip().split(' ',1)
h=h[:7]; p='/verif/known_findings.json'; d=json.load(open(p))
d['findings'].insert(0,dict(property=sys.argv[1],status='fixed',commit=h,record="fixed: property=%s %s %s"%(sys.argv[1],h,s[5:])))
json.dump(d,open(p,'w'),indent=1)
