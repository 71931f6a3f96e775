#!/usr/bin/env python3
"""Writes harness/vh/dispatch.go: the native entry to every harness."""
import re,glob,os
d=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"harness","vh")
names=[]
for f in sorted(glob.glob(d+'/*.go')):
    if f.endswith('dispatch.go'): continue
    for m in re.finditer(r'^func ([A-Z]\w*)\(([^)]*)\) *\{',open(f).read(),re.M):
        a=m.group(2).strip()
        if a and not a.endswith('int'): continue
        names.append((m.group(1),len([x for x in a.split(',') if x.strip()])))
with open(d+'/dispatch.go','w') as o:
    o.write('package vh\n\n// Run runs a harness by name. Generated by tools/gendispatch.py.\nfunc Run(name string, a []int) {\n\tswitch name {\n')
    for n,k in sorted(names):
        o.write('\tcase "%s":\n\t\t%s(%s)\n'%(n,n,', '.join('a[%d]'%i for i in range(k))))
    o.write('\tdefault:\n\t\tpanic("no harness " + name)\n\t}\n}\n')
