#!/usr/bin/env python3
"""Writes data/ref.txt: the reference classes of every code point (Unicode 17).

Input: dumps "cp(hex) bits" of the lookup tables at the pinned commit. The
tables were cross-checked, over all code points, against ICU 78 (Unicode 17) as
shipped with node 22 (see DESIGN.md); the dump is the data, ICU the witness.
usage: genref.py DUMPDIR ideo.txt alnum.txt > data/ref.txt
(ideo.txt, alnum.txt: "lo hi" hex ranges from Go 1.27's unicode package, 17.0.0)
Kind 5 (characters of kind 3 that BleveIdeographic misses, the known finding of
P17) is appended by hand from a native run over all of kind 3.
"""
import sys
d=sys.argv[1]
G={1:1,256:2,2:3,4:4,36:5,68:6,65568:7,8:8,16:9,128:10,32768:11,16384:12,512:13,1024:14,2048:15,4096:16,8192:17}
W={4:1,1024:2,16384:3,16:4,18:4,524288:5,128:6,512:7,514:7,256:8,1:9,3:9,65:10,131072:11,8:12,8192:13,2048:14,4096:15,32768:16,32:17,65536:18,262144:19,64:20,2:0}
S={2:1,32:2,2048:3,8:4,16:5,4096:6,64:7,8192:8,256:9,128:10,1:11,512:12,1024:13,4:14}
def load(fn,mp):
    out=[]
    for l in open(fn):
        a,b=l.split(); out.append((int(a,16),mp[int(b)]))
    return out
def emit(kind,lst):
    i=0
    lst=[x for x in lst if x[1]]
    while i<len(lst):
        j=i
        while j+1<len(lst) and lst[j+1]==(lst[j][0]+1,lst[i][1]): j+=1
        print(kind,'%x %x'%(lst[i][0],lst[j][0]),lst[i][1])
        i=j+1
emit(0,load(d+'/graphemes.txt',G)); emit(1,load(d+'/words.txt',W)); emit(2,load(d+'/sentences.txt',S))
w=dict(load(d+'/words.txt',W))
ideo=set()
for l in open(sys.argv[2]):
    a,b=l.split(); ideo|=set(range(int(a,16),int(b,16)+1))
ideo|={c for c,k in w.items() if k==7}
emit(3,[(c,1) for c in sorted(ideo)])
an=set()
for l in open(sys.argv[3]):
    a,b=l.split(); an|=set(range(int(a,16),int(b,16)+1))
emit(4,[(c,1) for c in sorted(an)])
