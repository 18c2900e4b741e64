#!/usr/bin/env python3
# greedy set cover: select.py SRCDIR DSTDIR MAXBYTES
import sys,os,shutil
src,dst,maxb=sys.argv[1],sys.argv[2],int(sys.argv[3])
it=[]
for f in sorted(os.listdir(src)):
    if f.endswith('.strm') and os.path.exists(f'{src}/{f[:-5]}.cov'):
        c=open(f'{src}/{f[:-5]}.cov','rb').read(); it.append((f,os.path.getsize(f'{src}/{f}'),int.from_bytes(bytes(1 if x else 0 for x in c),'little')))
got=0;tot=0;sel=[]
allc=0
for _,_,c in it: allc|=c
while it:
    best=max(it,key=lambda x:(bin(x[2]&~got).count('1'))/(x[1]+3000)**0.5)
    g=bin(best[2]&~got).count('1')
    if g==0 or tot+best[1]>maxb: break
    got|=best[2]; tot+=best[1]; sel.append(best); it.remove(best)
    shutil.copy(f'{src}/{best[0]}',f'{dst}/{best[0]}')
print(len(sel),'streams',tot,'bytes covers',bin(got).count('1'),'of',bin(allc).count('1'))
