#!/usr/bin/env python3
"""Build refdata/ucd17.txt from three independent offline Unicode 17.0 sources and cross-check them.
usage: gen_ucd17.py GO.tsv NODE.tsv PYTHON_IDNA_DIR OUT
 GO.tsv   : dump_go.sh   (x/net/idna tables17, x/text bidi+norm tables17)
 NODE.tsv : dump_node.js (ICU 78, Unicode 17)
 PYTHON_IDNA_DIR : the 'idna' 3.18 package (Unicode 17.0.0)
Only run when the reference data is created; the committed ucd17.txt is what the checks read."""
import sys, importlib.util, bisect
def load(p,n):
    s=importlib.util.spec_from_file_location(n,p); m=importlib.util.module_from_spec(s); s.loader.exec_module(m); return m
go,node={},{}
for l in open(sys.argv[1]):
    f=l.rstrip('\n').split('\t'); go[int(f[0],16)]=f[1:]
for l in open(sys.argv[2]):
    f=l.rstrip('\n').split('\t'); node[int(f[0],16)]=f[1:]
u=load(sys.argv[3]+'/uts46data.py','u'); d=load(sys.argv[3]+'/idnadata.py','d')
def pmap(c):
    i=bisect.bisect_right(u.uts46_starts,c)-1
    st=u.uts46_statuses[i] if isinstance(u.uts46_statuses,str) else chr(u.uts46_statuses[i])
    return st,u.uts46_replacements[i]
jt={}
for k,v in d.joining_types.items():
    for x in v:
        for c in range(x>>32,x&0xffffffff): jt[c]=k
gj={0:'U',1:'L',2:'D',3:'T',4:'R'}
M,B,J,C,D,G,S,K,N={}, {}, {}, {}, {}, {}, {}, {}, {}
cps=[c for c in range(0x110000) if not 0xd800<=c<0xe000]
bad=0
for c in cps:
    g=go[c]; n=node[c]; ua=n[0][3]=='U'
    st,r=pmap(c)
    e={'V':'V','D':'V','X':'X','I':'I'}.get(st)
    if st in 'M3': e='M'+' '.join('%X'%ord(x) for x in r) if r else 'V'
    gm=g[0][1:] if g[0].startswith('3') else g[0]
    if e!=gm: bad+=1; print('map',hex(c),e,gm)
    if e!='X': M[c]=e
    if not ua: B[c]=g[2]
    j=jt.get(c,'U')
    # Go only tabulates joining types for IDNA-valid code points
    if e=='V':
        if gj[int(g[1])]!=j and j!='C': bad+=1; print('jt',hex(c),j,g[1])
    if j not in 'UC': J[c]=j
    if g[3]!='0': C[c]=g[3]
    if n[1]!='%X'%c and not 0xac00<=c<0xd7a4: D[c]=n[1]
    if n[2]!='%X'%c: N[c]=n[2]
    if n[0][0]=='M': G[c]='1'
    if n[0][1]=='S': S[c]='1'
    if n[0][2]=='C': K[c]='1'
if bad: sys.exit('sources disagree')
with open(sys.argv[4],'w') as o:
    o.write('# Unicode 17.0 reference data (generated by tools/gen_ucd17.py; see DESIGN.md). section lo hi value\n')
    for name,t in (('M',M),('B',B),('J',J),('C',C),('D',D),('N',N),('G',G),('S',S),('K',K)):
        lo=None
        for c in list(cps)+[0x110000]:
            v=t.get(c) if c<0x110000 else None
            if lo is not None and (v!=cur or c!=prev+1):
                o.write(f'{name} {lo:X} {prev:X} {cur}\n'); lo=None
            if lo is None and v is not None: lo=c; cur=v
            prev=c
print('ok')
