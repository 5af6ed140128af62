#!/usr/bin/env python3
"""One-off used for the 'fix:' commit that refreshed the normalization / bidi / combining-mark
tables of /repo/src/table_blob.inc to Unicode 17 (mapping and identifier tables untouched)."""
import sys
sys.path.insert(0,'/repo/scripts')
import pack_tables as p
ref={k:{} for k in 'MBJCDNGSK'}
for l in open(sys.argv[1]):
    if l[0]=='#': continue
    k,lo,hi,v=l.rstrip('\n').split(' ',3)
    for c in range(int(lo,16),int(hi,16)+1): ref[k][c]=v
s=p.load_blob_sections()
def pages(rowof,cols):
    idx,rows,seen=[],[],{}
    for pg in range(4352):
        r=tuple(rowof(pg))
        if r not in seen: seen[r]=len(rows); rows.append(r)
        idx.append(seen[r])
    assert len(rows)<=256
    return idx,[x for r in rows for x in r]
# decompositions: keep what is there (including compatibility entries), add the new canonical ones
old={}
for c in range(0x110000):
    r=s['decomposition_index'][c>>8]*257+(c&255); a,b=s['decomposition_block'][r],s['decomposition_block'][r+1]
    if (b>>2)>(a>>2): old[c]=(a&3,s['decomposition_data'][a>>2:b>>2])
new=dict(old); added=[]
for c,v in ref['D'].items():
    v=[int(x,16) for x in v.split()]
    if c in old and not old[c][0]&1: assert old[c][1]==v,(hex(c),old[c],v)
    else: new[c]=(0,v); added.append(c)
for c in new: assert new[c][0]&1 or c in ref['D'],hex(c)
print('new canonical decompositions',[hex(c) for c in added])
data=[]
def drow(pg):
    # offsets are global; a page without entries is all one (shared) offset
    cs=[c for c in range(pg*256,pg*256+256) if c in new]
    if not cs: return [4]*257
    out=[]
    for c in range(pg*256,pg*256+256):
        f,v=new.get(c,(0,[])); out.append(len(data)<<2|f); data.extend(v)
    out.append(len(data)<<2); return out
data.append(0)
s['decomposition_index'],s['decomposition_block']=pages(drow,257); s['decomposition_data']=data
assert max(s['decomposition_block'])<65536
s['ccc_index'],s['ccc_block']=pages(lambda pg:[int(ref['C'].get(c,0)) for c in range(pg*256,pg*256+256)],256)
# primary composites
D={c:tuple(int(x,16) for x in v.split()) for c,v in ref['D'].items()}
prim={d:c for c,d in D.items() if len(d)>=2 and c not in ref['N']}
comp={}
for d,c in prim.items():
    first=d[0] if len(d)==2 else prim[d[:-1]]
    comp.setdefault(first,[]).append((d[-1],c))
cdata=[0]
def crow(pg):
    cs=[c for c in range(pg*256,pg*256+256) if c in comp]
    if not cs: return [1]*257
    out=[]
    for c in range(pg*256,pg*256+256):
        out.append(len(cdata))
        for a,b in sorted(comp.get(c,[])): cdata.extend([a,b])
    out.append(len(cdata)); return out
oldcomp=set()
for c in range(0x110000):
    r=s['composition_index'][c>>8]*257+(c&255); a,b=s['composition_block'][r],s['composition_block'][r+1]
    for i in range(a,b,2): oldcomp.add((c,s['composition_data'][i],s['composition_data'][i+1]))
newcomp={(a,b,c) for a in comp for b,c in comp[a]}
print('compositions added',len(newcomp-oldcomp),'removed',[tuple(map(hex,x)) for x in oldcomp-newcomp])
s['composition_index'],s['composition_block']=pages(crow,257); s['composition_data']=cdata
E=['NONE','BN','CS','ES','ON','EN','L','R','NSM','AL','AN','ET','WS','RLO','LRO','PDF','RLE','RLI','FSI','PDI','LRI','B','S','LRE']
st,fi,va=[],[],[]
for c in sorted(ref['B']):
    v=E.index(ref['B'][c])
    if st and fi[-1]==c-1 and va[-1]==v: fi[-1]=c
    else: st.append(c);fi.append(c);va.append(v)
s['dir_start'],s['dir_final'],s['dir_value']=st,fi,va
fl=[]
for c in sorted(ref['G']):
    if fl and fl[-1]==c-1: fl[-1]=c
    else: fl+= [c,c]
s['combining_flat']=fl
s.pop('_meta')
print({k:len(v) for k,v in s.items()})
p.write_blob(s)
