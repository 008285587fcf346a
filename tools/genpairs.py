#!/usr/bin/env python3
"""Authoring-time extraction of the implemented (destination, source) conversion pairs from /repo into
static tables harness/src/pairs.rs (committed; checks do not run this)."""
import re, os, glob
R='/repo/src'
def strip(s): return re.sub(r"/\*.*?\*/","",re.sub(r"//[^\n]*","",s),flags=re.S)
def calls(s,name):
    for m in re.finditer(name+r'!\s*\(',s):
        i=m.end(); d=1; j=i
        while d:
            d+= s[j]=='('; d-= s[j]==')'; j+=1
        yield s[i:j-1]
cast=[]; bits=[]; frm=[]
for f in sorted(glob.glob(R+'/api/cast/v*.rs')):
    s=strip(open(f).read())
    for nm in ('impl_from_cast','impl_from_cast_mask'):
        for b in calls(s,nm):
            h,t=b.split(':',1); d=h.split('[')[0].strip()
            cast+=[(d,x.strip()) for x in t.split(',') if x.strip()]
for f in sorted(glob.glob(R+'/api/into_bits/v*.rs')):
    s=strip(open(f).read())
    for b in calls(s,'impl_from_bits'):
        h,t=b.split(':',1); d=h.split('[')[0].strip()
        bits+=[(d,x.strip()) for x in t.split(',') if x.strip()]
for f in sorted(glob.glob(R+'/v*.rs')):
    s=strip(open(f).read())
    if f.endswith("vPtr.rs"): continue
    for nm in ('impl_i','impl_u','impl_f','impl_m'):
        for b in calls(s,nm):
            mm=re.search(r"\]:\s*(\w+)\s*[,|]",b)
            if not mm: print("skip",f,nm,b[:80]); continue
            d=mm.group(1)
            m=re.search(r'From:\s*([\w\s,]*?)\s*\|',b+'|')
            if m: frm+=[(d,x.strip()) for x in m.group(1).split(',') if x.strip()]
def k(t):
    m=re.match(r'([iufm])(\d+|size)x(\d+)$',t)
    if not m: return None
    b=64 if m[2]=='size' else int(m[2])
    return m[1].upper(),b,int(m[3])
s=strip(open(R+'/api/into_bits/arch_specific.rs').read())
arch=[]
for b in calls(s,'impl_arch'):
    m=re.search(r'x86_64\["x86_64"\]:\s*([\w\s,]+)\]',b)
    if not m or 'from:' not in b or '$' in b: continue
    ts=[x.strip() for x in m.group(1).split(',') if x.strip()]
    fr=[x.strip() for x in re.search(r'from:([\w\s,]+)\|',b).group(1).split(',') if x.strip()]
    into=[x.strip() for x in re.search(r'into:([\w\s,]+)\|',b).group(1).split(',') if x.strip()]
    for t in ts:
        for x in fr: arch.append((t,x))
        for x in into: arch.append((x,t))
frm=[x for x in frm if x[0]!='m64x1']  # inside a (nested) comment in src/v64.rs
def row(d,s):
    (a,b,n),(a2,b2,n2)=k(d),k(s)
    return f"{d}, {a}, {b}, {n}, {s}, {a2}, {b2}, {n2}"
o=["// generated by tools/genpairs.py"]
for nm,l in (('cast',cast),('from',frm),('bits',bits)):
    o.append(f"#[macro_export]\nmacro_rules! for_{nm}_pairs {{ ($m:ident) => {{")
    for d,s_ in l: o.append(f"    $m!({row(d,s_)});")
    o.append("}; }")
o.append("#[macro_export]\nmacro_rules! for_arch_pairs { ($m:ident) => {")
A={'__m128':('F',32,4),'__m128i':('I',64,2),'__m128d':('F',64,2),'__m256':('F',32,8),'__m256i':('I',64,4),'__m256d':('F',64,4)}
for d,s_ in arch:
    ax,bx,nx=k(d) or A[d]; ay,by,ny=k(s_) or A[s_]
    o.append(f"    $m!({d}, {ax}, {bx}, {nx}, {s_}, {ay}, {by}, {ny});")
o.append("}; }")
open(os.path.dirname(os.path.abspath(__file__))+'/../harness/src/pairs.rs','w').write("\n".join(o)+"\n")
print(len(cast),len(frm),len(bits),len(arch))
print([x for x in frm if x[0].startswith(('f','m'))][:12])
