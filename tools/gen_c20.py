#!/usr/bin/env python3
"""Writes a C20 workload: one-operation programs for every (type, operation) and random straight-line programs.
usage: gen_c20.py OUT SEED NPROGS NOPS
Each program is emitted once as a macro and instantiated twice: with every intermediate result hidden from the
optimiser (step) and without (fused). All operations stay within the domains of the other properties and are
deterministic up to NaN identity."""
import sys, random
out,seed,nprog,nops=sys.argv[1],*map(int,sys.argv[2:5])
r=random.Random(seed*104729+20)
W={8:[2,4,8,16,32,64],16:[2,4,8,16,32],32:[2,4,8,16],64:[2,4,8],128:[1,2,4]}
class T:
    def __init__(s,name,k,b,n,elem): s.name,s.k,s.b,s.n,s.elem=name,k,b,n,elem
    def __repr__(s): return s.name
TY={}
for b,ns in W.items():
    for n in ns:
        for k in 'ium': TY[f'{k}{b}x{n}']=T(f'{k}{b}x{n}',k,b,n,f'{k}{b}')
for n in (2,4,8):
    for k in 'ium': TY[f'{k}sizex{n}']=T(f'{k}sizex{n}',k,64,n,f'{k}size')
for b,ns in {32:[2,4,8,16],64:[2,4,8]}.items():
    for n in ns: TY[f'f{b}x{n}']=T(f'f{b}x{n}','f',b,n,f'f{b}')
def sized(t): return 'size' in t.name
def maskof(t): return TY[('msizex%d'%t.n) if sized(t) else f'm{t.b}x{t.n}']
def uof(t): return TY[('usizex%d'%t.n) if sized(t) else f'u{t.b}x{t.n}']
def iof(t): return TY[('isizex%d'%t.n) if sized(t) else f'i{t.b}x{t.n}']
# implemented casts / bit conversions, read from the harness' static tables
import re, os
src=open(os.path.join(os.path.dirname(os.path.abspath(__file__)),'../harness/src/pairs.rs')).read()
CAST=[];BITS=[];FROM=[]
cur=None
for l in src.splitlines():
    m=re.match(r'macro_rules! for_(\w+)_pairs',l)
    if m: cur={'cast':CAST,'bits':BITS,'from':FROM,'arch':[]}[m.group(1)]
    m=re.match(r'\s*\$m!\((\w+), \w+, \w+, \w+, (\w+),',l)
    if m and m.group(1) in TY and m.group(2) in TY: cur.append((m.group(1),m.group(2)))
# operation table: (name, result type, [operand types], expression with {0},{1},{2})
OPS=[]
def op(nm,res,args,e): OPS.append((nm,res,args,e))
for t in list(TY.values()):
    N=t.name; m=maskof(t)
    mx=t.b-1
    if t.k in 'iu':
        for nm,s in (('add','+'),('sub','-'),('mul','*'),('and','&'),('or','|'),('xor','^')): op(nm,N,[N,N],'{0} %s {1}'%s)
        op('not',N,[N],'!{0}')
        nz = '(({1} & %s::splat(%s::MAX)) | %s::splat(1))'%(N,t.elem,N)
        op('div',N,[N,N],'{0} / '+nz); op('rem',N,[N,N],'{0} %% %s'%nz)
        if t.k=='i': op('neg',N,[N],'-{0}')
        op('min',N,[N,N],'{0}.min({1})'); op('max',N,[N,N],'{0}.max({1})')
        sh='({1} & %s::splat(%d))'%(N,mx)
        op('shl',N,[N,N],'{0} << '+sh); op('shr',N,[N,N],'{0} >> '+sh)
        for q in {1,mx//2,mx,r.randrange(t.b)}:
            op('shl%d'%q,N,[N],'{0} << %du32'%q); op('shr%d'%q,N,[N],'{0} >> %du32'%q)
        op('rotl',N,[N,N],'{0}.rotate_left(%s)'%sh); op('rotr',N,[N,N],'{0}.rotate_right(%s)'%sh)
        op('scalar_add',N,[N],'{0} + (%d as %s)'%(r.randrange(127),t.elem)); op('scalar_mul',N,[N],'(%d as %s) * {0}'%(r.randrange(127),t.elem))
        op('swap_bytes',N,[N],'{0}.swap_bytes()'); op('to_be',N,[N],'{0}.to_be()'); op('to_le',N,[N],'{0}.to_le()')
        for f in ('count_ones','count_zeros','leading_zeros','trailing_zeros'): op(f,N,[N],'{0}.%s()'%f)
        for f in ('wrapping_sum','wrapping_product','max_element','min_element','and','or','xor'):
            op('red_'+f,N,[N],'%s::splat({0}.%s())'%(N,f))
        op('hash',N,[N],'{ let h = vmon::std_hash(&{0}); %s::splat(h as %s) }'%(N,t.elem))
        op('lex_lt',m.name,[N,N],'%s::splat({0}.lex_ord() < {1}.lex_ord())'%m.name)
        op('lex_max',N,[N,N],'{ let mut a = [{0}.lex_ord(), {1}.lex_ord()]; a.sort(); if a[1] == {0}.lex_ord() { {0} } else { {1} } }')
        u=uof(t).name
    if t.k=='f':
        for nm,s in (('add','+'),('sub','-'),('mul','*'),('div','/'),('rem','%')): op(nm,N,[N,N],'{0} %s {1}'%s)
        op('neg',N,[N],'-{0}'); op('abs',N,[N],'{0}.abs()'); op('sqrt',N,[N],'{0}.sqrt()')
        # the sign of a zero result of min/max is unspecified: normalise it
        op('min',N,[N,N],'{0}.min({1}) + %s::splat(0.0)'%N); op('max',N,[N,N],'{0}.max({1}) + %s::splat(0.0)'%N)
        op('mul_add',N,[N,N,N],'{0}.mul_add({1}, {2})')
        op('max_element',N,[N],'%s::splat({0}.max_element() + 0.0)'%N); op('min_element',N,[N],'%s::splat({0}.min_element() + 0.0)'%N)
        for f in ('is_nan','is_infinite','is_finite'): op(f,m.name,[N],'{0}.%s()'%f)
    if t.k in 'iuf':
        for f in ('eq','ne','lt','le','gt','ge'): op(f,m.name,[N,N],'{0}.%s({1})'%f)
        op('select',N,[m.name,N,N],'{0}.select({1}, {2})')
        i=r.randrange(t.n); j=r.randrange(t.n)
        op('swap_lanes',N,[N],'{ let x = {0}.extract(%d); let y = {0}.extract(%d); {0}.replace(%d, y).replace(%d, x) }'%(i,j,i,j))
        op('partial_eq',m.name,[N,N],'%s::splat({0} == {1})'%m.name)
        op('slice',N,[N,N],'{ let mut s = [%s::default(); %d]; {0}.write_to_slice_unaligned(&mut s[%d..]); s[0] = {1}.extract(%d); %s::from_slice_unaligned(&s) }'%(t.elem,2*t.n,r.randrange(t.n+1),j,N))
        op('array',N,[N],'{ let a: [%s; %d] = {0}.into(); let mut b = a; b.reverse(); %s::from(b) }'%(t.elem,t.n,N))
    if t.k=='m':
        for nm,s in (('and','&'),('or','|'),('xor','^')): op(nm,N,[N,N],'{0} %s {1}'%s)
        op('not',N,[N],'!{0}')
        for f in ('all','any','none'): op(f,N,[N],'%s::splat({0}.%s())'%(N,f))
        for f in ('and','or','xor'): op('red_'+f,N,[N],'%s::splat({0}.%s())'%(N,f))
        for f in ('eq','ne','lt','le','gt','ge'): op(f,N,[N,N],'{0}.%s({1})'%f)
        op('select',N,[N,N,N],'{0}.select({1}, {2})')
        op('replace',N,[N,N],'{0}.replace(%d, {1}.extract(%d))'%(r.randrange(t.n),r.randrange(t.n)))
        iv=iof(t)
        op('bitmask',uof(t).name,[N],'%s::splat({0}.bitmask() as u64 as %s)'%(uof(t).name,uof(t).elem))
        op('partial_eq',N,[N,N],'%s::splat({0} == {1})'%N)
        op('lex_le',N,[N,N],'%s::splat({0}.lex_ord() <= {1}.lex_ord())'%N)
    # dynamic and static shuffles
    if t.n>1:
        u=uof(t)
        op('shuffle1_dyn',N,[N,u.name],'{0}.shuffle1_dyn({1} & %s::splat(%d))'%(u.name,t.n-1))
        op('shuffle1',N,[N],'shuffle!({0}, [%s])'%', '.join(str(r.randrange(t.n)) for _ in range(t.n)))
        op('shuffle2',N,[N,N],'shuffle!({0}, {1}, [%s])'%', '.join(str(r.randrange(2*t.n)) for _ in range(t.n)))
for d,s in CAST: op('cast',d,[s],'{ let c: %s = {0}.cast(); c }'%d)
for d,s in FROM: op('from',d,[s],'%s::from({0})'%d)
for d,s in BITS:
    if TY[s].k!='f' and TY[d].k!='f': op('into_bits',d,[s],'{ let c: %s = {0}.into_bits(); c }'%d)
def emit(nm,ins,steps,outs):
    l=[f"macro_rules! {nm} {{ ($b:ident, $i:ident, $o:ident) => {{{{"]
    for v,t in ins: l.append(f"    let {v}: {t} = $i.v();")
    for v,t,e in steps: l.append(f"    let {v}: {t} = $b({e});")
    for v in outs: l.append(f"    $o.put({v});")
    l.append("}}; }")
    return "\n".join(l)
o=[];calls=[]
def add(nm,ty,what,ins,steps,outs):
    o.append(emit(nm,ins,steps,outs))
    o.append(f"fn {nm}_s(i: &mut In, o: &mut Out) {{ {nm}!(step, i, o) }}\nfn {nm}_f(i: &mut In, o: &mut Out) {{ {nm}!(fused, i, o) }}")
    calls.append(f'("{ty}", "{what}", {nm}_s as P, {nm}_f as P)')
# one-operation programs: casts/from/bits are sampled (C10, C11 judge each of them), everything else is complete
for q,(nm,res,args,e) in enumerate(OPS):
    if nm in('cast','from','into_bits') and r.random()>0.25: continue
    ins=[(f'a{j}',t) for j,t in enumerate(args)]
    def sub(e,names):
        for j,x in enumerate(names): e=e.replace('{%d}'%j,x)
        return e
    what=nm+('_from_'+args[0] if nm in('cast','from','into_bits') else '')
    add(f'o{q}',args[0] if nm not in('cast','from','into_bits') else res,what,ins,[('z',res,sub(e,[x for x,_ in ins]))],['z'])
# random programs, each around one lane count (casts connect the lane widths, bit conversions the lane counts)
byres={}
byarg={}
for x in OPS:
    byres.setdefault(x[1],[]).append(x)
    byarg.setdefault(x[2][0],[]).append(x)
names=sorted(TY)
for p in range(nprog):
    ins=[];steps=[];env={};used=set();log=[]
    def fresh(t):
        v=f'a{len(ins)}'; ins.append((v,t)); env.setdefault(t,[]).append(v); return v
    def pick(t):
        l=env.get(t)
        if not l or (len(l)<2 and r.random()<.3): return fresh(t)
        return l[-1] if r.random()<.5 else r.choice(l)
    cur=r.choice(names); fresh(cur); fresh(cur)
    for s in range(nops):
        c=[x for x in byarg[cur]]
        fam=r.choice(sorted(set(x[0] for x in c)))
        nm,res,args,e=r.choice([x for x in c if x[0]==fam])
        vs=[pick(a) for a in args]
        used.update(vs)
        v=f'v{s}'
        for j,x in enumerate(vs): e=e.replace('{%d}'%j,x)
        steps.append((v,res,e)); env.setdefault(res,[]).append(v); log.append(nm)
        cur=res
        # masks are dead ends for values: prefer going on through select
        if r.random()<.25:
            alive=[t for t in env if any(x.startswith('v') for x in env[t])]; cur=r.choice(sorted(alive))
    outs=[v for v,_,_ in steps if v not in used or r.random()<.3]
    add(f'p{p}','program',f'{p}: '+' '.join(log),ins,steps,outs)
o.append("type P = fn(&mut In, &mut Out);\nstatic PROGS: &[(&str, &str, P, P)] = &[\n    "+",\n    ".join(calls)+",\n];")
open(out,'w').write("\n".join(o)+"\n"); print(len(calls))
