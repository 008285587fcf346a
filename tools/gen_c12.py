#!/usr/bin/env python3
"""Writes a C12 workload: calls of shuffle! with structured and seed-drawn index lists for every lane type,
input length and output length. usage: gen_c12.py OUT SEED NRAND"""
import sys, random
out,seed,nrand=sys.argv[1],int(sys.argv[2]),int(sys.argv[3])
r=random.Random(seed*7919+12)
W={8:[2,4,8,16,32,64],16:[2,4,8,16,32],32:[2,4,8,16],64:[2,4,8],128:[1,2,4]}
fam=[]   # (prefix, kind, bits, lanes)
for b,ns in W.items():
    for k in 'ium': fam.append((f'{k}{b}x%d',k.upper(),b,ns))
for k in 'ium': fam.append((f'{k}sizex%d',k.upper(),64,[2,4,8]))
fam.append(('f32x%d','F',32,[2,4,8,16])); fam.append(('f64x%d','F',64,[2,4,8]))
for p in ('cptrx%d<u8>','mptrx%d<u8>','cptrx%d<f64>','mptrx%d<[u16; 3]>'): fam.append((p,'U',64,[2,4,8]))
def lists(n,m,two):
    t=2*n if two else n
    L=[('identity',[i%t for i in range(m)]),('reverse',[(t-1-i)%t for i in range(m)])]
    if two:
        L.append(('interleave',[((i//2)%n)+(n if i%2 else 0) for i in range(m)]))
        L.append(('blend',[(i%n)+(n if r.random()<.5 else 0) for i in range(m)]))
        L.append(('second',[n+(i%n) for i in range(m)]))
    else:
        L.append(('broadcast',[r.randrange(n)]*m))
        s=r.randrange(n); L.append(('rotate',[(i+s)%n for i in range(m)]))
        L.append(('stride',[(2*i+1)%n for i in range(m)]))
    if m<=t:
        p=list(range(t)); r.shuffle(p); L.append(('perm',p[:m]))
    for j in range(nrand): L.append(('random%d'%j,[r.randrange(t) for _ in range(m)]))
    # drop duplicates
    seen=set(); o=[]
    for nm,l in L:
        if tuple(l) not in seen: seen.add(tuple(l)); o.append((nm,l))
    return o
o=[]; fn=0; body=[]
def flush():
    global fn,body
    if body:
        o.append(f"fn part{fn}(c: &mut Ctx) {{\n"+"\n".join(body)+"\n}"); fn+=1; body=[]
cnt=0
for pat,k,b,ns in fam:
    for n in ns:
        for m in ns:
            if m==1: continue
            for two in (False,True):
                for nm,l in lists(n,m,two):
                    ix=', '.join(map(str,l)); s=pat%n; d=pat%m
                    body.append(f"    {'sh2' if two else 'sh1'}!(c, \"{s}\", \"{nm}->{d} {l}\", {s}, K::{k}({b}), {n}, {d}, {m}, [{ix}]);"); cnt+=1
    flush()
o.append("fn gen(c: &mut Ctx) {\n"+"\n".join(f"    part{i}(c);" for i in range(fn))+"\n}")
open(out,'w').write("\n".join(o)+"\n"); print(cnt)
