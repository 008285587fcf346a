#!/usr/bin/env python3
"""Generates harness/src/types.rs: macro lists of all public vector types."""
import os
W={8:[2,4,8,16,32,64],16:[2,4,8,16,32],32:[2,4,8,16],64:[2,4,8],128:[1,2,4]}
bm=lambda n:'u8' if n<=8 else 'u%d'%n
ints=[];floats=[];masks=[]
for b,ns in W.items():
    for n in ns:
        for s in 'iu':
            ints.append((f'{s}{b}x{n}',f'{s}{b}',s.upper(),b,n,f'm{b}x{n}',bm(n)))
        masks.append((f'm{b}x{n}',f'm{b}',b,n,bm(n)))
for n in (2,4,8):
    for s in 'iu':
        ints.append((f'{s}sizex{n}',f'{s}size',s.upper(),64,n,f'msizex{n}','u8'))
    masks.append((f'msizex{n}','msize',64,n,'u8'))
for b,ns in {32:[2,4,8,16],64:[2,4,8]}.items():
    for n in ns: floats.append((f'f{b}x{n}',f'f{b}',b,n,f'm{b}x{n}'))
o=['// @generated by tools/gentypes.py','']
def idx(n): return '('+' '.join(f'{i}' for i in range(n))+')'
def lst(name,rows):
    o.append('#[macro_export]\nmacro_rules! %s {\n    ($m:ident) => {'%name)
    for r in rows: o.append('        $m!(%s);'%', '.join(map(str,r)))
    o.append('    };\n}')
# ints:  (vec, elem, I|U, bits, lanes, maskvec, bitmask type, lane index list)
lst('for_ints',[r+(idx(r[4]),) for r in ints])
lst('for_sints',[r+(idx(r[4]),) for r in ints if r[2]=='I'])
lst('for_floats',[r+(idx(r[3]),) for r in floats])
lst('for_masks',[r+(idx(r[3]),) for r in masks])
# split lists for select etc.: all (mask, vec) pairs with same lane count
sel=[]
for m in masks:
    for v in [(i[0],i[2],i[3],i[4]) for i in ints]+[(f[0],'F',f[2],f[3]) for f in floats]+[(k[0],'M',k[2],k[3]) for k in masks]:
        if v[3]==m[3]: sel.append((m[0],m[2],v[0],v[1],v[2],m[3]))
lst('for_select',sel)
open(os.path.join(os.path.dirname(__file__),'..','harness','src','types.rs'),'w').write('\n'.join(o)+'\n')
print(len(ints),len(floats),len(masks),len(sel))
