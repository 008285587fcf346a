#!/usr/bin/env python3
"""Driver of all checks.

  check.py <ID> quick|thorough     decide one property on /repo's current working tree
  check.py --replay <file>         re-run the configuration and call recorded in a replay file

Builds the monitors of the property against /repo in several build configurations (in parallel), runs them with
VERIF_SEED, merges what they observed into evidence/<ID>.json and gives the verdict:
  exit 0  every observed event satisfied the property
  exit 1  at least one did not (VIOLATION line)
  exit 2  no verdict (harness could not be built or run): never reported as a violation
"""
import json, os, re, subprocess, sys, threading, time, shutil
V=os.path.dirname(os.path.abspath(__file__))
H=os.path.join(V,'harness'); TGT=os.path.join(V,'target'); GEN=os.path.join(V,'gen'); REP=os.path.join(V,'replays')
TRIPLE='x86_64-unknown-linux-gnu'
A2='+avx2,+fma,+bmi1,+bmi2,+lzcnt,+popcnt'
CFG={  # name: (rustflags, profile, scale factor)
 'sse2':('','release',1.0),
 'sse2-debug':('','dev',0.12),
 'ssse3':('-Ctarget-feature=+ssse3','release',0.5),
 'sse42':('-Ctarget-feature=+sse4.2,+popcnt','release',0.5),
 'avx':('-Ctarget-feature=+avx,+popcnt','release',0.5),
 'avx2':('-Ctarget-feature='+A2,'release',1.0),
 'avx512':('-Ctarget-feature='+A2+',+avx512f,+avx512bw,+avx512dq,+avx512vl,+avx512cd','release',0.5),
 'asan':('-Zsanitizer=address --cfg vmon_asan','san',0.2),
 'asan-avx2':('-Zsanitizer=address --cfg vmon_asan -Ctarget-feature='+A2,'san',0.2),
 'avx2-debug':('-Ctarget-feature='+A2,'dev',0.12),
 'avx-debug':('-Ctarget-feature=+avx','dev',0.12),
 'ssse3-debug':('-Ctarget-feature=+ssse3','dev',0.12),
 'native':('-Ctarget-cpu=native','release',0.5),
 'sse2-o1':('-Copt-level=1','release',0.5),
 'avx2-Os':('-Copt-level=s -Ctarget-feature='+A2,'release',0.5),
}
ISA=['sse2','sse2-debug','ssse3','sse42','avx','avx2','avx512']
MEM=['asan','asan-avx2']
# what each property's quick tier builds; thorough adds THOROUGH
P={f'C{i:02}':dict(bins=[f'c{i:02}'],cfgs=ISA,scale=2.0) for i in range(1,22)}
for i in ('C08','C09','C13','C14','C15'): P[i]['cfgs']=ISA+MEM
P['C19']['cfgs']=['sse2','sse2-debug','avx2']
P['C21']['cfgs']=['sse2','sse2-debug','sse42','avx2','avx512']
P['C12']['gen']=lambda seed,th: ('gen_c12.py','c12_gen.rs',[seed,6 if th else 1])
P['C20']['gen']=lambda seed,th: ('gen_c20.py','c20_gen.rs',[seed,900 if th else 160,30 if th else 24])
P['C20']['digests']=True
THOROUGH=['avx2-debug','avx-debug','ssse3-debug','native','sse2-o1','avx2-Os','asan','asan-avx2']
# full check of the monitors' observations under valgrind memcheck (thorough): uninitialised and stray accesses
VALGRIND={'C08','C09','C13','C14'}
RULE={
 'default':'Each evaluation is one call of the real library on operands drawn from boundary-value grids, random lane patterns and single-deviating-lane vectors, judged lane by lane by an independent scalar oracle. Distinct: distinct operand byte images per (type, operation), counted by hashing; every one counts as non-trivial because the oracle determines a result for it.',
 'C20':'Each evaluation is one execution of a generated program (single operation or random straight-line composition) on drawn inputs; fused and stepwise executions are compared in process and result digests across builds. Distinct: distinct result digests per program.',
}
def log(*a): print(*a,flush=True)
def env():
    e=dict(os.environ)
    out=subprocess.run(['bash','-c','. /opt/vp/env.sh >/dev/null 2>&1; env -0'],capture_output=True).stdout.decode()
    for kv in out.split('\0'):
        if '=' in kv:
            k,v=kv.split('=',1); e[k]=v
    for k in ('CARGO_INCREMENTAL','CARGO_PROFILE_DEV_DEBUG','CARGO_TARGET_DIR','RUSTFLAGS','CARGO_ENCODED_RUSTFLAGS'): e.pop(k,None)
    e['RUSTUP_TOOLCHAIN']=e.get('RUSTUP_TOOLCHAIN','nightly-2023-07-30')
    e['CARGO_NET_OFFLINE']='true'; e['VMON_GEN_DIR']=GEN
    return e
ENV=None
def build(cfg,bins,timeout):
    fl,prof,_=CFG[cfg]
    e=dict(ENV); e['CARGO_TARGET_DIR']=os.path.join(TGT,cfg); e['RUSTFLAGS']=(fl+' -Awarnings').strip()
    cmd=['cargo','build','--offline','--locked','--target',TRIPLE,'--profile',prof]
    for b in bins: cmd+=['--bin',b]
    try: r=subprocess.run(cmd,cwd=H,env=e,capture_output=True,timeout=timeout)
    except subprocess.TimeoutExpired: return False,'build timed out'
    return r.returncode==0,r.stderr.decode(errors='replace')
def binary(cfg,b):
    prof=CFG[cfg][1]
    return os.path.join(TGT,cfg,TRIPLE,'debug' if prof=='dev' else prof,b)
def run(cfg,b,seed,tier,scale,timeout,filt=None,valgrind=False):
    tag=f'{b}-{cfg}'+('-vg' if valgrind else '')+f'-{seed}'
    os.makedirs(os.path.join(TGT,'out'),exist_ok=True)
    out=os.path.join(TGT,'out',tag+'.json')
    if os.path.exists(out): os.remove(out)
    cmd=[binary(cfg,b),'--cfg',cfg,'--seed',str(seed),'--tier',tier,'--scale',str(scale),'--out',out]
    if filt: cmd+=['--filter',filt]
    e=dict(ENV); e['ASAN_OPTIONS']='exitcode=99:detect_leaks=0:allocator_may_return_null=1:handle_segv=1'
    if valgrind: cmd=['valgrind','-q','--error-exitcode=98','--track-origins=no','--max-stackframe=4000000']+cmd
    try: r=subprocess.run(cmd,env=e,capture_output=True,timeout=timeout)
    except subprocess.TimeoutExpired: return dict(rc='timeout',err='',data=None)
    err=r.stderr.decode(errors='replace')
    data=None
    if os.path.exists(out):
        try: data=json.load(open(out))
        except ValueError: data=None
        os.remove(out)
    return dict(rc=r.returncode,err=err,data=data)
def known(prop):
    k=[]
    f=os.path.join(V,'known-findings.txt')
    if os.path.exists(f):
        for l in open(f):
            m=re.match(r'known: property=(\S+) sig="([^"]*)" (.*)',l.strip())
            if m and m.group(1)==prop: k.append((m.group(2),m.group(3)))
    return k
def clean_sample(s): return s if len(s)<400 else s[:400]+'...'

def main():
    global ENV
    ENV=env()
    if sys.argv[1]=='--replay': return replay(sys.argv[2])
    prop=sys.argv[1]; tier=sys.argv[2] if len(sys.argv)>2 else os.environ.get('VERIF_TIER','quick')
    seed=int(os.environ.get('VERIF_SEED','1') or 1); th=tier=='thorough'
    d=P[prop]; t0=time.time()
    cfgs=list(d['cfgs'])
    if th: cfgs+=[c for c in THOROUGH if c not in cfgs]
    if d.get('gen'):
        os.makedirs(GEN,exist_ok=True)
        scr,o,args=d['gen'](seed,th)
        r=subprocess.run([sys.executable,os.path.join(V,'tools',scr),os.path.join(GEN,o)]+[str(a) for a in args],capture_output=True)
        if r.returncode: log('generator failed',r.stderr.decode()); return 2
    limit=float(os.environ.get('VMON_LIMIT','100000' if th else '800'))
    deadline=t0+limit
    sem_run=threading.Semaphore(8); sem_build=threading.Semaphore(8)
    R={}
    def one(cfg):
        with sem_build:
            if time.time()>deadline-20: R[cfg]=dict(state='late'); return
            tb=time.time(); ok,err=build(cfg,d['bins'],max(20,deadline-time.time()))
        x=dict(build_s=round(time.time()-tb,1),runs=[])
        R[cfg]=x
        if not ok: x['state']='nobuild'; x['err']=err; return
        x['state']='ok'
        for b in d['bins']:
            sc=CFG[cfg][2]*d['scale']
            if d.get('digests'): sc=1.0   # the same events in every build, so that the logs can be compared
            seeds=[seed] if not th or d.get('digests') else [seed,seed+1000,seed+2000]
            for s in seeds:
                with sem_run:
                    tr=time.time()
                    r=run(cfg,b,s,tier,sc,max(10,deadline-time.time()) if not th else 5400)
                    r['s']=round(time.time()-tr,1); r['bin']=b; r['seed']=s; r['scale']=sc
                    x['runs'].append(r)
                    if r['rc']!=0: break
            if th and cfg in('sse2','avx2') and prop in VALGRIND:
                with sem_run:
                    r=run(cfg,b,seed,'quick',0.02,5400,valgrind=True); r['bin']=b; r['seed']=seed; r['scale']=0.02; r['vg']=True; r['s']=0
                    x['runs'].append(r)
    ts=[threading.Thread(target=one,args=(c,)) for c in cfgs]
    for t in ts: t.start()
    for t in ts: t.join()
    viol=[]; err=[]; skipped=[]; tot=dict(evals=0,distinct=0,lanes=0); ops={}; types={}; extra={}; samples=[]; per={}
    dig={}
    for cfg in cfgs:
        x=R.get(cfg,dict(state='late'))
        if x['state']=='late': err.append(f'{cfg}: out of time before building'); continue
        if x['state']=='nobuild':
            errs=re.findall(r'^error.*(?:\n.*){0,6}',x['err'],re.M)
            others=[c for c in cfgs if R.get(c,{}).get('state')=='ok']
            compile_error=re.search(r'^error(\[E\d+\])?: (?!could not compile|linking)',x['err'],re.M) and not re.search(r'No space left|signal: 9|SIGKILL|internal compiler error|out of memory',x['err'])
            if d.get('digests') and others and compile_error:
                viol.append(dict(cfg=cfg,bin=d['bins'][0],what='build',sig=f'build {cfg}',detail=f'programs that compile in {others} do not compile in {cfg}: '+(errs[0][:600] if errs else '')))
            else: err.append(f'{cfg}: build failed\n'+'\n'.join(errs[:3])[:2500]+('' if errs else x['err'][-1500:]))
            continue
        for r in x['runs']:
            rc=r['rc']; vg=' (valgrind)' if r.get('vg') else ''
            where=dict(cfg=cfg,bin=r['bin'],seed=r['seed'],scale=r['scale'],tier='quick' if r.get('vg') else tier,valgrind=bool(r.get('vg')))
            if rc==78: skipped.append(cfg+': '+r['err'].strip()[-80:]); continue
            if r['data']:
                dt=r['data']
                if not r.get('vg'):
                    tot['evals']+=dt['evals']; tot['distinct']+=dt['distinct']; tot['lanes']+=dt['lanes']
                for a,bk in ((ops,'ops'),(types,'types'),(extra,'extra')):
                    for k,v in dt[bk].items(): a[k]=a.get(k,0)+v
                p=per.setdefault(cfg+vg,dict(evaluations=0,distinct=0,lanes_judged=0,build_s=x['build_s'],run_s=0))
                p['evaluations']+=dt['evals']; p['distinct']+=dt['distinct']; p['lanes_judged']+=dt['lanes']; p['run_s']=round(p['run_s']+r['s'],1)
                samples+= [f'[{cfg}] '+clean_sample(s) for s in dt['samples'][:3]]
                dig[cfg]=dt['digests']
            if rc==0 and r['data'] and r['data']['evals']>0: continue
            if rc==1 and r['data'] and r['data']['nviol']>0:
                for v in r['data']['violations']:
                    what,_,det=v.partition(': ')
                    viol.append(dict(where,what=what,sig=what,detail=det))
            elif rc==77:
                m=re.search(r'CRASH signal=(\d+) +(.*)',r['err'])
                viol.append(dict(where,what=re.sub(r' in=.*','',m.group(2)) if m else '?',sig=('crash '+re.sub(r' in=.*','',m.group(2))) if m else 'crash',detail='the process died inside the monitored call: '+(m.group(0) if m else r['err'][-300:])))
            elif rc==99 and 'AddressSanitizer' in r['err']:
                m=re.search(r'ERROR: AddressSanitizer: ([^\n]*)',r['err'])
                fr=re.findall(r'#\d+ 0x\w+ in ([^\n]*)',r['err'])[:6]
                viol.append(dict(where,what='asan',sig='asan '+(m.group(1).split(' ')[0] if m else ''),detail='AddressSanitizer: '+(m.group(1) if m else '')+' '+' <- '.join(fr)))
            elif rc==98 and r.get('vg'):
                viol.append(dict(where,what='valgrind',sig='valgrind '+r['err'][:80],detail=r['err'][:2000]))
            else: err.append(f'{cfg} {r["bin"]}: rc={rc}{vg} '+r['err'][-600:])
    ncmp=0
    if d.get('digests') and len(dig)>1:
        ref_cfg=[c for c in cfgs if c in dig][0]
        for c in cfgs:
            if c==ref_cfg or c not in dig: continue
            for k,v in dig[ref_cfg].items():
                if k in dig[c]:
                    ncmp+=1
                    if dig[c][k]!=v:
                        viol.append(dict(cfg=c,bin=d['bins'][0],seed=seed,scale=1.0,tier=tier,valgrind=False,what=k,sig='digest '+k,detail=f'results differ between builds {ref_cfg} ({v}) and {c} ({dig[c][k]})'))
                else: err.append(f'{c}: event "{k}" missing')
        extra['program digests compared across builds']=ncmp
    elif d.get('digests') and not viol: err.append('fewer than two builds to compare')
    kn=known(prop); seen_known={}; fresh=[]
    for v in viol:
        h=[k for k in kn if k[0]==v['sig']]
        if h: seen_known[h[0][0]]=h[0][1]
        else: fresh.append(v)
    ev=dict(property=prop,tier=tier,seed=seed,level='exploration',violations=len(fresh),wall_s=round(time.time()-t0,1),
        coverage=dict(evaluations=tot['evals'],distinct_nontrivial=tot['distinct'],rule=RULE.get(prop,RULE['default']),
            samples=samples[:40] or ['(none)'],lanes_judged=tot['lanes'],configurations=per,skipped=skipped,operations=len(ops),vector_types=len(types),
            events_per_operation=dict(sorted(ops.items(),key=lambda kv:-kv[1])[:80]) if prop not in('C12','C20') else {},events_per_type=types if prop!='C20' else {},monitor_counters=extra),
        assumptions=['x86-64 only; the configurations listed are those this CPU can run','oracle: scalar Rust arithmetic of the pinned toolchain and glibc libm'])
    os.makedirs(os.path.join(V,'evidence'),exist_ok=True)
    json.dump(ev,open(os.path.join(V,'evidence',prop+'.json'),'w'),indent=1)
    for s,w in seen_known.items(): log(f'KNOWN-FINDING: property={prop} {w} [{s}]')
    log(f'{prop} {tier} seed={seed}: {tot["evals"]} calls observed, {tot["distinct"]} distinct, {len(ops)} operations, {len(types)} types, builds {list(per)}, {ev["wall_s"]} s')
    for s in skipped: log('skipped',s)
    if fresh:
        os.makedirs(REP,exist_ok=True)
        for e in err: log('note (no verdict from this part):',e[:500])
        seen=set(); n=0
        for v in fresh:
            if v['sig'] in seen: continue
            seen.add(v['sig'])
            if n<3:
                f=os.path.join(REP,f'{prop}-{n}.json'); json.dump(dict(property=prop,**v,how=f'python3 check.py --replay {f}'),open(f,'w'),indent=1)
                if d.get('gen'): shutil.copy(os.path.join(GEN,d['gen'](seed,th)[1]),REP)
                log(f'  {v["cfg"]}: {v["what"]}: {v["detail"][:700]}')
                log(f'VIOLATION property={prop} replay={f}')
            n+=1
        if n>3: log(f'  ... and {n-3} more failing calls')
        return 1
    if err:
        for e in err: log('NO VERDICT:',e)
        return 2
    if tot['evals']==0: log('NO VERDICT: nothing observed'); return 2
    return 0
def replay(f):
    v=json.load(open(f)); prop=v['property']; d=P[prop]
    if d.get('gen'):
        os.makedirs(GEN,exist_ok=True); o=d['gen'](v.get('seed',1),False)[1]
        shutil.copy(os.path.join(os.path.dirname(f),o),os.path.join(GEN,o))
    cs=[v['cfg']]+(['sse2'] if d.get('digests') and v['cfg']!='sse2' else [])
    for c in cs:
        ok,err=build(c,[v['bin']],3600)
        if not ok: print(err[-3000:]); continue
        r=run(c,v['bin'],v.get('seed',1),v.get('tier','quick'),v.get('scale',1.0),3600,None if v['what'] in('asan','valgrind','build') else v['what'],v.get('valgrind',False))
        print(c,'rc',r['rc']); print(r['err'][-4000:])
        if r['data']: print(json.dumps(dict(violations=r['data']['violations'],digests=r['data']['digests'] if d.get('digests') else None),indent=1))
    return 0
sys.exit(main())
