#!/usr/bin/env python3-vt
"""check.py ID quick|thorough: decides one property.

1. clang parses /repo's current sources; every function under contract for the property is verified
   (vc/exec.py generates the obligations, vc/solve.py discharges them with z3 / cvc5).
2. The bounded harness, compiled from /repo's current sources, looks for a concrete failing input.
3. Verdict: a concrete failing input or an obligation that is not discharged is a violation."""
import sys, os, time, json, subprocess, tempfile, shutil, struct, threading, traceback, re
V=os.path.dirname(os.path.abspath(__file__))
sys.path[:0]=[V+'/vc',V+'/contracts']
T0=time.time()
PID=sys.argv[1]; TIER=sys.argv[2] if len(sys.argv)>2 else os.environ.get('VERIF_TIER','quick')
SEED=int(os.environ.get('VERIF_SEED','1') or 1)
sys.path.insert(0,V)
from props import INFO, DEPS
info=INFO[PID]
THOROUGH=TIER=='thorough'
EVD=os.path.join(V,'evidence'); RPD=os.path.join(EVD,'replay')
os.makedirs(RPD,exist_ok=True)
W=tempfile.mkdtemp(prefix=f'vc_{PID}_')
def build():
    p=subprocess.run(['bash',V+'/harness/build.sh',W+'/h'],capture_output=True,text=True)
    BUILD['rc']=p.returncode; BUILD['err']=p.stderr[-3000:]; BUILD['t']=time.time()-T0
BUILD={}
def prove():
    """returns dict: functions, lemmas, failed obligations, undecided functions"""
    r=dict(functions=[],lemmas=[],failed=[],undecided=[],obs=0,ok=0,time=0.0,backends={},assumed=[],called={},builtins=set(),inlined=set())
    try:
        import run, sym, solve, spec
        from program import Program
        from exec import Mismatch, Unsupported
        ids={PID}|(set(DEPS.get(PID,())) if THOROUGH else set())
        spec.ACTIVE[0]=ids
        cs=run.contracts()
        prog=Program(cs)
        if prog.errs: r['undecided'].append(('front end','; '.join(prog.errs[:3]))); return r
        mine=[c for c in cs.values() if set(c.props)&ids and not c.inline]
        r['assumed']=[f'{c.name}: {c.assumed}' for c in mine if c.assumed]
        spec.LEMMA_USED.clear()
        allobs=[]; gens=[]
        used=set()
        for c in mine:
            if c.assumed: continue
            t=time.time(); spec.LEMMA_USED.clear()
            try: ex,obs=run.gen(prog,c)
            except (Mismatch,Unsupported) as e: r['undecided'].append((c.name,f'{type(e).__name__}: {e}')); continue
            except RecursionError as e: r['undecided'].append((c.name,'front end recursion')); continue
            except Exception as e:
                r['undecided'].append((c.name,f'engine: {type(e).__name__}: {e}')); continue
            used|=spec.LEMMA_USED
            if not solve.consistent(ex.prehyps): r['failed'].append(dict(function=c.name,kind='vacuity',desc='the preconditions are contradictory',line=0,status='vacuous',log=[])); continue
            gens.append((c,ex,obs)); allobs+=obs
            r['called'][c.name]=sorted(ex.used_contracts); r['builtins']|=ex.used_builtins; r['inlined']|=ex.inlined
        # lemmas: all entries of every lemma family used, transitively
        spec.LEMMA_USED.clear()
        L=run.lemmas()
        todo=set(used); fam=set(); sel=[]
        while todo:
            n=todo.pop(); fam.add(n)
            es=[o for o in L if o.desc.startswith(n)]
            if not es: r['failed'].append(dict(function='lemma',kind='lemma',desc=f'{n}: no proof',line=0,status='missing',log=[]))
            for o in es:
                if o not in sel: sel.append(o); todo|=(o.uses-fam)
        for o in L:
            if PID in o.props and o not in sel: sel.append(o)
        deadline=time.time()+(400 if THOROUGH else 150)
        solve.discharge(sel+allobs,10 if not THOROUGH else 20,8,deadline)
        bad=[o for o in sel+allobs if o.status!='proved']
        if bad:
            th.join()   # retry without the compiler competing for the processors
            solve.discharge(bad,40,8,time.time()+(300 if THOROUGH else 150))
        for o in sel+allobs:
            r['obs']+=1; r['time']+=getattr(o,'time',0) or 0
            if o.status=='proved': r['ok']+=1; r['backends'][o.solver]=r['backends'].get(o.solver,0)+1
        r['lemmas']=[dict(name=o.desc,status=o.status,backend=o.solver) for o in sel]
        for o in sel:
            if o.status!='proved': r['failed'].append(fail(o,'lemma',solve))
        for c,ex,obs in gens:
            b=[o for o in obs if o.status!='proved']
            r['functions'].append(dict(function=c.name,obligations=len(obs),discharged=len(obs)-len(b),returns=ex.nreturns,solver_s=round(sum(getattr(o,'time',0) or 0 for o in obs),2),calls=sorted(ex.used_contracts),inlined=sorted(ex.inlined)))
            why=run.restructured(ex,c) if b else None
            if why: r['undecided'].append((c.name,f'{len(b)} obligations not discharged, first: line {b[0].line} [{b[0].kind}] {b[0].desc}; the proof does not fit the function any more: {why}'))
            else: r['failed']+=[fail(o,c.name,solve) for o in b]
    except Exception as e:
        r['undecided'].append(('verifier',f'{type(e).__name__}: {e}')); r['tb']=traceback.format_exc()
    return r
def fail(o,fn,solve):
    d=dict(function=fn,kind=o.kind,desc=o.desc,line=o.line,status=o.status,log=getattr(o,'log',[]))
    if getattr(o,'smt',None): d['model']=solve.model(o.smt)[:6000]
    return d
def harness(seconds):
    """8 searchers on interleaved indices; returns (evaluations, nontrivial, first failure or None)"""
    ps=[]
    for k in range(8):
        td=f'{W}/t{k}'; os.makedirs(td,exist_ok=True)
        o=open(f'{W}/o{k}','w')
        ps.append((k,o,subprocess.Popen([W+'/h/harness',PID,str(SEED),str(seconds),f'{W}/s{k}',td,'-1',str(k),'8'],stdout=o,stderr=subprocess.STDOUT,env=ENV,cwd=td)))
    ev=nt=0; bad=[]
    for k,o,p in ps:
        try: rc=p.wait(seconds+90)
        except subprocess.TimeoutExpired: p.kill(); p.wait(); rc=-9
        o.close(); txt=open(f'{W}/o{k}',errors='replace').read()
        m=re.search(r'DONE evaluations=(\d+) nontrivial=(\d+)',txt)
        if m: ev+=int(m[1]); nt+=int(m[2])
        if rc!=0:
            m=re.search(r'FAIL index=(\d+)',txt)
            idx=int(m[1]) if m else None
            if idx is None:
                try: idx=struct.unpack('<Q',open(f'{W}/s{k}','rb').read(8))[0]
                except Exception: idx=None
            bad.append((idx,rc,txt))
    return ev,nt,bad
def replay(idx):
    td=f'{W}/tr'; os.makedirs(td,exist_ok=True)
    try: p=subprocess.run([W+'/h/harness',PID,str(SEED),'60',W+'/sr',td,str(idx)],capture_output=True,text=True,errors='replace',timeout=120,env=ENV,cwd=td)
    except subprocess.TimeoutExpired as e: return 97,'replay: no answer in 120 s'
    return p.returncode,(p.stdout+p.stderr)
ENV=dict(os.environ,ASAN_OPTIONS='alloc_dealloc_mismatch=0:allocator_may_return_null=0:detect_leaks=0')
th=threading.Thread(target=build); th.start()
rc=0; viol=0; lines=[]
try:
    pr=prove(); tp=time.time()-T0
    th.join()
    if BUILD['rc']!=0:
        print('the sources of /repo do not build:\n'+BUILD['err']); sys.exit(2)
    allproved=not pr['failed'] and not pr['undecided'] and pr['functions']
    budget=(150 if THOROUGH else info.get('seconds',12 if allproved else 25))
    ev,nt,bad=harness(budget)
    if not bad and (pr['failed'] or pr['undecided']):
        SEED0=SEED; SEED+=1000003
        e2,n2,bad=harness(240 if THOROUGH else 45); ev+=e2; nt+=n2
    confirmed=None
    for idx,c,txt in sorted((b for b in bad if b[0] is not None),key=lambda b:b[0])[:4]:
        c2,out=replay(idx)
        if c2!=0: confirmed=(idx,c2,out); break
    rp=os.path.join(RPD,f'{PID}.txt')
    if os.path.exists(rp): os.unlink(rp)
    if confirmed:
        idx,c2,out=confirmed
        with open(rp,'w') as f:
            f.write(f'property {PID}: concrete failing input, found and replayed against the code compiled from /repo\n'
                    f'reproduce: bash {V}/harness/build.sh DIR && ASAN_OPTIONS=alloc_dealloc_mismatch=0 DIR/harness {PID} {SEED} 60 DIR/status DIR {idx}\n\n{out[-20000:]}\n')
            for b in pr['failed']: f.write(f"\nfailed obligation: {b['function']} line {b['line']} [{b['kind']}] {b['desc']} ({b['status']})\n")
        lines.append(f'VIOLATION property={PID} replay={rp}'); viol=1; rc=1
    elif pr['failed']:
        with open(rp,'w') as f:
            f.write(f'property {PID}: proof obligations generated from the current source that are no longer discharged\n')
            for b in pr['failed']:
                f.write(f"\nobligation: {b['function']} line {b['line']} [{b['kind']}] {b['desc']}\nresult: {b['status']}\nsolvers: {b['log']}\n")
                if b.get('model'): f.write('counterexample of the solver (values at the failing program point):\n'+b['model']+'\n')
        for b in pr['failed'][:6]: print(f"not discharged: {b['function']} line {b['line']} [{b['kind']}] {b['desc']} ({b['status']})")
        lines.append(f'VIOLATION property={PID} replay={rp} no-failing-input-found'); viol=len(pr['failed']); rc=1
    for n,w in pr['undecided']: print(f'undecided: {n}: {w}')
    if bad and not confirmed: print('searcher ended abnormally without a reproducible failing input:',[(b[0],b[1]) for b in bad][:4])
    sm=[replay(k)[1][:1500] for k in (0,8)]
    cov=dict(obligations=pr['obs'],discharged=pr['ok'],checker_cmd=f'python3-vt check.py {PID} {TIER}',
        trusted_base=['clang 18 front end (AST of the real sources)','vc/exec.py obligation generator and vc/builtins_.py models of std::vector, std::algorithm and Eigen fixed-size operations','/verif/stubs declarations','z3, cvc5'],
        functions=pr['functions'],lemmas=pr['lemmas'],backends=pr['backends'],solver_s=round(pr['time'],1),
        modelled_library_operations=sorted(pr['builtins']),undecided=[list(u) for u in pr['undecided']],
        assumed_contracts=pr['assumed'],
        evaluations=ev,distinct_nontrivial=nt,
        rule='bounded search: inputs generated from seed and index by harness/common.cpp (valid objects with varied degrees, knots incl. repeated, weights, special parameters); a case counts as non-trivial when the checked comparison was reached with a non-degenerate object; distinct by index',
        samples=sm,not_discharged=[{k:b[k] for k in('function','kind','desc','line','status')} for b in pr['failed']],
        explanation=info['note'])
    json.dump(dict(property=PID,tier=TIER if TIER in('quick','thorough') else 'quick',seed=int(os.environ.get('VERIF_SEED','1') or 1),level=info['level'] if not pr['undecided'] or info['level']=='exploration' else 'exploration',coverage=cov,
        assumptions=info['assumptions']+[a for a in pr['assumed']],wall_s=round(time.time()-T0,1),violations=viol),open(f'{EVD}/{PID}.json','w'),indent=1)
    print(f"{PID}: {pr['ok']}/{pr['obs']} obligations discharged in {len(pr['functions'])} functions ({tp:.0f}s), {ev} bounded evaluations, {time.time()-T0:.0f}s")
    for l in lines: print(l)
finally:
    th.join(); shutil.rmtree(W,ignore_errors=True)
sys.exit(rc)
