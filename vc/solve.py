"""Discharges obligations with SMT solvers (z3 and cvc5, as separate processes)."""
import z3, subprocess, os, time, tempfile, hashlib, shutil
from concurrent.futures import ThreadPoolExecutor
Z3NEW=shutil.which('z3-new') or 'z3'
CVC5=shutil.which('cvc5')
BACK=[
 ('z3',lambda f,t:[Z3NEW,f'-T:{t}',f]),
 ('cvc5',lambda f,t:[CVC5,f'--tlimit={t*1000}','--nl-ext-tplanes',f]),
 ('z3-arith2',lambda f,t:[Z3NEW,f'-T:{t}','smt.arith.solver=2','smt.mbqi=false',f]),
 ('z3-nlsat',lambda f,t:[Z3NEW,f'-T:{t}','smt.arith.nl.grobner=true','smt.random_seed=7','smt.qi.eager_threshold=30',f]),
]
def consts_of(e,memo):
    k=e.get_id()
    if k in memo: return memo[k][1]
    out=set(); seen=set(); stack=[e]
    while stack:
        x=stack.pop(); i=x.get_id()
        if i in seen: continue
        seen.add(i)
        if z3.is_quantifier(x): stack.append(x.body()); continue
        if z3.is_app(x) and x.decl().kind()==z3.Z3_OP_UNINTERPRETED: out.add(x.decl().name())
        stack.extend(x.children())
    memo[k]=(e,out); return out
def relevant(hyps,goal,depth,memo):
    syms=set(consts_of(goal,memo)); chosen=[False]*len(hyps)
    for _ in range(depth):
        new=set()
        for i,h in enumerate(hyps):
            if chosen[i]: continue
            c=consts_of(h,memo)
            if not c or c&syms: chosen[i]=True; new|=c
        if not new-syms: break
        syms|=new
    return [h for h,c in zip(hyps,chosen) if c]
_hq={}
def hq(e):
    k=e.get_id()
    if k in _hq: return _hq[k][1]
    seen=set(); st=[e]; r=False
    while st:
        x=st.pop()
        if z3.is_quantifier(x): r=True; break
        if x.get_id() in seen: continue
        seen.add(x.get_id()); st.extend(x.children())
    _hq[k]=(e,r); return r
def smt2(hyps,goal):
    s=z3.Solver(); s.add(*hyps); s.add(z3.Not(goal))
    t=s.to_smt2()
    return '(set-logic ALL)\n'+t
def run1(job):
    ob,texts,timeout,tmp,deadline=job
    t0=time.time()
    res='unknown'; who=None
    # schedule: quick z3 with all facts, then cvc5, then variants on filtered facts
    sched=[(0,'z3',1),('t','z3',1),('q','z3',1),(0,'cvc5',4),(0,'z3',max(2,timeout//4)),('q','z3',2),('q','cvc5',2)]
    sched=[x for x in sched if x[0] in texts]; num=[i for i in texts if i not in('q','t') and i>0]
    for i in num: sched.append((i,'z3',max(2,timeout//3)))
    sched+=[(0,'z3-arith2',timeout//2),(0,'z3-nlsat',timeout//2)]
    for i in num: sched.append((i,'cvc5',max(2,timeout//3)))
    sched+=[(0,'z3',timeout),(0,'cvc5',timeout)]
    B=dict(BACK)
    sat=False
    log=[]
    for ti,b,tl in sched:
        if deadline is not None and time.time()+tl>deadline: log.append('out of time'); break
        fn=os.path.join(tmp,f'{id(ob)}_{ti}.smt2')
        if not os.path.exists(fn): open(fn,'w').write(texts[ti])
        try: out=subprocess.run(B[b](fn,tl),capture_output=True,text=True,timeout=tl+5).stdout
        except subprocess.TimeoutExpired: log.append(f'{b}: timeout'); continue
        log.append(f'{b} ({tl}s): '+out.strip()[:200])
        l=out.strip().split('\n')[0] if out.strip() else ''
        if l=='unsat': res='proved'; who=b; break
        if l=='sat' and ti==0: res='refuted'; who=b; ob.smt=texts[0]; break
    for i in texts:
        try: os.unlink(os.path.join(tmp,f'{id(ob)}_{i}.smt2'))
        except OSError: pass
    ob.log=log; ob.status=res; ob.solver=who; ob.time=time.time()-t0
    return ob
def discharge(obs,timeout=10,threads=8,deadline=None):
    tmp=tempfile.mkdtemp(prefix='vcsmt_')
    memo={}
    jobs=[];triv=[]
    try:
        for ob in obs:
            if z3.is_true(ob.goal): ob.status='proved'; ob.solver='trivial'; continue
            if any(z3.is_false(h) for h in ob.hyps): ob.status='proved'; ob.solver='trivial'; continue
            if any(h.eq(ob.goal) for h in ob.hyps): ob.status='proved'; ob.solver='trivial'; continue
            texts={0:smt2(ob.hyps,ob.goal)}
            if not hq(ob.goal):
                qf=[h for h in ob.hyps if not hq(h)]
                if len(qf)<len(ob.hyps): texts['q']=smt2(qf,ob.goal)
            gc=consts_of(ob.goal,memo); ti=[h for h in ob.hyps if consts_of(h,memo)<=gc]   # tight: only facts about the symbols of the goal
            if len(ti)<len(ob.hyps): texts['t']=smt2(ti,ob.goal)
            last=None
            for d in (1,2):
                r=relevant(ob.hyps,ob.goal,d,memo)
                if len(r)<len(ob.hyps) and len(r)!=last: texts[d]=smt2(r,ob.goal)
                last=len(r)
            jobs.append((ob,texts,timeout,tmp,deadline))
        with ThreadPoolExecutor(threads) as ex: list(ex.map(run1,jobs))
    finally: shutil.rmtree(tmp,ignore_errors=True)
    return obs
def model(text,t=10):
    """the solver's counterexample to a refuted obligation"""
    with tempfile.NamedTemporaryFile('w',suffix='.smt2') as f:
        f.write(text+'\n(get-model)\n'); f.flush()
        try: return subprocess.run([Z3NEW,f'-T:{t}',f.name],capture_output=True,text=True,timeout=t+5).stdout
        except subprocess.TimeoutExpired: return ''
def consistent(hyps,ms=2000):
    """vacuity canary: the assumptions must not be contradictory (as far as the solver can tell)"""
    s=z3.Solver(); s.set('timeout',ms); s.add(*hyps); return s.check()!=z3.unsat
