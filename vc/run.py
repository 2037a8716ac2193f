"""development driver: python3-vt vc/run.py [-v] [-t timeout] [substring...] verifies the contracts whose name contains a substring"""
import sys, os, time, importlib, glob, traceback
HERE=os.path.dirname(os.path.abspath(__file__)); sys.path[:0]=[HERE,os.path.join(os.path.dirname(HERE),'contracts')]
import sym
from program import Program
from exec import Exec, Mismatch, Unsupported, skeleton
import solve
MODS=['knots','grid','basis','curve','surface','insertion','bezier','box','surfins','removal','algo','geom','serial']
def contracts():
    d={}
    for m in MODS:
        if os.path.exists(os.path.join(os.path.dirname(HERE),'contracts',m+'.py')):
            for c in importlib.import_module(m).out: d[c.name]=c
    return d
def lemmas():
    from exec import Ob
    import spec
    out=[]
    for m in MODS:
        if os.path.exists(os.path.join(os.path.dirname(HERE),'contracts',m+'.py')):
            M=importlib.import_module(m)
            if hasattr(M,'lemmas'):
                spec.LEMMA_USED.clear()
                for nm,props,h,g in M.lemmas():
                    o=Ob('lemma','lemma',nm,0,list(h),g); o.props=props; o.uses=set(spec.LEMMA_USED); spec.LEMMA_USED.clear(); out.append(o)
    return out
def restructured(ex,c):
    """is the function built differently from the one the contract's invariants were written for: other loops, the same
    statements in another order, or statements of other kinds in place of former ones?"""
    import json
    from collections import Counter
    b=json.load(open(os.path.join(os.path.dirname(HERE),'contracts','shapes.json'))).get(c.name)
    if b is None: return None
    if ex.shape()!=b['loops']: return f'its loops are {ex.shape()}, the invariants describe {b["loops"]}'
    new=skeleton(ex.prog.bysig[c.name]); old=b['statements'].split(); n,o=Counter(new),Counter(old)
    if n==o and new!=old: return 'the same statements stand in another order'
    if n-o and o-n: return f'{dict(o-n)} replaced by {dict(n-o)}'
    return None
def gen(prog,c):
    sym.NANMODE[0]=c.nan
    f=prog.bysig.get(c.name)
    if f is None: raise Mismatch(f'function {c.name} not found')
    ex=Exec(prog,c.name)
    obs=ex.verify(c,f)
    return ex,obs
if __name__=='__main__':
    args=sys.argv[1:]; verbose='-v' in args; args=[a for a in args if a!='-v']
    to=10
    if '-t' in args: i=args.index('-t'); to=int(args[i+1]); del args[i:i+2]
    if '--shapes' in args:     # record the loop structure the contracts were written for
        import json
        cs=contracts(); prog=Program(cs); d={}
        for c in cs.values():
            if not c.inline and not c.assumed: d[c.name]=dict(loops=gen(prog,c)[0].shape(),statements=' '.join(skeleton(prog.bysig[c.name])))
        json.dump(dict(sorted(d.items())),open(os.path.join(os.path.dirname(HERE),'contracts','shapes.json'),'w'),indent=0); sys.exit(0)
    show='-s' in args; args=[a for a in args if a!='-s']
    if '-p' in args:      # only the clauses that these properties need
        import spec; i=args.index('-p'); spec.ACTIVE[0]=set(args[i+1].split(',')); del args[i:i+2]
    cs=contracts()
    t0=time.time(); prog=Program(cs)
    print('load',round(time.time()-t0,1),'errors',prog.errs[:3])
    ls=[o for o in lemmas() if not args or 'lemma' in args or any(a in o.props for a in args)]
    if ls:
        t0=time.time(); solve.discharge(ls,to); print('lemmas',sum(o.status=='proved' for o in ls),'/',len(ls),round(time.time()-t0,1))
        for o in ls:
            if o.status!='proved': print('   FAIL lemma',o.status,o.desc)
    for c in cs.values():
        if args and not any(a in c.name or a in c.props for a in args): continue
        if c.inline or c.assumed: continue
        t0=time.time()
        try: ex,obs=gen(prog,c)
        except (Mismatch,Unsupported) as e:
            print(f'{c.name}: UNDECIDED {type(e).__name__} {e}')
            if verbose: traceback.print_exc()
            continue
        t1=time.time()
        van='' if solve.consistent(ex.prehyps) else ' VACUOUS-PRE'
        solve.discharge(obs,to)
        bad=[o for o in obs if o.status!='proved']
        print(f'{c.name}: {len(obs)-len(bad)}/{len(obs)} gen {t1-t0:.1f}s solve {time.time()-t1:.1f}s{van} max {max([o.time for o in obs] or [0]):.1f} inl={sorted(ex.inlined)}')
        for o in obs:
            if o.time>3 and o.status=='proved': print('   slow',round(o.time,1),o.solver,o.kind,o.desc,o.line)
        if bad and restructured(ex,c): print('   RESTRUCTURED',restructured(ex,c))
        for o in bad: print('   FAIL',o.status,o.kind,o.desc,'line',o.line)
        if show:
            for o in bad:
                print('----',o.name)
                for h in o.hyps: print('   H',h)
                print('   G',o.goal)
