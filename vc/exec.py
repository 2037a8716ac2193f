"""Symbolic executor / verification-condition generator over the clang AST of the real sources.
Every function under contract is executed once on fully symbolic arguments; loops are cut by
invariants, calls to functions under contract are replaced by the callee's contract, everything
else is inlined.  The result is a list of proof obligations (assumptions |- goal)."""
import z3, re, time
from sym import *
import sym
from astload import params, body_of, walk, FUNCS
class Mismatch(Exception):
    """the code no longer has the shape the annotations were written for -> undecided, never an alarm"""

class Ob:
    __slots__=("fn","kind","desc","line","hyps","goal","pos","status","solver","time","model","props","uses","log","smt")
    def __init__(s,fn,kind,desc,line,hyps,goal): s.fn=fn; s.kind=kind; s.desc=desc; s.line=line; s.hyps=hyps; s.goal=goal; s.status=None; s.solver=None; s.time=0; s.model=None
    @property
    def name(s): return f'{s.fn}:{s.kind}:{s.desc}@{s.line}'

class State:
    __slots__=('store','pc')
    def __init__(s,store,pc): s.store=store; s.pc=pc
    def copy(s): return State(dict(s.store),list(s.pc))
    def assume(s,*f):
        for x in f:
            if isinstance(x,bool): x=z3.BoolVal(x)
            if z3.is_true(x): continue
            if z3.is_and(x): s.assume(*x.children()); continue
            s.pc.append(x)
class Frame:
    def __init__(s,fn,vars,this,parent,tu=None): s.fn=fn; s.vars=vars; s.this=this; s.parent=parent; s.names={}; s.lex=None; s.retref=False; s.retty=None
    def bind(s,decl,lv):
        s.vars[decl.id]=lv
        if decl.name: s.names[decl.name]=lv
class PtrV(V):
    def __init__(s,lv,elems=False): s.lv=lv; s.elems=elems   # elems: pointer to the first element of the container lv
class Strm_(V):
    pass
class Ret(Exception): pass

def npath(path):
    """normalised write path: struct fields up to the first index"""
    out=[]
    for s in path:
        if s[0]=='f': out.append(s)
        elif s[0]=='t': out.append(s)
        else: out.append(('[]',)); break
    return tuple(out)

def loopshape(n):
    """kind of a loop and the direction of its step"""
    if n.k=='ForStmt':
        d=''; todo=[n.kids[3]] if n.kids[3] is not None else []
        while todo:
            x=todo.pop()
            o=x.get('opcode') if x.k in('UnaryOperator','CompoundAssignOperator') else None
            if o in('++','+='): d+='+'
            elif o in('--','-='): d+='-'
            todo+=[c for c in x.kids if c is not None]
        c=[v.name for v in n.kids[0].kids if v.k=='VarDecl'] if n.kids[0] is not None and n.kids[0].k=='DeclStmt' else []
        return ' '.join(['for'+''.join(sorted(d)),*c])
    return {'WhileStmt':'while','DoStmt':'do'}.get(n.k,'range')
STMT={'IfStmt':'if','ForStmt':'for','WhileStmt':'while','DoStmt':'do','CXXForRangeStmt':'range','ReturnStmt':'return','DeclStmt':'decl','BreakStmt':'break','ContinueStmt':'continue','SwitchStmt':'switch'}
def skeleton(f):
    """kinds of the statements of a function in the order of the text"""
    out=[]
    def expr(n):      # bodies of lambdas
        for c in n.kids:
            if c is None: continue
            if c.k=='LambdaExpr':
                for b in c.kids:
                    if b is not None and b.k=='CompoundStmt': stmt(b)
            else: expr(c)
    def stmt(n):
        if n is None or n.k=='NullStmt': return
        if n.k=='CompoundStmt':
            for c in n.kids: stmt(c)
            return
        k=STMT.get(n.k)
        if k is None: out.append('expr'); expr(n); return
        out.append(k)
        if k in('if','while','do','for','switch'):
            for c in n.kids:
                if c is not None and (c.k in STMT or c.k in('CompoundStmt','NullStmt') ) and not (k=='for' and c.k=='DeclStmt'): stmt(c)
                elif c is not None and k!='for' and c is not n.kids[0] : stmt(c)
                elif c is not None and k=='for' and c is n.kids[-1]: stmt(c)
        elif k=='range': stmt(n.kids[-1])
        else: expr(n)
    for c in f.kids:
        if c is not None and c.k=='CompoundStmt': stmt(c)
    return out
class Exec:
    def __init__(s,prog,fnname):
        s.prog=prog; s.fnname=fnname; s.obs=[]; s.dry=0; s.nloc=0; s.st=None; s.frame=None; s.throws=[]; s.written=None
        s.loopno=0; s.loopord={}; s.contract=None; s.depth=0; s.entry=None; s.used_contracts=set(); s.prior={}; s.used_builtins=set(); s.inlined=set(); s.qcache={}; s.numends={}; s.shapeof={}; s.havocs=0
        s.line=0; s.predmode=0
    def shape(s): return [s.shapeof[k] for k,_ in sorted(s.loopord.items(),key=lambda x:x[1])]
    # ------------------------------------------------ basics
    def alloc(s,v):
        s.nloc+=1; s.st.store[s.nloc]=v; return LVal(s.nloc)
    def ob(s,kind,desc,goal,line=None):
        if s.dry:
            if s.predmode and not z3.is_true(z3.simplify(goal if not isinstance(goal,bool) else z3.BoolVal(goal))): raise Unsupported('obligation inside a predicate')
            return
        if isinstance(goal,bool): goal=z3.BoolVal(goal)
        if z3.is_and(goal) and any(REG.get(c.get_id()) for c in goal.children()):
            for i,c in enumerate(goal.children()): s.ob(kind,f'{desc}.{i}',c,line)
            return
        if z3.is_implies(goal) and REG.get(goal.arg(1).get_id()):
            k=s.st; s.st=k.copy(); s.st.assume(goal.arg(0)); s.ob(kind,desc,goal.arg(1),line); s.st=k; return
        sk=skolemise(goal,s.st.pc)
        if sk is not None:
            k=s.st; s.st=k.copy(); s.st.pc=list(k.pc)+sk[1]
            for h in sk[0]:
                if isinstance(h,Focus): s.focus(s.st,h,'hint',desc); continue
                if not trusted(h): s.obs.append(Ob(s.fnname,'hint',desc,line or s.line,list(s.st.pc),h))
                s.st.pc.append(h)
            s.obs.append(Ob(s.fnname,kind,desc,line or s.line,list(s.st.pc),sk[2])); s.st=k; return
        g=z3.simplify(goal)
        s.obs.append(Ob(s.fnname,kind,desc,line or s.line,list(s.st.pc),goal if not z3.is_true(g) else z3.BoolVal(True)))
    def focus(s,state,h,kind,desc):
        """each fact from the full context, then the goal from the facts alone"""
        s.hint(state,h.facts); fs=[x.goal if isinstance(x,Focus) else x for x in h.facts]
        if h.qf: fs=[x for x in state.pc if not has_quant(x)]+fs
        if not s.dry:
            sk=skolemise(h.goal,fs)
            if sk is None: hy,g=fs,h.goal
            else:
                if not all(trusted(x) for x in sk[0]): raise Unsupported('hints of a focused goal must be lemma instances')
                hy,g=([x for x in fs if x.get_id() not in REG] if h.ground else fs)+sk[1]+sk[0],sk[2]
            su=[(t,z3.Const(fresh_name('gen'),t.sort())) for t in h.gen if not z3.is_const(t)]
            if su: hy=[z3.substitute(x,*su) for x in hy]; g=z3.substitute(g,*su)
            s.obs.append(Ob(s.fnname,kind,desc,s.line,hy,g))
        state.assume(h.goal)
    def hint(s,state,hs):
        """proof hints: ghost definitions and lemma instances are assumed, anything else is proved first"""
        for h in hs:
            g=h.goal if isinstance(h,Focus) else h
            if g.get_id() in {x.get_id() for x in state.pc}: continue      # already among the facts
            if isinstance(h,Focus): s.focus(state,h,'hint','auxiliary fact'); continue
            if not trusted(h):
                k=s.st; s.st=state; s.ob('hint','auxiliary fact',h); s.st=k
            state.assume(h)
    def entails(s,f,ms=150):
        if s.dry: ms=min(ms,60)
        f=z3.simplify(f)
        if z3.is_true(f): return True
        if z3.is_false(f): return False
        sol=z3.Solver(); sol.set('timeout',ms)
        for p in s.st.pc:
            if not has_quant(p): sol.add(p)
        sol.add(z3.Not(f))
        return sol.check()==z3.unsat
    def feasible(s,c):
        c=z3.simplify(c)
        if z3.is_false(c): return False
        if z3.is_true(c): return True
        sol=z3.Solver(); sol.set('timeout',150)
        for p in s.st.pc:
            if not has_quant(p): sol.add(p)
        sol.add(c)
        return sol.check()!=z3.unsat
    # ------------------------------------------------ memory
    def step(s,v,p):
        k=p[0]
        if k=='f':
            if isinstance(v,Struct): return v.f[p[1]]
            if isinstance(v,Tup): return v.e[0 if p[1]=='first' else 1]
            raise Unsupported(f'field {p[1]} of {type(v).__name__}')
        if k=='i': return v.at(p[1])
        if k=='m':
            if isinstance(p[1],int): return v.e[p[1]]
            r=v.e[-1]
            for q in range(len(v.e)-2,-1,-1): r=ite(p[1]==q,v.e[q],r)
            return r
        if k=='ij': return v.at(p[1],p[2])
        if k=='seg': return Mat(p[2],1,v.e[p[1]:p[1]+p[2]])
        if k=='t': return v.e[p[1]]
        if k=='row': return Vec(REAL,v.cols,[z3.Select(a,p[1]) for a in v.a])
        if k=='col':
            return s.col_of(v,p[1])
        raise Unsupported('step '+k)
    def col_of(s,v,j):
        r=fresh(('vec',REAL),'col'); r.len=v.rows
        q=z3.Int(fresh_name('q'))
        for a,b in zip(r.arrs,v.a): s.st.assume(z3.ForAll([q],z3.Select(a,q)==z3.Select(z3.Select(b,q),j),patterns=[z3.Select(a,q)]))
        return r
    def put(s,v,path,new):
        if not path: return new
        p=path[0]; k=p[0]
        sub=lambda old: s.put(old,path[1:],new) if len(path)>1 else new
        if k=='f':
            if isinstance(v,Tup):
                i=0 if p[1]=='first' else 1
                e=list(v.e); e[i]=sub(e[i]); return Tup(v.tys,e)
            f=dict(v.f); f[p[1]]=sub(f[p[1]]); return Struct(v.name,f)
        if k=='i':
            nv=sub(v.at(p[1]) if len(path)>1 else None)
            fl=flat(nv)
            if len(fl)!=len(v.arrs): raise Unsupported('element shape')
            return Vec(v.ety,v.len,[z3.Store(a,p[1],x) for a,x in zip(v.arrs,fl)])
        if k=='m':
            e=list(v.e)
            if isinstance(p[1],int): e[p[1]]=sub(e[p[1]])
            else:
                nv=sub(s.step(v,p))
                e=[ite(p[1]==q,nv,x) for q,x in enumerate(e)]
            return Mat(v.r,v.c,e)
        if k=='ij':
            nv=flat(sub(v.at(p[1],p[2])))
            return DMat(v.rows,v.cols,[z3.Store(a,p[1],z3.Store(z3.Select(a,p[1]),p[2],x)) for a,x in zip(v.a,nv)])
        if k=='seg':
            m=sub(s.step(v,p)); e=list(v.e); e[p[1]:p[1]+p[2]]=m.e; return Mat(v.r,v.c,e)
        if k=='t':
            e=list(v.e); e[p[1]]=sub(e[p[1]]); return Tup(v.tys,e)
        if k=='row':
            r=sub(s.step(v,p)); return DMat(v.rows,v.cols,[z3.Store(a,p[1],x) for a,x in zip(v.a,r.arrs)])
        raise Unsupported('store '+k)
    def load(s,lv):
        if not isinstance(lv,LVal): return lv
        v=s.st.store.get(lv.loc)
        if v is None: raise Unsupported('load of unknown location')
        for p in lv.path: v=s.step(v,p)
        return v
    def store(s,lv,val):
        if not isinstance(lv,LVal): raise Unsupported('assignment to a temporary')
        val=s.load(val)
        if s.written is not None: s.written.add((lv.loc,npath(lv.path)))
        s.st.store[lv.loc]=s.put(s.st.store.get(lv.loc),lv.path,val)
    def index(s,lv,i,what='index'):
        """element of a Vec through an lvalue or value, with a bounds obligation"""
        v=s.load(lv)
        if isinstance(v,Vec):
            s.ob('bounds',f'{what} within 0..size-1',z3.And(i>=0,i<v.len))
            if isinstance(lv,LVal): return lv.ext(('i',i))
            return v.at(i)
        if isinstance(v,Mat):
            n=len(v.e); iv=z3.simplify(i)
            if z3.is_int_value(iv):
                q=iv.as_long()
                if not 0<=q<n: s.ob('bounds',what,False); q=0
                pi=q
            else:
                s.ob('bounds',f'{what} within vector',z3.And(i>=0,i<n)); pi=i
            if isinstance(lv,LVal): return lv.ext(('m',pi))
            return s.step(v,('m',pi))
        raise Unsupported(f'index of {type(v).__name__}')
    # ------------------------------------------------ state merging
    def merge(s,sts):
        """merge several states (all forked from a common prefix) into one"""
        sts=[x for x in sts if x is not None]
        r=sts[0]
        for x in sts[1:]: r=s.merge2(r,x)[0]
        return r
    def merge2(s,a,b,extra=None):
        n=0
        while n<len(a.pc) and n<len(b.pc) and a.pc[n] is b.pc[n]: n+=1
        ra,rb=a.pc[n:],b.pc[n:]
        sel=None
        if ra and rb:
            if z3.is_not(rb[0]) and rb[0].arg(0).eq(ra[0]): sel=ra[0]
            elif z3.is_not(ra[0]) and ra[0].arg(0).eq(rb[0]): sel=ra[0]
        if sel is None: 
            sel=z3.Bool(fresh_name('path'))
            pa=[z3.Implies(sel,f) for f in ra]; pb=[z3.Implies(z3.Not(sel),f) for f in rb]
        else:
            pa=[z3.Implies(sel,f) for f in ra[1:]]; pb=[z3.Implies(z3.Not(sel),f) for f in rb[1:]]
        pc=a.pc[:n]+pa+pb
        store={}
        for k in a.store.keys()|b.store.keys():
            if k not in a.store: store[k]=b.store[k]
            elif k not in b.store: store[k]=a.store[k]
            elif a.store[k] is b.store[k]: store[k]=a.store[k]
            else: store[k]=ite(sel,a.store[k],b.store[k])
        return State(store,pc),sel
    # ------------------------------------------------ statements: return list of (kind,state,value)
    def run(s,n,st):
        s.st=st
        if n is None: return [('norm',st,None)]
        if n.line: s.line=n.line
        m=getattr(s,'x_'+n.k,None)
        try:
            if m: return m(n,st)
            s.ev(n)
        except Thrown: return []
        return [('norm',s.st,None)]
    def seq(s,stmts,st):
        live=[st]; out=[]
        for c in stmts:
            nxt=[]
            for x in live:
                for k,t,v in s.run(c,x):
                    (nxt if k=='norm' else out).append((k,t,v) if k!='norm' else t)
            if len(nxt)>6:
                try: nxt=[s.merge(nxt)]
                except Unsupported: pass
            live=nxt
            if not live: break
        return out+[('norm',x,None) for x in live]
    def x_CompoundStmt(s,n,st): return s.seq(n.kids,st)
    def x_NullStmt(s,n,st): return [('norm',st,None)]
    def x_DeclStmt(s,n,st):
        for c in n.kids:
            if c.k=='VarDecl': s.decl(c)
            elif c.k=='DecompositionDecl': s.decomp(c)
            elif c.k in('TypeAliasDecl','TypedefDecl','CXXRecordDecl','UsingDecl','StaticAssertDecl','EmptyDecl','UsingDirectiveDecl'): pass
            else: raise Unsupported('decl '+c.k)
        return [('norm',s.st,None)]
    def decomp(s,c):
        init=[k for k in c.kids if k is not None and k.k!='BindingDecl'][0]
        v=s.ev(init)
        lv=v if (c.t.rstrip().endswith('&') and isinstance(v,LVal)) else s.alloc(s.load(v))
        bs=[k for k in c.kids if k is not None and k.k=='BindingDecl']
        val=s.load(lv)
        for i,b in enumerate(bs):
            if isinstance(val,Tup): x=lv.ext(('t',i))
            elif isinstance(val,Struct): x=lv.ext(('f',struct_fields(val.name)[i][0]))
            else: raise Unsupported('structured binding')
            s.frame.bind(b,x)
    def decl(s,c):
        t=c.t or ''
        isref=t.rstrip().endswith('&')
        kids=[k for k in c.kids if k is not None and not k.k.endswith('Attr') and k.k not in('FullComment',)]
        if not kids:
            ty=T.parse(t); s.frame.bind(c,s.alloc(fresh(ty,c.name or 'v'))); return
        v=s.ev(kids[0])
        if isref:
            lv=v if isinstance(v,LVal) else s.alloc(v)
            s.frame.bind(c,lv); return
        v=s.load(v)
        v=s.coerce(v,T.parse(t))
        s.frame.bind(c,s.alloc(v))
    def coerce(s,v,ty):
        if isinstance(v,Mat) and ty[0]=='mat' and (v.r,v.c)!=(ty[1],ty[2]) and len(v.e)==ty[1]*ty[2]: return Mat(ty[1],ty[2],v.e)
        return v
    def x_ReturnStmt(s,n,st):
        if n.kids:
            v=s.ev(n.kids[0])
            if not s.frame.retref: v=s.coerce(s.load(v),s.frame.retty) if s.frame.retty else s.load(v)
            return [('ret',s.st,v)]
        return [('ret',st,None)]
    def x_BreakStmt(s,n,st): return [('brk',st,None)]
    def x_ContinueStmt(s,n,st): return [('cont',st,None)]
    def branch(s,c,st,ft,ff):
        """run ft under c and ff under not c, merging normal outcomes"""
        c=z3.simplify(c)
        if z3.is_true(c): return ft(st)
        if z3.is_false(c): return ff(st)
        s.st=st
        out=[];norm=[]
        dead_t=dead_f=False
        if not s.dry:
            dead_t=not s.feasible(c)
            dead_f=(not dead_t) and not s.feasible(z3.Not(c))
        a=st.copy(); a.pc.append(c)
        b=st.copy(); b.pc.append(z3.Not(c))
        ra=ft(a) if not dead_t else []
        rb=ff(b) if not dead_f else []
        for r in (ra,rb):
            nn=[x for x in r if x[0]=='norm']
            out+= [x for x in r if x[0]!='norm']
            norm+=[x[1] for x in nn]
        if len(norm)>1:
            try: norm=[s.merge(norm)]
            except Unsupported: pass
        return out+[('norm',x,None) for x in norm]
    def x_IfStmt(s,n,st):
        kids=list(n.kids)
        if n.get('hasInit'): raise Unsupported('if with init')
        if n.get('hasVar'): raise Unsupported('if with var')
        if n.get('constexpr'): pass
        c=s.tobool(s.ev(kids[0]))
        th=kids[1]; el=kids[2] if len(kids)>2 else None
        return s.branch(c,s.st,lambda q:s.run(th,q),lambda q:s.run(el,q) if el is not None else [('norm',q,None)])
    def x_SwitchStmt(s,n,st):
        val=s.load(s.ev(n.kids[0])); st=s.st
        body=n.kids[-1]
        # flatten: list of (labels, stmts)
        groups=[]
        def unwrap(c,labels):
            while c.k in('CaseStmt','DefaultStmt'):
                if c.k=='CaseStmt': labels.append(c.kids[0]); c=c.kids[-1]
                else: labels.append(None); c=c.kids[-1]
            return c
        for c in body.kids:
            if c.k in('CaseStmt','DefaultStmt'):
                lb=[]; inner=unwrap(c,lb); groups.append((lb,[inner]))
            else: groups[-1][1].append(c)
        out=[]; covered=[]
        states=[]
        default=None
        for gi,(lb,_) in enumerate(groups):
            stm=[x for g in groups[gi:] for x in g[1]]
            cs=[]
            for l in lb:
                if l is None: default=stm
                else: cs.append(val==s.load(s.ev(l)))
            if cs: covered.append((z3.Or(cs),stm))
        def go(i,q):
            if i==len(covered):
                return s.seq(default,q) if default else [('norm',q,None)]
            c,stm=covered[i]
            return s.branch(c,q,lambda a:s.seq(stm,a),lambda b:go(i+1,b))
        res=go(0,st)
        fin=[];norm=[]
        for k,t,v in res:
            if k in('norm','brk'): norm.append(t)
            else: fin.append((k,t,v))
        if len(norm)>1:
            try: norm=[s.merge(norm)]
            except Unsupported: pass
        return fin+[('norm',x,None) for x in norm]
    # ------------------------------------------------ loops
    def x_ForStmt(s,n,st):
        init,_,cond,inc,body=n.kids
        if init is not None:
            r=s.run(init,st); st=r[0][1]
        ctr=None
        if init is not None and init.k=='DeclStmt':
            ctr=[c for c in init.kids if c.k=='VarDecl']
        return s.loop(n,st,cond,inc,body,ctr)
    def x_WhileStmt(s,n,st): return s.loop(n,st,n.kids[0],None,n.kids[1],None)
    def x_DoStmt(s,n,st): 
        # body; while(cond): execute the body once, then the loop
        body,cond=n.kids[0],n.kids[1]
        out=[]
        for k,t,v in s.run(body,st):
            if k in('norm','cont'): out+=s.loop(n,t,cond,None,body,None)
            elif k=='brk': out.append(('norm',t,None))
            else: out.append((k,t,v))
        return out
    def x_CXXForRangeStmt(s,n,st):
        kids=n.kids
        rng=[c for c in kids if c is not None and c.k=='DeclStmt']
        # DeclStmts: __range, __begin, __end, loop variable
        s.st=st
        rdecl=rng[0].kids[0]
        v=s.ev(rdecl.kids[0]); 
        val=s.load(v)
        if isinstance(val,(Opq,)): raise Unsupported('range-for over opaque')
        if not isinstance(v,LVal): v=s.alloc(val)
        lv=v
        var=rng[-1].kids[0]; body=kids[-1]
        cnt=s.alloc(I(0))
        n0=s.load(lv).len
        return s.loop(n,s.st,None,None,body,None,rangefor=(lv,cnt,n0,var))
    def locals_map(s):
        return s.frame
    def dry_run(s,n,st,cond,inc,body,rangefor,mods):
        """returns the locations (with normalised path) that one iteration may write"""
        keep=(s.st,s.written,s.throws,s.line,s.nloc)
        pre=set(st.store)
        s.dry+=1
        try:
            q=s.havoc(st.copy(),mods,quiet=True)
            s.written=set(); s.throws=[]
            s.st=q
            if rangefor: s.iter_head(rangefor); q=s.st
            elif cond is not None:
                s.ev(cond); q=s.st
            for k,t,v in s.run(body,q):
                if k in('norm','cont'):
                    s.st=t
                    if rangefor: s.store(rangefor[1],s.load(rangefor[1])+1)
                    elif inc is not None: s.ev(inc)
            w={(l,p) for l,p in s.written if l in pre}
        finally:
            s.dry-=1
            wr=s.written
            s.st,s.written,s.throws,s.line=keep[:4]
        return w
    def iter_head(s,rangefor):
        lv,cnt,n0,var=rangefor
        i=s.load(cnt)
        v=s.load(lv)
        s.ob('bounds','container not resized while iterating',v.len==n0)
        el=lv.ext(('i',i))
        if (var.t or '').rstrip().endswith('&'): s.frame.bind(var,el)
        else: s.frame.bind(var,s.alloc(s.load(el)))
    def havoc(s,st,mods,quiet=False):
        keep=s.st; s.st=st
        roots={}
        for l,p in mods: roots.setdefault(l,set()).add(p)
        for l,ps in roots.items():
            # drop paths that have a prefix in the set
            ps2=[p for p in ps if not any(p!=q and p[:len(q)]==q for q in ps)]
            for p in ps2:
                if p and p[-1]==('[]',):
                    base=LVal(l,p[:-1]); v=s.load(base)
                    if isinstance(v,Vec): nv=Vec(v.ety,v.len,fresh(('vec',v.ety),'h').arrs)
                    elif isinstance(v,DMat): nv=DMat(v.rows,v.cols,fresh(('dmat',),'h').a)
                    else: nv=s.freshlike(v)
                else:
                    base=LVal(l,p); v=s.load(base); nv=s.freshlike(v)
                st.store[l]=s.put(st.store[l],base.path,nv)
                for f in s.rangefacts(nv,v): st.assume(f)
        s.st=keep
        return st
    def freshlike(s,v,name='h'):
        if isinstance(v,Iter): return Iter(v.lv,z3.Int(fresh_name('it')),v.rev)
        if isinstance(v,PtrV): raise Unsupported('havoc of pointer')
        if isinstance(v,(Lam,FnRef)): return v
        if isinstance(v,Opq): return Opq(z3.Const(fresh_name('o'),v.t.sort()))
        ty=tyof(v); r=fresh(ty,name)
        return r
    def rangefacts(s,nv,old):
        # machine ranges of a havocked value; ints are at least within 64-bit
        if isinstance(nv,z3.ExprRef) and z3.is_int(nv): return [nv>=-2**63,nv<2**64]
        if isinstance(nv,Vec): return [nv.len>=0,nv.len<=SIZE_MAX]
        if isinstance(nv,Struct): return ranges(nv,('struct',nv.name))
        if isinstance(nv,DMat): return [nv.rows>=0,nv.cols>=0]
        return []
    def loopspec(s,n):
        if s.dry: return None
        key=n.id
        if key not in s.loopord:
            s.loopord[key]=s.loopno; s.loopno+=1; s.shapeof[key]=loopshape(n)
        o=s.loopord[key]
        L=s.contract.loops if s.contract else []
        return L[o] if o<len(L) else None
    def loop(s,n,st,cond,inc,body,ctr,rangefor=None):
        spec=s.loopspec(n)
        line=n.line
        if s.dry and s.dry>0:
            # only effects matter: run the body once (condition may be false)
            s.st=st
            out=[('norm',st,None)]
            q=st.copy(); s.st=q
            if rangefor: s.iter_head(rangefor)
            elif cond is not None: s.ev(cond)
            for k,t,v in s.run(body,s.st):
                if k in('norm','cont','brk'):
                    s.st=t
                    if k!='brk':
                        if rangefor: s.store(rangefor[1],s.load(rangefor[1])+1)
                        elif inc is not None: s.ev(inc)
                    out.append(('norm',s.st,None))
                else: out.append((k,t,v))
            norm=[x[1] for x in out if x[0]=='norm']
            rest=[x for x in out if x[0]!='norm']
            try: norm=[s.merge(norm)]
            except Unsupported: pass
            return rest+[('norm',x,None) for x in norm]
        # ---- complete unrolling when the trip count is a constant
        if spec is None or spec is UNROLL:
            r=s.unroll(n,st,cond,inc,body,rangefor,64)
            if r is not None: return r
            if spec is UNROLL: raise Mismatch(f'loop at line {line} cannot be unrolled completely')
        # ---- modified locations
        mods=set()
        for _ in range(6):
            w=s.dry_run(n,st,cond,inc,body,rangefor,mods)
            if rangefor: w=w|{(rangefor[1].loc,())}
            if w<=mods: break
            mods|=w
        pre=st; fr0=s.frame
        hold={}
        def ctx(state):
            c=LoopCtx(s,state,pre,fr0,mods,ctrloc,rangefor); c.headst=hold.get('hd'); return c
        s.lastctr=None
        auto=s.auto_inv(n,pre,cond,inc,ctr,rangefor,mods)
        ctrloc=s.lastctr
        if ctrloc is None and ctr: ctrloc=s.frame.vars[ctr[0].id].loc
        def invs(state):
            keep=s.st; s.st=state
            out=[]
            c=ctx(state)
            for nm,f in auto(state): out.append((nm,f))
            if spec is not None:
                for i,x in enumerate(spec.inv(c)):
                    nm,f=x if isinstance(x,tuple) else (f'inv{i}',x)
                    out.append((nm,f))
            s.st=keep
            return out
        def hints(state,which):
            if spec is None: return []
            h=getattr(spec,which,None)
            if h is None: return []
            keep=s.st; s.st=state
            r=list(h(ctx(state))); s.st=keep
            return r
        # init
        s.st=pre; s.line=line
        s.st=pre.copy(); s.hint(s.st,hints(s.st,'hints')); s.hint(s.st,hints(s.st,'init_hints'))
        for nm,f in invs(s.st): s.ob('inv-init',f'loop{s.loopord.get(n.id,"?")} {nm}',f,line)
        # arbitrary iteration
        hd=s.havoc(pre.copy(),mods)
        for nm,f in invs(hd): hd.assume(f)
        hold['hd']=hd.copy()
        s.hint(hd,hints(hd,'hints'))
        s.st=hd
        fr_names=dict(s.frame.names)
        if rangefor: c=s.load(rangefor[1])<rangefor[2]
        elif cond is None: c=z3.BoolVal(True)
        else: c=s.tobool(s.ev(cond))
        after=s.st
        dec0=None
        dec=None
        if spec is not None and spec.dec is not None: dec=lambda state: spec.dec(ctx(state))
        ex=after.copy(); ex.pc.append(z3.Not(c))
        bd=after.copy(); bd.pc.append(c)
        if dec is not None: dec0=dec(hold['hd'])
        out=[]; exits=[]
        if s_feas(s,ex): exits.append(ex)
        s.st=bd
        if rangefor: s.iter_head(rangefor)
        s.hint(s.st,hints(s.st,'body_hints'))
        res=s.run(body,s.st)
        ends=[]
        for k,t,v in res:
            if k in('norm','cont'): ends.append(t)
            elif k=='brk': exits.append(t)
            else: out.append((k,t,v))
        for t in ends:
            s.st=t
            if rangefor: s.store(rangefor[1],s.load(rangefor[1])+1)
            elif inc is not None: s.ev(inc)
            s.line=line
            s.hint(s.st,hints(s.st,'hints')); s.hint(s.st,hints(s.st,'step_hints'))
            for nm,f in invs(s.st): s.ob('inv-keep',f'loop{s.loopord.get(n.id,"?")} {nm}',f,line)
            if dec is not None:
                d1=dec(s.st)
                s.ob('terminates',f'loop{s.loopord.get(n.id,"?")} measure decreases',z3.And(d1<dec0 if z3.is_int(d1) else d1<=dec0-1,dec0>=0),line)
        s.frame.names=fr_names
        for e in exits:
            s.st=e; s.hint(e,hints(e,'exit_hints'))
        if len(exits)>1:
            try: exits=[s.merge(exits)]
            except Unsupported: pass
        return out+[('norm',e,None) for e in exits]
    def auto_inv(s,n,pre,cond,inc,ctr,rangefor,mods):
        """counter facts that every reader would write down: lower/upper limits of the loop counter"""
        modlocs={l for l,p in mods}
        if rangefor:
            lv,cnt,n0,var=rangefor
            return lambda st:[('range index',z3.And(st.store[cnt.loc]>=0,st.store[cnt.loc]<=n0))]
        facts=[]
        # which variable does the increment touch
        x=inc
        while x is not None and x.k in('ParenExpr','ExprWithCleanups'): x=x.kids[0]
        incs=[]
        def coll(x):
            if x is None: return
            if x.k in('ParenExpr','ExprWithCleanups'): return coll(x.kids[0])
            if x.k=='BinaryOperator' and x.get('opcode')==',':
                for k in x.kids: coll(k)
            elif x.k=='UnaryOperator' and x.get('opcode') in('++','--'): incs.append((x.kids[0],1 if x.get('opcode')=='++' else -1))
            elif x.k=='CompoundAssignOperator' and x.get('opcode') in('+=','-='): incs.append((x.kids[0],1 if x.get('opcode')=='+=' else -1))
        coll(x)
        var={}
        for e,d in incs:
            while e.k in('ParenExpr',): e=e.kids[0]
            if e.k=='DeclRefExpr':
                lv=s.frame_lookup(e.get('referencedDecl')['id'])
                if isinstance(lv,LVal) and not lv.path: var[lv.loc]=d
        s.lastctr=list(var)[0] if var else None
        # the body must not write it (only the increment does): checked by the obligations anyway
        for l,d in var.items():
            p0=pre.store.get(l)
            if isinstance(p0,z3.ExprRef) and z3.is_int(p0):
                facts.append(('counter start',(lambda st,l=l,p0=p0,d=d: st.store[l]>=p0 if d>0 else st.store[l]<=p0)))
        # comparison with a loop-invariant bound
        def conj(c):
            if c is None: return
            while c.k in('ParenExpr','ExprWithCleanups'): c=c.kids[0]
            if c.k=='BinaryOperator' and c.get('opcode')=='&&':
                yield from conj(c.kids[0]); yield from conj(c.kids[1])
            else: yield c
        def strip(e):
            while e.k in('ParenExpr','ImplicitCastExpr','ExprWithCleanups') : e=e.kids[0]
            return e
        for c in (conj(cond) if cond is not None else ()):
            if c.k!='BinaryOperator' or c.get('opcode') not in('<','<=','>','>=','!='): continue
            op=c.get('opcode'); a,b=c.kids
            for lhs,rhs,o in((a,b,op),(b,a,{'<':'>','<=':'>=','>':'<','>=':'<=','!=':'!='}[op])):
                e=strip(lhs)
                if e.k!='DeclRefExpr': continue
                lv=s.frame_lookup(e.get('referencedDecl')['id'])
                if not isinstance(lv,LVal) or lv.path or lv.loc not in var: continue
                d=var[lv.loc]; l=lv.loc; p0=pre.store[l]
                if not (isinstance(p0,z3.ExprRef) and z3.is_int(p0)): continue
                # rhs must not depend on modified locations: evaluate before and compare after havoc
                keep=(s.st,s.written,s.throws,s.line)
                s.dry+=1
                try:
                    s.st=pre.copy(); s.written=set(); s.throws=[]
                    v1=s.load(s.ev(rhs))
                    s.st=s.havoc(pre.copy(),mods); v2=s.load(s.ev(rhs))
                except Unsupported: v1=v2=None
                finally:
                    s.dry-=1; s.st,s.written,s.throws,s.line=keep
                if v1 is None or not isinstance(v1,z3.ExprRef) or not z3.is_int(v1): continue
                if not z3.simplify(v1).eq(z3.simplify(v2)): continue
                if d>0 and o in('<','!='): facts.append(('counter limit',lambda st,l=l,p0=p0,v1=v1: z3.Or(st.store[l]<=v1,st.store[l]<=p0)))
                if d>0 and o=='<=': facts.append(('counter limit',lambda st,l=l,p0=p0,v1=v1: z3.Or(st.store[l]<=v1+1,st.store[l]<=p0)))
                if d<0 and o=='>': facts.append(('counter limit',lambda st,l=l,p0=p0,v1=v1: z3.Or(st.store[l]>=v1,st.store[l]>=p0)))
                if d<0 and o=='>=': facts.append(('counter limit',lambda st,l=l,p0=p0,v1=v1: z3.Or(st.store[l]>=v1-1,st.store[l]>=p0)))
        return lambda st:[(nm,f(st)) for nm,f in facts]
    def unroll(s,n,st,cond,inc,body,rangefor,limit):
        """complete unrolling; None if some condition is not a constant"""
        nobs=len(s.obs); keep=(s.st,list(s.throws),s.loopno,dict(s.loopord),s.frame.names.copy())
        def bail():
            del s.obs[nobs:]; s.st=keep[0]; s.throws=keep[1]; s.loopno=keep[2]; s.loopord=keep[3]; s.frame.names=keep[4]; return None
        cur=[st.copy()]; out=[]; exits=[]
        for it in range(limit+1):
            nxt=[]
            for q in cur:
                s.st=q
                if rangefor: c=s.load(rangefor[1])<rangefor[2]
                elif cond is None: return bail()
                else: c=s.tobool(s.ev(cond))
                c=z3.simplify(c); q=s.st
                if z3.is_false(c): exits.append(q); continue
                if not z3.is_true(c): return bail()
                if it==limit: return bail()
                s.st=q
                if rangefor: s.iter_head(rangefor)
                for k,t,v in s.run(body,s.st):
                    if k in('norm','cont'):
                        s.st=t
                        if rangefor: s.store(rangefor[1],s.load(rangefor[1])+1)
                        elif inc is not None: s.ev(inc)
                        nxt.append(s.st)
                    elif k=='brk': exits.append(t)
                    else: out.append((k,t,v))
            if len(nxt)>1:
                try: nxt=[s.merge(nxt)]
                except Unsupported: pass
            cur=nxt
            if not cur: break
        if len(exits)>1:
            try: exits=[s.merge(exits)]
            except Unsupported: pass
        return out+[('norm',e,None) for e in exits]
    def frame_lookup(s,id):
        f=s.frame
        while f is not None:
            if id in f.vars: return f.vars[id]
            f=f.lex
        return None
    # ------------------------------------------------ expressions
    def ev(s,n):
        if n.line: s.line=n.line
        m=getattr(s,'e_'+n.k,None)
        if m is None: raise Unsupported('expression '+n.k)
        return m(n)
    def rv(s,n): return s.load(s.ev(n))
    def tobool(s,v):
        v=s.load(v)
        if isinstance(v,z3.ExprRef):
            if z3.is_bool(v): return v
            if z3.is_int(v) or z3.is_real(v): return v!=0
        if isinstance(v,Struct) and v.name in('$is','$os'): return z3.Not(v.fail)
        raise Unsupported(f'bool of {type(v).__name__}')
    def _pass(s,n): return s.ev(n.kids[0])
    e_ParenExpr=e_ExprWithCleanups=e_MaterializeTemporaryExpr=e_CXXBindTemporaryExpr=e_SubstNonTypeTemplateParmExpr=e_ConstantExpr=_pass
    def e_CXXDefaultInitExpr(s,n): raise Unsupported('default init')
    def e_ImplicitCastExpr(s,n):
        ck=n.get('castKind'); c=n.kids[0]
        if ck=='LValueToRValue': return s.rv(c)
        if ck in('NoOp','DerivedToBase','UncheckedDerivedToBase','FunctionToPointerDecay','ConstructorConversion','UserDefinedConversion','ArrayToPointerDecay','BuiltinFnToFnPtr','BitCast','FloatingCast','ToVoid','BaseToDerived'): return s.ev(c)
        if ck=='IntegralCast': return s.intcast(s.rv(c),c.t,n.t)
        if ck=='IntegralToFloating': 
            v=s.rv(c); return s.toreal(v)
        if ck in('IntegralToBoolean','FloatingToBoolean'):
            v=s.rv(c); return v!=0 if z3.is_expr(v) else s.tobool(v)
        if ck=='FloatingToIntegral':
            v=rval(s.rv(c)); ty=T.parse(n.t)
            lo,hi=intrange(ty)
            t=z3.If(v>=0,z3.ToInt(v),-z3.ToInt(-v))
            s.ob('overflow','double to int conversion in range',z3.And(t>=lo,t<=hi)); return t
        if ck=='NullToPointer': return PtrV(None)
        raise Unsupported('cast '+str(ck))
    e_CXXStaticCastExpr=e_CStyleCastExpr=e_CXXReinterpretCastExpr=e_CXXConstCastExpr=e_ImplicitCastExpr
    def e_CXXFunctionalCastExpr(s,n): 
        ck=n.get('castKind')
        return s.e_ImplicitCastExpr(n)
    def toreal(s,v):
        if z3.is_bool(v): v=z3.If(v,I(1),I(0))
        r=z3.ToReal(v)
        return Real(r,z3.BoolVal(False)) if NANMODE[0] else r
    def intcast(s,v,ft,tt):
        a,b=T.parse(ft),T.parse(tt)
        if z3.is_bool(v): return z3.If(v,I(1),I(0))
        if a[0]!='int' or b[0]!='int': return v
        lo,hi=intrange(b); alo,ahi=intrange(a)
        if alo>=lo and ahi<=hi: return v
        if z3.is_int_value(v) and lo<=v.as_long()<=hi: return v
        if s.entails(z3.And(v>=lo,v<=hi)): return v
        if b[1]==64 and not b[2]: return z3.If(v>=0,v,v+2**64)
        s.ob('overflow',f'conversion to {tt} keeps the value',z3.And(v>=lo,v<=hi))
        return v
    def e_DeclRefExpr(s,n):
        rd=n.get('referencedDecl')
        k=rd.get('kind')
        if k=='EnumConstantDecl': return I(s.prog.enumconst[rd['id']])
        if k in('VarDecl','ParmVarDecl','BindingDecl','DecompositionDecl'):
            lv=s.frame_lookup(rd['id'])
            if lv is not None: return lv
            return s.globalvar(rd)
        if k in('FunctionDecl','CXXMethodDecl'): return FnRef(s.prog.byid.get(rd['id']) or rd)
        raise Unsupported('reference to '+str(k))
    def globalvar(s,rd):
        nm=rd.get('name')
        g=s.prog.globals.get(rd['id']) or s.prog.byid.get(rd['id'])
        b=s.prog.builtins.globalvar(s,nm)
        if b is not None: return b
        if g is not None and g.kids:
            init=[k for k in g.kids if k is not None and not k.k.endswith('Attr')]
            if init:
                v=s.rv(init[-1]); return v
        raise Unsupported('global '+str(nm))
    def e_CXXThisExpr(s,n):
        f=s.frame
        while f is not None:
            if f.this is not None: return PtrV(f.this)
            f=f.lex
        raise Unsupported('this')
    def e_MemberExpr(s,n):
        base=s.ev(n.kids[0])
        if isinstance(base,PtrV): base=base.lv
        nm=n.name
        if nm is None: return base
        if nm and nm.startswith('.'): nm=nm[1:]
        if isinstance(base,LVal):
            v=s.load(base)
            return s.fieldlv(base,v,nm)
        if isinstance(base,Iter):
            pass
        return s.step(base,('f',nm))
    def fieldlv(s,base,v,nm):
        return base.ext(('f',nm))
    def e_IntegerLiteral(s,n): return I(int(n.get('value')))
    def e_FloatingLiteral(s,n): return rlit(n.get('value'))
    def e_CXXBoolLiteralExpr(s,n): return z3.BoolVal(bool(n.get('value')))
    def e_CharacterLiteral(s,n): return I(int(n.get('value')))
    def e_StringLiteral(s,n):
        import json
        try: v=json.loads(n.get('value'))
        except Exception: v=n.get('value').strip('"')
        import streams; return streams.lit(v)
    def e_CXXNullPtrLiteralExpr(s,n): return PtrV(None)
    def e_UnaryExprOrTypeTraitExpr(s,n):
        at=n.get('argType'); t=(at or {}).get('desugaredQualType') or (at or {}).get('qualType') or (n.kids[0].t if n.kids else '')
        sz={'int':4,'double':8,'Numeric':8,'libnurbs::Numeric':8,'char':1,'float':4,'unsigned long':8,'Vec4':32,'libnurbs::Vec4':32,'Eigen::Matrix<double, 4, 1>':32,'bool':1,'std::size_t':8,'size_t':8}.get(t)
        if sz is None: raise Unsupported('sizeof '+t)
        return I(sz)
    def e_UnaryOperator(s,n):
        op=n.get('opcode'); c=n.kids[0]
        if op in('++','--'):
            lv=s.ev(c); v=s.load(lv)
            if not isinstance(v,z3.ExprRef): raise Unsupported('++ on non-scalar')
            ty=T.parse(c.t)
            d=1 if op=='++' else -1
            if z3.is_real(v): nv=v+d
            else: nv=s.arith('+' if d>0 else '-',v,I(1),ty)
            s.store(lv,nv)
            return v if n.get('isPostfix') else lv
        if op=='*':
            v=s.ev(c)
            w=s.load(v)
            if isinstance(w,PtrV): return w.lv if not w.elems else s.index(w.lv,I(0))
            if isinstance(w,LVal): return w
            raise Unsupported('deref')
        if op=='&':
            v=s.ev(c)
            if isinstance(v,FnRef): return v
            if not isinstance(v,LVal): raise Unsupported('address of temporary')
            return PtrV(v)
        v=s.rv(c)
        if op=='!': return z3.Not(s.tobool(v))
        if op=='-':
            if isinstance(v,Real) or z3.is_real(v): return rneg(v)
            if z3.is_int_value(v): return I(-v.as_long())
            ty=T.parse(n.t); lo,hi=intrange(ty); s.ob('overflow','negation',z3.And(-v>=lo,-v<=hi)); return -v
        if op=='+': return v
        if op=='~':
            ty=T.parse(n.t)
            if z3.is_int_value(v) and not ty[2]: return I(2**ty[1]-1-v.as_long())
        raise Unsupported('unary '+op)
    def arith(s,op,a,b,ty):
        if z3.is_bool(a): a=z3.If(a,I(1),I(0))
        if z3.is_bool(b): b=z3.If(b,I(1),I(0))
        if op=='+': r=a+b
        elif op=='-': r=a-b
        elif op=='*': r=a*b
        elif op in('/','%'):
            s.ob('divzero','integer divisor is not zero',b!=0)
            # C++ truncates towards zero; z3 div is Euclidean
            bv=z3.simplify(b)
            if z3.is_int_value(bv) and bv.as_long()>0:
                if s.entails(a>=0): q=a/b
                else: q=z3.If(a>=0,a/b,-((-a)/b))
            elif s.entails(z3.And(a>=0,b>0)): q=a/b
            else: q=z3.If(a>=0,z3.If(b>0,a/b,-(a/(-b))),z3.If(b>0,-((-a)/b),(-a)/(-b)))
            return q if op=='/' else a-b*q
        else: raise Unsupported('int op '+op)
        r=z3.simplify(r) if z3.is_int_value(a) and z3.is_int_value(b) else r
        lo,hi=intrange(ty)
        if z3.is_int_value(r) and lo<=r.as_long()<=hi: return r
        if ty[2] or op=='*':
            s.ob('overflow',f'{op} does not overflow',z3.And(r>=lo,r<=hi))
            return r
        if s.entails(z3.And(r>=lo,r<=hi)): return r
        return z3.If(r<0,r+2**ty[1],z3.If(r>hi,r-2**ty[1],r))
    def binop(s,op,a,b,ty,lt=None):
        if isinstance(a,z3.ExprRef) and isinstance(b,z3.ExprRef) or isinstance(a,Real) or isinstance(b,Real):
            isr=isinstance(a,Real) or isinstance(b,Real) or z3.is_real(a) or z3.is_real(b)
            if op in('+','-','*','/','%'):
                if isr:
                    if op=='/': s.ob('divzero','divisor is not zero',rval(b)!=0)
                    return rop(op,a,b)
                return s.arith(op,a,b,ty)
            if op in('<','<=','>','>=','==','!='):
                if isr: return rcmp(op,a,b)
                if z3.is_bool(a)!=z3.is_bool(b):
                    if z3.is_bool(a): a=z3.If(a,I(1),I(0))
                    if z3.is_bool(b): b=z3.If(b,I(1),I(0))
                return s_cmp(op,a,b)
            if op in('&','|','^') and z3.is_bool(a) and z3.is_bool(b): return {'&':z3.And,'|':z3.Or,'^':z3.Xor}[op](a,b)
            if op in('&','&&'):
                av=z3.simplify(b)
                if op=='&' and z3.is_int_value(av) and av.as_long()==1: return a%2
            if op in('<<','>>') and z3.is_int_value(z3.simplify(b)):
                k=2**z3.simplify(b).as_long()
                return s.arith('*' if op=='<<' else '/',a,I(k),ty)
        raise Unsupported(f'binary {op}')
    def e_BinaryOperator(s,n):
        op=n.get('opcode'); l,r=n.kids
        if op=='=':
            v=s.rv(r); lv=s.ev(l); s.store(lv,v); return lv
        if op==',':
            s.ev(l); return s.ev(r)
        if op in('&&','||'):
            a=s.tobool(s.ev(l))
            a2=z3.simplify(a)
            if z3.is_true(a2): return s.tobool(s.ev(r)) if op=='&&' else a2
            if z3.is_false(a2): return s.tobool(s.ev(r)) if op=='||' else a2
            g=a if op=='&&' else z3.Not(a)
            b=s.under(g,lambda: s.tobool(s.ev(r)),z3.BoolVal(op!='&&'))
            return z3.And(a,b) if op=='&&' else z3.Or(a,b)
        a=s.rv(l); b=s.rv(r)
        return s.binop(op,a,b,T.parse(n.t))
    def under(s,g,f,default):
        """evaluate f only when g holds"""
        base=s.st
        if not s.dry and not s.feasible(g): return default
        q=base.copy(); q.pc.append(g); s.st=q
        try: v=f()
        except Thrown:
            s.st=base.copy(); s.st.pc.append(z3.Not(g)); return default
        q=s.st
        n=base.copy(); n.pc.append(z3.Not(g))
        s.st,_=s.merge2(q,n)
        return v
    def e_CompoundAssignOperator(s,n):
        op=n.get('opcode')[:-1]; l,r=n.kids
        b=s.rv(r); lv=s.ev(l); a=s.load(lv)
        ct=n.get('computeLHSType'); cty=T.parse((ct.get('desugaredQualType') or ct['qualType']) if ct else n.t)
        if cty[0]=='real' and isinstance(a,z3.ExprRef) and z3.is_int(a): a=s.toreal(a)
        v=s.binop(op,a,b,cty)
        lt=T.parse(l.t)
        if lt[0]=='int' and cty[0]=='int' and lt!=cty: v=s.intcast(v,(ct.get('desugaredQualType') or ct['qualType']),l.t)
        s.store(lv,v); return lv
    def e_ConditionalOperator(s,n):
        c=s.tobool(s.ev(n.kids[0])); c=z3.simplify(c)
        if z3.is_true(c): return s.ev(n.kids[1])
        if z3.is_false(c): return s.ev(n.kids[2])
        base=s.st
        a=base.copy(); a.pc.append(c); s.st=a
        try: va=s.load(s.ev(n.kids[1])); a=s.st
        except Thrown: a=None
        b=base.copy(); b.pc.append(z3.Not(c)); s.st=b
        try: vb=s.load(s.ev(n.kids[2])); b=s.st
        except Thrown: b=None
        if a is None and b is None: raise Thrown()
        if a is None: s.st=b; return vb
        if b is None: s.st=a; return va
        s.st,sel=s.merge2(a,b)
        return ite(sel,va,vb)
    def e_ArraySubscriptExpr(s,n):
        b=s.ev(n.kids[0]); i=s.rv(n.kids[1])
        if isinstance(b,PtrV): b=b.lv
        v=s.load(b)
        if isinstance(v,PtrV): b=v.lv
        return s.index(b,i,'array index')
    def e_InitListExpr(s,n):
        ty=T.parse(n.t)
        kids=n.kids
        if ty[0]=='struct' and ty[1][0]=='$': return s.prog.builtins.construct(s,ty,[k for k in kids if k is not None],'',n)
        if ty[0]=='struct':
            vals={}
            for (f,t),c in zip(struct_fields(ty[1]),kids): vals[f]=s.coerce(s.fieldinit(c,ty[1],f),t)
            for f,t in struct_fields(ty[1]):
                if f not in vals: vals[f]=s.default_field(ty[1],f,t)
            return Struct(ty[1],vals)
        if ty[0]=='vec':
            filler=n.get('array_filler')
            els=[s.rv(c) for c in kids if c is not None and c.k!='ImplicitValueInitExpr']
            if not els and filler: els=[s.rv(c) for c in filler if c.k!='ImplicitValueInitExpr']
            return s.mkvec(ty[1],els)
        if ty[0] in('int','real','bool') :
            return s.rv(kids[0]) if kids else s.zero(ty)
        if ty[0]=='tuple': return Tup(ty[1],[s.rv(c) for c in kids])
        if ty[0]=='mat' and kids: return Mat(ty[1],ty[2],[s.rv(c) for c in kids])
        raise Unsupported(f'init list {n.t}')
    def fieldinit(s,c,cls,f):
        if c.k=='CXXDefaultInitExpr': return s.default_field(cls,f,dict(struct_fields(cls))[f])
        return s.rv(c)
    def e_ImplicitValueInitExpr(s,n): return s.zero(T.parse(n.t))
    def e_CXXScalarValueInitExpr(s,n): return s.zero(T.parse(n.t))
    def e_CXXStdInitializerListExpr(s,n): return s.ev(n.kids[0])
    def mkvec(s,ety,els):
        v=fresh(('vec',ety),'init'); arrs=v.arrs
        for i,e in enumerate(els): arrs=[z3.Store(a,I(i),x) for a,x in zip(arrs,flat(e))]
        return Vec(ety,I(len(els)),arrs)
    def zero(s,ty):
        k=ty[0]
        if k=='int': return I(0)
        if k=='real': return rconst(0)
        if k=='bool': return z3.BoolVal(False)
        if k=='vec': return Vec(ty[1],I(0),fresh(ty,'e').arrs)
        if k=='struct': return s.default_struct(ty[1])
        if k=='tuple': return Tup(ty[1],[s.zero(t) for t in ty[1]])
        return fresh(ty,'u')     # Eigen fixed-size: uninitialised
    def default_struct(s,name):
        if name[0]=='$':
            import streams; return streams.default(name)
        return Struct(name,{f:s.default_field(name,f,t) for f,t in struct_fields(name)})
    def default_field(s,cls,f,t):
        for fn,ft,nd in T.structs[cls]['fields']:
            if fn==f:
                ks=[k for k in nd.kids if k is not None and not k.k.endswith('Attr') and 'Comment' not in k.k]
                if ks: return s.coerce(s.rv(ks[0]),t)
        if t[0] in('int','real','bool'): return fresh(t,'uninit_'+f)
        return s.zero(t)
    def e_CXXConstructExpr(s,n):
        ty=T.parse(n.t)
        args=[k for k in n.kids if k is not None]
        ct=n.get('ctorType'); ct=(ct.get('desugaredQualType') or ct.get('qualType')) if ct else ''
        if ty[0]=='struct' and ty[1][0]!='$': return s.construct(ty[1],args,ct)
        return s.prog.builtins.construct(s,ty,args,ct,n)
    e_CXXTemporaryObjectExpr=e_CXXConstructExpr
    def construct(s,cls,args,ct):
        cands=[]
        node=T.structs[cls]['node']
        ctors=[c for c in node.kids if c is not None and c.k=='CXXConstructorDecl']
        ctors+=[g for c in node.kids if c is not None and c.k=='FunctionTemplateDecl' for g in c.kids if g is not None and g.k=='CXXConstructorDecl']
        norm=lambda t: re.sub(r'\s*noexcept.*$','',t or '').replace(' ','')
        cand=[c for c in ctors if c.get('mangledName') and norm(c.t)==norm(ct)]
        if len(args)==1:
            # copy / move
            m=re.match(r'void \((const )?(.*?) ?&&?\)',ct)
            if m:
                pt=T.parse(m.group(2))
                if pt==('struct',cls): return s.rv(args[0])
        user=[c for c in cand if s.prog.definition(c) is not None and not s.prog.definition(c).get('explicitlyDefaulted') and not s.prog.definition(c).get('isImplicit')]
        if not user:
            if not args or all(a.k=='CXXDefaultArgExpr' for a in args): return s.default_struct(cls)
            if len(args)==1:
                v=s.rv(args[0])
                if isinstance(v,Struct) and v.name==cls: return v
            raise Unsupported(f'constructor {cls} {ct}')
        d=user[0]
        vals=[s.ev(a) if a.k!='CXXDefaultArgExpr' else None for a in args]
        this=s.alloc(None)
        con=s.prog.contract_for(s.prog.definition(d))
        if con is not None and not (s.contract is con and s.depth==0):
            s.st.store[this.loc]=s.default_struct(cls)
            s.call_contract(con,s.prog.definition(d),this,vals)
        else:
            s.call_body(s.prog.definition(d),this,vals,ctor=cls)
        return s.load(this)
    def e_CXXInheritedCtorInitExpr(s,n): raise Unsupported('inherited ctor')
    def e_LambdaExpr(s,n):
        # the closure class is the first kid; operator() its method
        rec=n.kids[0]; call=None; over=None
        for c in rec.kids:
            if c is None: continue
            if c.k=='CXXMethodDecl' and c.name=='operator()': call=c
            if c.k=='FunctionTemplateDecl':
                for g in c.kids:
                    if g is not None and g.k=='CXXMethodDecl' and g.name=='operator()': over=(over or [])+[g]
        return Lam(call,s.frame,over)
    def e_CXXThrowExpr(s,n):
        tn=''
        for x in walk(n):
            if x.t and x.k in('CXXConstructExpr','CXXTemporaryObjectExpr','CXXFunctionalCastExpr') and re.search(r'(error|invalid_argument|out_of_range|exception)',x.t): tn=x.t.split('::')[-1]; break
        s.throws.append((tn,s.st.copy()))
        s.st=s.st.copy(); s.st.pc.append(z3.BoolVal(False)); s.dead=True
        raise Thrown()
    def x_CXXThrowExpr(s,n,st):
        s.st=st
        try: s.e_CXXThrowExpr(n)
        except Thrown: return []
    def x_ExprWithCleanups(s,n,st):
        x=n.kids[0]
        if x.k=='CXXThrowExpr': return s.x_CXXThrowExpr(x,st)
        s.st=st; s.ev(x); return [('norm',s.st,None)]
    # ------------------------------------------------ calls
    def callee(s,c):
        while c.k in('ImplicitCastExpr','ParenExpr'): c=c.kids[0]
        return c
    def e_CallExpr(s,n):
        c=s.callee(n.kids[0]); args=n.kids[1:]
        if c.k!='DeclRefExpr': raise Unsupported('indirect call')
        rd=c.get('referencedDecl')
        d=s.prog.byid.get(rd['id'])
        return s.call(d,rd,None,args,n)
    def e_CXXMemberCallExpr(s,n):
        c=s.callee(n.kids[0]); args=n.kids[1:]
        if c.k!='MemberExpr': raise Unsupported('member call')
        base=s.ev(c.kids[0])
        if isinstance(base,PtrV): base=base.lv
        d=s.prog.byid.get(c.get('referencedMemberDecl'))
        return s.call(d,{'name':c.name},base,args,n)
    def e_CXXOperatorCallExpr(s,n):
        c=s.callee(n.kids[0]); args=n.kids[1:]
        rd=c.get('referencedDecl'); d=s.prog.byid.get(rd['id'])
        if rd.get('kind') in('CXXMethodDecl','CXXConversionDecl'):
            base=s.ev(args[0])
            if isinstance(base,PtrV): base=base.lv
            return s.call(d,rd,base,args[1:],n)
        return s.call(d,rd,None,args,n)
    def call(s,d,rd,this,args,n):
        nm=rd.get('name')
        df=s.prog.definition(d) if d is not None else None
        if isinstance(this,(LVal,Lam)):
            tv=s.load(this)
            if isinstance(tv,Lam): return s.call_lambda(tv,args,d)
        if df is None or s.prog.is_stub(df):
            if d is not None and nm=='operator=' and this is not None and s.prog.is_repo(d):
                v=s.rv(args[0]); s.store(this,v); return this
            return s.prog.builtins.call(s,d,nm,this,args,n)
        if nm=='operator=' and (df.get('isImplicit') or df.get('explicitlyDefaulted')):
            v=s.rv(args[0]); s.store(this,v); return this
        vals=s.evargs(df,args,d)
        if this is not None and not isinstance(this,LVal): this=s.alloc(this)
        con=s.prog.contract_for(df)
        if con is not None: return s.call_contract(con,df,this,vals)
        return s.call_body(df,this,vals)
    def evargs(s,df,args,d=None):
        vals=[]
        ps=params(df)
        for i,a in enumerate(args):
            if a.k=='CXXDefaultArgExpr':
                vals.append(s.default_arg(df,d,i)); continue
            v=s.ev(a)
            if not ps[i].t.rstrip().endswith('&'): v=s.coerce(s.load(v),T.parse(ps[i].t))
            vals.append(v)
        return vals
    def default_arg(s,df,d,i):
        for q in (df,d)+tuple(s.prog.decls(df)):
            if q is None: continue
            p=params(q)[i]
            ks=[k for k in p.kids if k is not None and not k.k.endswith('Attr')]
            if ks: return s.rv(ks[0])
        raise Unsupported('default argument')
    def call_lambda(s,lam,args,d=None):
        node=lam.node
        if d is not None and body_of(d) is not None: node=d
        if node is None: raise Unsupported('generic lambda')
        vals=s.evargs(node,args)
        return s.call_body(node,None,vals,lex=lam.frame)
    def apply_lambda(s,lam,vals):
        node=lam.node
        if node is None:
            node=[g for g in lam.over if body_of(g) is not None and 'auto' not in (params(g)[0].t or 'auto')]
            if not node: raise Unsupported('generic lambda')
            node=node[-1]
        return s.call_body(node,None,vals,lex=lam.frame)
    def call_body(s,f,this,vals,ctor=None,lex=None):
        if s.depth>12: raise Unsupported('call depth')
        ps=params(f)
        fr=Frame(f,{},this,s.frame); fr.lex=lex
        rt=rettype(f)
        fr.retref=rt.endswith('&'); fr.retty=None if rt in('void','') or ctor else T.parse(rt) if not rt.startswith('auto') else None
        for p,v in zip(ps,vals):
            if p.t.rstrip().endswith('&'):
                fr.bind(p,v if isinstance(v,LVal) else s.alloc(v))
            else: fr.bind(p,s.alloc(s.load(v)))
        s.inlined.add(f.d.get('qname') or f.name)
        old=s.frame; s.frame=fr; s.depth+=1; ln=s.line
        try:
            if ctor:
                vals={}
                s.st.store[this.loc]=Struct(ctor,{})
                inits={}
                for c in f.kids:
                    if c is not None and c.k=='CXXCtorInitializer':
                        ai=c.get('anyInit') or {}
                        if ai.get('name') and c.kids: inits[ai['name']]=c.kids[0]
                fs={}
                for fn,ft in struct_fields(ctor):
                    if fn in inits and inits[fn].k!='CXXDefaultInitExpr': v=s.coerce(s.rv(inits[fn]),ft)
                    else: v=s.default_field(ctor,fn,ft)
                    fs[fn]=v
                    s.st.store[this.loc]=Struct(ctor,dict(fs))
            res=s.run(body_of(f),s.st)
        finally:
            s.frame=old; s.depth-=1; s.line=ln
        rets=[(t,v) for k,t,v in res if k in('ret','norm')]
        if not rets:
            s.st=s.st.copy(); s.st.pc.append(z3.BoolVal(False))
            raise Thrown()
        st,v=rets[0]
        for t,w in rets[1:]:
            if isinstance(v,LVal) and isinstance(w,LVal):
                if (v.loc,v.path)!=(w.loc,w.path): raise Unsupported('merging returned references')
                st,sel=s.merge2(st,t)
            else:
                st2,sel=s.merge2(st,t)
                s.st=st2
                if v is not None: v=ite(sel,s_ld(s,st,v),s_ld(s,t,w))
                st=st2
        s.st=st
        return v
    # ------------------------------------------------ modular calls
    def call_contract(s,con,f,this,vals):
        s.used_contracts.add(con.name)
        ps=params(f)
        argv=[]; reflv=[]
        for p,v in zip(ps,vals):
            if p.t.rstrip().endswith('&'):
                lv=v if isinstance(v,LVal) else s.alloc(v)
                reflv.append(lv); argv.append(s.load(lv))
            else: reflv.append(None); argv.append(s.load(v))
        old=CallCtx(con,s.load(this) if this is not None and s.st.store.get(this.loc) is not None else None,argv,None,None)
        old.old=old
        for x in con.requires(old): 
            nm,g=x if isinstance(x,tuple) else ('pre',x)
            s.ob('precondition',f'{con.short}: {nm}',g)
        for x in con.requires(old): s.st.assume(x[1] if isinstance(x,tuple) else x)
        tc=con.throws(old)
        if con.throws_at is not None: tc=z3.Bool(fresh_name('throws'))
        # frame: fresh values for what the callee may modify
        newthis=old.this; newargs=list(argv)
        isconst=re.search(r'\)\s*const\b',f.t or '') is not None
        if this is not None and not isconst and 'this' in con.modifies:
            nv=s.fresh_typed(f,None,old.this); s.store(this,nv); newthis=nv
        for i,p in enumerate(ps):
            t=p.t.rstrip()
            if reflv[i] is not None and not t.startswith('const ') and con.pnames[i] in con.modifies:
                nv=s.freshlike(argv[i],con.pnames[i])
                strm=isinstance(nv,Struct) and nv.name in('$is','$os')
                if strm:     # the bytes of a stream are fixed (see streams.py)
                    for fx in ('B','open')+(('end',) if nv.name=='$is' else ()): nv.f[fx]=argv[i].f[fx]
                for q in s.rangefacts(nv,argv[i]): s.st.assume(q)
                if strm:
                    for fx in nv.f:
                        if nv.f[fx] is not argv[i].f[fx]: s.store(reflv[i].ext(('f',fx)),nv.f[fx])
                else: s.store(reflv[i],nv)
                newargs[i]=nv; s.prior[nv]=old
        if tc is not None and not z3.is_false(z3.simplify(tc)):
            t=s.st.copy(); t.pc.append(tc)
            if con.throws_at is not None:
                pt=CallCtx(con,newthis,newargs,None,old)
                for x in con.throws_at(pt): t.assume(x[1])
            s.throws.append((con.throw_type or '?',t))
            s.st.assume(z3.Not(tc))
        rt=rettype(f); ret=None
        if rt not in('void','') and f.k!='CXXConstructorDecl':
            if con.ret_lv:
                lv=con.ret_lv(s,old,this,reflv); 
                return lv
            ty=T.parse(rt) if not rt.startswith('auto') else con.ret_ty
            if con.value is not None: ret=con.value(old)
            else:
                ret=fresh(ty,con.short)
                for q in ranges(ret,ty): s.st.assume(q)
        post=CallCtx(con,newthis,newargs,ret,old)
        for x in con.ensures(post):
            x=x[1] if isinstance(x,tuple) else x; s.st.assume(x.goal if isinstance(x,Focus) else x)
        return ret
    def fresh_typed(s,f,_,v):
        nv=s.freshlike(v,'this')
        for q in s.rangefacts(nv,v): s.st.assume(q)
        return nv
    # ------------------------------------------------ entry point
    def verify(s,con,f):
        s.contract=con; s.topfn=f
        s.st=State({},[])
        ps=params(f)
        if len(ps)!=len(con.pnames): raise Mismatch(f'{con.name}: parameter count changed')
        owner=f.d.get('owner')
        isctor=f.k=='CXXConstructorDecl'
        static=f.get('storageClass')=='static' or s.prog.is_static(f)
        this=None; thisv=None
        if owner and not static and not owner.startswith('('):
            if not isctor:
                ty=('struct',owner)
                if owner in T.structs:
                    thisv=fresh(ty,'this'); this=s.alloc(thisv)
                    s.st.assume(*ranges(thisv,ty))
        vals=[];argv=[];reflv=[]
        for p,nm in zip(ps,con.pnames):
            ty=T.parse(p.t)
            v=s.prog.builtins.fresh_param(s,ty,nm)
            s.st.assume(*(ranges(v,ty) if ty[0] in('int','vec','struct','dmat','tuple') else []))
            argv.append(v)
            if p.t.rstrip().endswith('&'): lv=s.alloc(v); vals.append(lv); reflv.append(lv)
            else: vals.append(v); reflv.append(None)
        old=CallCtx(con,thisv,argv,None,None); old.old=old
        s.entry=old
        for x in con.requires(old): s.st.assume(x[1] if isinstance(x,tuple) else x)
        s.prehyps=list(s.st.pc)
        # body
        fr=Frame(f,{},this,None); fr.lex=None
        rt=rettype(f); fr.retref=rt.endswith('&'); fr.retty=None if rt in('void','') or isctor else (T.parse(rt) if not rt.startswith('auto') else None)
        for p,v in zip(ps,vals): fr.bind(p,v if isinstance(v,LVal) else s.alloc(v))
        s.frame=fr
        s.depth=0
        if isctor:
            this=s.alloc(None); fr.this=this
            inits={}
            for c in f.kids:
                if c is not None and c.k=='CXXCtorInitializer':
                    ai=c.get('anyInit') or {}
                    if ai.get('name') and c.kids: inits[ai['name']]=c.kids[0]
            fs={}
            for fn,ft in struct_fields(owner):
                if fn in inits and inits[fn].k!='CXXDefaultInitExpr': v=s.coerce(s.rv(inits[fn]),ft)
                else: v=s.default_field(owner,fn,ft)
                fs[fn]=v; s.st.store[this.loc]=Struct(owner,dict(fs))
            s.st.store[this.loc]=Struct(owner,fs)
        s.depth=1
        try: res=s.run(body_of(f),s.st)
        except Thrown: res=[]
        tcond=con.throws(old)
        n=0
        for k,t,v in res:
            if k not in('ret','norm'): continue
            if k=='norm' and rt not in('void','') and not isctor:
                s.st=t; s.ob('return','control does not reach the end of a value-returning function',z3.BoolVal(False)); continue
            s.st=t
            retv=v
            if isinstance(v,LVal) : retv=s.load(v)
            newthis=s.load(this) if this is not None else None
            newargs=[s.load(r) if r is not None else a for r,a in zip(reflv,argv)]
            post=CallCtx(con,newthis,newargs,retv,old)
            post.ex=s; post.state=t; post.retlv=v if isinstance(v,LVal) else None; post.thisloc=this; post.frame=fr
            s.line=f.line
            s.hint(t,con.hints(post))
            if tcond is not None: s.ob('throws','returns normally only when no exception is due',z3.Not(tcond))
            if con.value is not None: s.ob('ensures','the stated value',veq(retv,con.value(old)))
            for x in con.ensures(post):
                nm,g=x if isinstance(x,tuple) else ('post',x)
                if isinstance(g,Focus): s.focus(s.st,g,'ensures',nm)
                else: s.ob('ensures',nm,g)
            for r,a,b in zip(reflv,argv,newargs):
                if isinstance(a,Struct) and a.name in('$is','$os') and not all(b.f[fx] is a.f[fx] or b.f[fx].eq(a.f[fx]) for fx in ('B','open')+(('end',) if a.name=='$is' else ())): s.ob('frame','the stream is the same one',z3.BoolVal(False))
            # frame: everything not in modifies is unchanged
            if this is not None and not isctor and 'this' not in con.modifies:
                s.ob('frame','*this is unchanged',veq(newthis,thisv))
            for r,a,b,nm in zip(reflv,argv,newargs,con.pnames):
                if r is not None and nm not in con.modifies and a is not b: s.ob('frame',f'{nm} is unchanged',veq(b,a))
            n+=1
        for tn,t in s.throws:
            s.st=t; s.line=f.line
            if con.throws_at is not None:
                pc=CallCtx(con,s.load(this) if this is not None else None,[s.load(r) if r is not None else a for r,a in zip(reflv,argv)],None,old)
                pc.ex=s; pc.state=t; pc.frame=fr; pc.thrown=True
                s.hint(t,con.hints(pc))
                for x in con.throws_at(pc): s.ob('throws',f'{tn} only when {x[0]}',x[1])
                if con.throw_type and tn!='?' and tn!=con.throw_type: s.ob('throws',f'exception type is {con.throw_type}, not {tn}',z3.BoolVal(False))
            elif tcond is None: s.ob('throws',f'no exception escapes ({tn})',z3.BoolVal(False))
            else:
                s.ob('throws',f'exception {tn} only when due',tcond)
                if con.throw_type and tn!='?' and tn!=con.throw_type: s.ob('throws',f'exception type is {con.throw_type}, not {tn}',z3.BoolVal(False))
        s.nreturns=n
        return s.obs

class Thrown(Exception): pass
def s_ld(s,st,v):
    if not isinstance(v,LVal): return v
    keep=s.st; s.st=st; r=s.load(v); s.st=keep; return r
def s_feas(s,st):
    if s.dry: return True
    keep=s.st; s.st=st; r=s.feasible(z3.BoolVal(True) if not st.pc else st.pc[-1]); s.st=keep; return r
def s_cmp(op,a,b): return {'<':lambda:a<b,'<=':lambda:a<=b,'>':lambda:a>b,'>=':lambda:a>=b,'==':lambda:a==b,'!=':lambda:a!=b}[op]()
def intrange(ty):
    _,b,sg=ty; return (-2**(b-1),2**(b-1)-1) if sg else (0,2**b-1)
_hq={}
def has_quant(e):
    k=e.get_id()
    if k in _hq: return _hq[k][1]
    r=z3.is_quantifier(e) or any(has_quant(c) for c in e.children())
    _hq[k]=(e,r); return r
def rettype(f):
    t=f.t or ''
    # "R (args) const" ; find the parameter list at depth 0
    m=re.search(r'->\s*(.*)$',t)
    if m: return m.group(1).strip()
    d=0
    for i,ch in enumerate(t):
        if ch in '<[': d+=1
        elif ch in '>]': d-=1
        elif ch=='(' and d==0: return t[:i].strip()
    return t
UNROLL=object()
class Loop:
    def __init__(s,inv=lambda c:[],dec=None,hints=None,body_hints=None,step_hints=None,exit_hints=None,init_hints=None):
        s.init_hints=init_hints; s.inv=inv; s.dec=dec; s.hints=hints; s.body_hints=body_hints; s.step_hints=step_hints; s.exit_hints=exit_hints
class CallCtx:
    def __init__(s,con,this,args,ret,old):
        s.con=con; s.this=this; s.args=args; s.ret=ret; s.old=old; s.ex=None; s.retlv=None; s.thisloc=None; s.thrown=False
    def __getattr__(s,n):
        con=s.__dict__['con']
        if n in con.pnames: return s.__dict__['args'][con.pnames.index(n)]
        raise AttributeError(n)
    def retlv_is(s,val,field,i):
        """the returned reference denotes element i of the given field of *this"""
        lv=s.retlv
        if lv is None or lv.loc!=s.thisloc.loc or len(lv.path)!=2 or lv.path[0]!=field or lv.path[1][0]!='i': return z3.BoolVal(False)
        return lv.path[1][1]==i
    def local(s,name):
        lv=s.frame.names.get(name)
        if lv is None: raise Mismatch(f'local {name} not found')
        keep=s.ex.st; s.ex.st=s.state
        try: return s.ex.load(lv)
        finally: s.ex.st=keep
class LoopCtx:
    """what an invariant can talk about: c.v(name) local variable now, c.pre(name) before the loop,
    c.old.<param> at function entry, c.k the loop counter (range-for: iteration index)"""
    def __init__(s,ex,state,pre,frame,mods,ctr,rangefor):
        s.ex=ex; s.state=state; s.prest=pre; s.frame=frame; s.mods=mods; s.ctr=ctr; s.rangefor=rangefor; s.old=ex.entry
    def _lv(s,name):
        f=s.frame
        while f is not None:
            if name in f.names: return f.names[name]
            f=f.lex or f.parent
        # renamed: unique variable modified in this loop whose name no annotation mentions and whose type fits
        r=s.ex.prog.rename(s,name)
        if r is not None: return r
        raise Mismatch(f'variable {name} not found')
    def _ld(s,lv,st):
        keep=s.ex.st; s.ex.st=st
        try: return s.ex.load(lv)
        finally: s.ex.st=keep
    def v(s,name):
        x=s._ld(s._lv(name),s.state)
        return x
    def pre(s,name): return s._ld(s._lv(name),s.prest)
    def call_before(s,val):
        """the arguments before the call that left this value, or None"""
        return next((o for v,o in s.ex.prior.items() if isinstance(v,Vec) and isinstance(val,Vec) and v.arrs[0].eq(val.arrs[0])),None)
    def head(s,name):
        """value at the start of the current iteration (None before the first)"""
        return None if s.headst is None else s._ld(s._lv(name),s.headst)
    @property
    def this(s):
        f=s.frame
        while f is not None and f.this is None: f=f.lex or f.parent
        return s._ld(f.this,s.state)
    @property
    def prethis(s): return s._thisat(s.prest)
    def _thisat(s,st):
        f=s.frame
        while f is not None and f.this is None: f=f.lex or f.parent
        return s._ld(f.this,st)
    @property
    def k(s):
        if s.rangefor: return s.state.store[s.rangefor[1].loc]
        if s.ctr is not None: return s.state.store[s.ctr]
        raise Mismatch('loop has no counter')
    @property
    def k0(s):
        if s.rangefor: return s.prest.store[s.rangefor[1].loc]
        if s.ctr is None: raise Mismatch('loop has no counter')
        return s.prest.store[s.ctr]
    def prearg(s,name): return s.arg(name,s.prest)
    def arg(s,name,state=None):
        """current value of a parameter of the verified function (by contract name)"""
        con=s.ex.contract
        i=con.pnames.index(name)
        f=s.frame
        while f.parent is not None and s.ex.topfn is not f.fn: f=f.parent
        p=params(s.ex.topfn)[i]
        return s._ld(f.vars[p.id],state or s.state)
