"""Assumed contracts of std::string, std::istream, std::ostream and the numeric conversions.

A string is a window [lo,hi) of an immutable byte array; substr, trimming and getline only move the window.
An input stream is a window of a byte array with a position and the fail/eof flags.
An output stream only appends; its byte array names the final content, so that writing a byte at the current end is a fact
about that array.  Every write may fail (the fail flag becomes true and stays so; nothing is known about the bytes then).
Binary values: RI(B,o) / RR(B,o) are the int / double whose object representation lies at o..o+3 / o..o+7 (any representation:
reading returns what was written at the same place).  double values are only moved here, never computed with.
Text values: PI / PR (B,s,e) are the numbers denoted by the characters s..e-1, PIok / PRok say that all of them form one number."""
import z3
from sym import *
from spec import on
from exec import PtrV, Thrown
BY=z3.ArraySort(z3.IntSort(),z3.IntSort()); IS=z3.IntSort(); RS=z3.RealSort(); BO=z3.BoolSort()
RI=z3.Function('int_at',BY,IS,IS); RR=z3.Function('double_at',BY,IS,RS)
FNW=z3.Function('first_nonspace',BY,IS,IS,IS); FWS=z3.Function('first_space',BY,IS,IS,IS); LNW=z3.Function('after_last_nonspace',BY,IS,IS,IS)
FCH=z3.Function('first_char',BY,IS,IS,IS,IS)
PI=z3.Function('int_text',BY,IS,IS,IS); PR=z3.Function('double_text',BY,IS,IS,RS); PIok=z3.Function('is_int_text',BY,IS,IS,BO); PRok=z3.Function('is_double_text',BY,IS,IS,BO)
NUM=z3.Function('starts_with_number',BY,IS,IS,BO)
def WS(c): return z3.Or(c==32,z3.And(c>=9,c<=13))
def _sel(B,i): return z3.Select(B,i)
def pat(B,k): return [B[k]] if B.decl().kind()==z3.Z3_OP_UNINTERPRETED else []
def ax_fnw(B,lo,hi):
    r=FNW(B,lo,hi); k=z3.Int('fnw_k')
    return trust(z3.Implies(lo<=hi,z3.And(r>=lo,r<=hi,z3.Implies(r<hi,z3.Not(WS(B[r]))),z3.ForAll([k],z3.Implies(z3.And(lo<=k,k<r),WS(B[k])),patterns=pat(B,k)))))
def ax_fws(B,lo,hi):
    r=FWS(B,lo,hi); k=z3.Int('fws_k')
    return trust(z3.Implies(lo<=hi,z3.And(r>=lo,r<=hi,z3.Implies(r<hi,WS(B[r])),z3.ForAll([k],z3.Implies(z3.And(lo<=k,k<r),z3.Not(WS(B[k]))),patterns=pat(B,k)))))
def ax_lnw(B,lo,hi):
    r=LNW(B,lo,hi); k=z3.Int('lnw_k')
    return trust(z3.Implies(lo<=hi,z3.And(r>=lo,r<=hi,z3.Implies(r>lo,z3.Not(WS(B[r-1]))),z3.ForAll([k],z3.Implies(z3.And(r<=k,k<hi),WS(B[k])),patterns=pat(B,k)))))
def ax_fch(B,c,lo,hi):
    r=FCH(B,c,lo,hi); k=z3.Int('fch_k')
    return trust(z3.Implies(lo<=hi,z3.And(r>=lo,r<=hi,z3.Implies(r<hi,B[r]==c),z3.ForAll([k],z3.Implies(z3.And(lo<=k,k<r),B[k]!=c),patterns=pat(B,k)))))
FSEP=z3.Function('number_end',BY,IS,IS)
def SEP(c): return z3.Or(WS(c),c==44)
def ax_fsep(B,p):
    """first comma or white space at or after p (2^61 if there is none below)"""
    r=FSEP(B,p); k=z3.Int('fsep_k')
    return trust(z3.Implies(p<=2**61,z3.And(r>=p,r<=2**61,z3.Implies(r<2**61,SEP(B[r])),z3.ForAll([k],z3.Implies(z3.And(p<=k,k<r),z3.Not(SEP(B[k]))),patterns=pat(B,k)))))
_lits={}
def lit(s):
    if s not in _lits:
        B=z3.K(IS,I(0))
        for i,ch in enumerate(s): B=z3.Store(B,i,ord(ch))
        _lits[s]=Struct('$str',dict(B=B,lo=I(0),hi=I(len(s))))
    return _lits[s]
def fresh_(name): return fresh(('struct',name),name[1:])
def default(name):
    if name=='$str': return lit('')
    F=z3.BoolVal(False)
    if name=='$is': return Struct('$is',dict(B=z3.K(IS,I(0)),pos=I(0),end=I(0),fail=F,eof=F,open=F))
    v=fresh_('$os'); v.f.update(n=I(0),fail=F,open=F,prec=I(6),sci=F); return v
def view(B,lo,hi): return Struct('$str',dict(B=B,lo=lo,hi=hi))
def eqtext(a,text):
    """the string value a spells text"""
    return z3.And(a.hi-a.lo==len(text),*[_sel(a.B,a.lo+i)==ord(c) for i,c in enumerate(text)])
def chars_at(B,o,text): return z3.And([_sel(B,o+i)==ord(c) for i,c in enumerate(text)])
def conlen(v):
    n=z3.simplify(v.hi-v.lo); return n.as_long() if z3.is_int_value(n) else None
def strop(ex,op,a,b):
    if op in('==','!='):
        if conlen(a) is not None and conlen(b) is None: a,b=b,a
        L=conlen(b)
        if L is not None:
            e=z3.And(a.hi-a.lo==L,*[z3.simplify(_sel(b.B,b.lo+i))==_sel(a.B,a.lo+i) for i in range(L)])
        else:
            k=z3.Int(fresh_name('k')); e=z3.And(a.hi-a.lo==b.hi-b.lo,z3.ForAll([k],z3.Implies(z3.And(0<=k,k<a.hi-a.lo),_sel(a.B,a.lo+k)==_sel(b.B,b.lo+k))))
        return e if op=='==' else z3.Not(e)
    if op=='+': return freshstr(ex)
    raise Unsupported('string operator'+op)
def freshstr(ex):
    v=fresh_('$str'); ex.st.assume(*ranges(v,('struct','$str'))); return v
def construct(ex,ty,args,n):
    k=ty[1]; vals=[ex.rv(a) for a in args if a.k!='CXXDefaultArgExpr']
    t=(n.t or '').split('::')[-1]
    if k=='$str':
        if not vals: return lit('')
        if len(vals)==1 and isinstance(vals[0],Struct) and vals[0].name=='$str': return vals[0]
        return freshstr(ex)
    F=z3.BoolVal(False)
    if vals and isinstance(vals[0],Struct) and vals[0].name==k: raise Unsupported('copy of a stream')
    if k=='$is':
        if not vals: return default(k)
        if t in('stringstream','istringstream') and len(vals)==1: return Struct(k,dict(B=vals[0].B,pos=vals[0].lo,end=vals[0].hi,fail=F,eof=F,open=F))
        if t=='ifstream': return openfile(ex,vals[0])
        raise Unsupported('stream constructor')
    if t=='ofstream' and vals: return openout(ex,vals[0])
    if not vals: return default(k)
    raise Unsupported('stream constructor')
FILEB=z3.Function('file_bytes',BY,IS,IS,BY); FILEN=z3.Function('file_size',BY,IS,IS,IS); FILEOK=z3.Function('file_opens',BY,IS,IS,BO)
def openfile(ex,nm):
    k=(nm.B,nm.lo,nm.hi); ok=FILEOK(*k)
    ex.st.assume(FILEN(*k)>=0,FILEN(*k)<=2**61)
    return Struct('$is',dict(B=FILEB(*k),pos=I(0),end=FILEN(*k),fail=z3.Not(ok),eof=z3.BoolVal(False),open=ok))
def openout(ex,nm):
    v=default('$os'); ok=z3.Bool(fresh_name('opens')); v.f.update(open=ok,fail=z3.Not(ok)); return v
def F_(lv,f): return lv.ext(('f',f))
def put(ex,lv,**kw):
    for f,v in kw.items(): ex.store(F_(lv,f),v)
def ifv(c,a,b):
    c=z3.simplify(c)
    return a if z3.is_true(c) else b if z3.is_false(c) else ite(c,a,b)
# ---------------------------------------------------------------- methods
def method(b,ex,nm,this,v,args,n):
    if v.name=='$str': return str_method(b,ex,nm,this,v,args,n)
    if nm in('fail','operator!'): return v.fail
    if nm in('good','operator bool'): return z3.Not(v.fail) if nm!='good' else (z3.Not(z3.Or(v.fail,v.eof)) if v.name=='$is' else z3.Not(v.fail))
    if nm=='eof': return v.eof if v.name=='$is' else z3.BoolVal(False)
    if nm=='bad':
        q=z3.Bool(fresh_name('bad')); ex.st.assume(z3.Implies(q,v.fail)); return q
    if nm=='is_open': return v.open
    if nm in('flush','close'): return this
    if nm=='open':
        nmv=ex.rv(args[0])
        for a in args[1:]: 
            if a.k!='CXXDefaultArgExpr': ex.rv(a)
        ex.store(this,openfile(ex,nmv) if v.name=='$is' else openout(ex,nmv)); return None
    if nm=='gcount': raise Unsupported('gcount')
    if nm=='precision' and args: ex.st; put(ex,this,prec=ex.rv(args[0])); return v.prec
    if nm=='precision': return v.prec
    if nm in('flags',): raise Unsupported(nm)
    if nm=='read': return read(ex,this,v,args)
    if nm=='write': return write(ex,this,v,args)
    if nm=='put': return emit(ex,this,v,[ex.rv(args[0])])
    if nm in('operator<<','operator>>'):
        a=ex.ev(args[0]); return op(ex,nm[8:],this,v,a,ex.load(a),[None]+list(args),n)
    raise Unsupported(f'stream {nm}')
def objects(ex,p,size):
    """the scalar objects of size bytes in all behind a pointer: list of (lvalue, kind) or ('vec', lvalue, count)"""
    if not isinstance(p,PtrV) or p.lv is None: raise Unsupported('pointer argument of read/write')
    v=ex.load(p.lv); sz=z3.simplify(size)
    k=sz.as_long() if z3.is_int_value(sz) else None
    def need(w):
        if k is None: ex.ob('stream','whole objects are transferred',size==w)
        elif k!=w: ex.ob('stream',f'whole objects are transferred ({k} of {w} bytes)',z3.BoolVal(False))
    if isinstance(v,z3.ExprRef) and z3.is_int(v): need(4); return [(p.lv,'i')]
    if isinstance(v,z3.ExprRef) and z3.is_real(v): need(8); return [(p.lv,'r')]
    if isinstance(v,Mat): need(8*len(v.e)); return [(p.lv.ext(('m',i)),'r') for i in range(len(v.e))]
    if isinstance(v,Vec) and p.elems:
        w=8 if v.ety==REAL else 4 if v.ety[0]=='int' else 8*v.ety[1]*v.ety[2] if v.ety[0]=='mat' else None
        if w is None: raise Unsupported('transfer of '+str(v.ety))
        m=z3.Int(fresh_name('cnt')); ex.ob('stream','whole objects are transferred',z3.And(size>=0,size%w==0)); ex.st.assume(w*m==size)
        ex.ob('bounds','transferred range is within the vector',m<=v.len)
        return ('vec',p.lv,m,w)
    raise Unsupported('transfer of '+type(v).__name__)
def read(ex,this,v,args):
    p=ex.rv(args[0]); size=ex.rv(args[1]); o=objects(ex,p,size)
    v=ex.load(this)
    ok=z3.And(z3.Not(v.fail),v.pos+size<=v.end)
    pos0=v.pos
    if isinstance(o,tuple):
        _,lv,m,w=o; vec=ex.load(lv); q=z3.Int(fresh_name('q'))
        new=fresh(('vec',vec.ety),'rd'); rd=RR if vec.ety!=('int',32,True) else RI
        for j,(a,old) in enumerate(zip(new.arrs,vec.arrs)):
            ex.st.assume(z3.ForAll([q],z3.Implies(z3.Or(q<0,q>=m),a[q]==old[q]),patterns=[a[q]]),z3.ForAll([q],z3.Implies(z3.And(ok,q>=0,q<m),a[q]==rd(v.B,pos0+w*q+8*j)),patterns=[a[q]]),
                z3.ForAll([q],z3.Implies(v.fail,a[q]==old[q]),patterns=[a[q]]))
        ex.store(lv,Vec(vec.ety,vec.len,new.arrs))
    else:
        off=0
        for lv,k in o:
            old=ex.load(lv)
            if k=='i':
                x=RI(v.B,pos0+off); ex.st.assume(x>=-2**31,x<2**31); junk=z3.Int(fresh_name('junk')); ex.st.assume(junk>=-2**31,junk<2**31); off+=4
            else: x=RR(v.B,pos0+off); junk=z3.Real(fresh_name('junk')); off+=8
            ex.store(lv,z3.If(ok,x,z3.If(v.fail,old,junk)))
    put(ex,this,pos=z3.If(ok,pos0+size,z3.If(v.fail,pos0,v.end)),eof=z3.Or(v.eof,z3.And(z3.Not(v.fail),z3.Not(ok))),fail=z3.Not(ok))
    return this
def wrote(ex,this,v,size):
    """outcome of an append of size bytes: returns the success condition"""
    f=z3.Bool(fresh_name('wfail')); ok=z3.And(z3.Not(v.fail),z3.Not(f))
    nn=z3.Int(fresh_name('n')); ex.st.assume(nn>=0,nn<=2**61,z3.Implies(ok,nn==v.n+size))   # resource assumption: streams stay below 2^61 bytes
    put(ex,this,n=nn,fail=z3.Not(ok))
    return ok
def write(ex,this,v,args):
    p=ex.rv(args[0]); size=ex.rv(args[1]); o=objects(ex,p,size); n0=v.n
    ok=wrote(ex,this,v,size)
    if isinstance(o,tuple):
        _,lv,m,w=o; vec=ex.load(lv); q=z3.Int(fresh_name('q')); rd=RR if vec.ety!=('int',32,True) else RI
        for j,a in enumerate(vec.arrs): ex.st.assume(z3.ForAll([q],z3.Implies(z3.And(ok,q>=0,q<m),rd(v.B,n0+w*q+8*j)==a[q]),patterns=[a[q]]))
        for j,a in enumerate(vec.arrs): ex.st.assume(z3.ForAll([q],z3.Implies(z3.And(ok,q>=0,q<m),rd(v.B,n0+w*q+8*j)==a[q]),patterns=[rd(v.B,n0+w*q+8*j)]))
    else:
        off=0
        for lv,k in o:
            x=ex.load(lv)
            if k=='i': ex.st.assume(z3.Implies(ok,RI(v.B,n0+off)==x)); off+=4
            else: ex.st.assume(z3.Implies(ok,RR(v.B,n0+off)==x)); off+=8
    return this
def emit(ex,this,v,chars):
    n0=v.n; ok=wrote(ex,this,v,len(chars))
    for i,c in enumerate(chars): ex.st.assume(z3.Implies(ok,_sel(v.B,n0+i)==c))
    if chars and n0.get_id() in ex.numends:      # a separator after a number: proved from the facts about the characters, not assumed
        B,s,facts=ex.numends[n0.get_id()][1:]; c=z3.simplify(SEP(chars[0]))
        if B.eq(v.B) and z3.is_true(c):
            f=z3.Implies(ok,_sel(v.B,n0)==chars[0])
            ex.hint(ex.st,[Focus(z3.Implies(ok,FSEP(B,s)==n0),ax_fsep(B,s),f,*facts)])
    return this
class SetP(V):
    def __init__(s,n): s.n=n
def numtext(ex,this,v,x,kind):
    n0=v.n; L=z3.Int(fresh_name('digits')); ex.st.assume(L>=1,L<=400)
    h0=len(ex.st.pc); ok=wrote(ex,this,v,L); k=z3.Int(fresh_name('k')); B=v.B; nn=ex.load(this).n
    # characters of a number: never white space, comma, colon or asterisk
    ex.st.assume(z3.ForAll([k],z3.Implies(z3.And(ok,k>=n0,k<n0+L),z3.And(z3.Not(WS(B[k])),B[k]!=44,B[k]!=58,B[k]!=42)),patterns=pat(B,k)))
    if on('C16'): ex.numends[nn.get_id()]=(nn,B,n0,[L>=1]+ex.st.pc[h0:])
    if kind=='i': ex.st.assume(z3.Implies(ok,z3.And(PIok(B,n0,n0+L),PI(B,n0,n0+L)==x)))
    else:
        exact=z3.If(v.sci,v.prec>=16,v.prec>=17)     # 17 significant digits identify a double
        ex.st.assume(z3.Implies(ok,z3.And(PRok(B,n0,n0+L),z3.Implies(exact,PR(B,n0,n0+L)==x))))
    return this
def op(ex,o,lv,s,av,a,args,n):
    """stream << a, stream >> a"""
    if o=='<<':
        if s.name!='$os': raise Unsupported('<< on an input stream')
        if isinstance(a,Struct) and a.name=='$str':
            L=conlen(a)
            if L is not None: return emit(ex,lv,s,[z3.simplify(_sel(a.B,a.lo+i)) for i in range(L)])
            n0=s.n; ok=wrote(ex,lv,s,a.hi-a.lo); k=z3.Int(fresh_name('k'))
            ex.st.assume(z3.ForAll([k],z3.Implies(z3.And(ok,k>=n0,k<n0+a.hi-a.lo),_sel(s.B,k)==_sel(a.B,a.lo+k-n0)),patterns=[_sel(s.B,k)])); return lv
        if isinstance(a,FnRef):
            nm=a.decl.get('name') if isinstance(a.decl,dict) else a.decl.name
            if nm=='endl': return emit(ex,lv,s,[I(10)])
            if nm=='scientific': put(ex,lv,sci=z3.BoolVal(True)); return lv
            if nm=='flush': return lv
            if nm=='defaultfloat': put(ex,lv,sci=z3.BoolVal(False)); return lv
            raise Unsupported('manipulator '+str(nm))
        if isinstance(a,SetP): put(ex,lv,prec=a.n); return lv
        if isinstance(a,z3.ExprRef):
            t=T.parse(args[1].t or '') if args[1] is not None else ('?',)
            if z3.is_real(a): return numtext(ex,lv,s,a,'r')
            if t[0]=='int' and t[1]==8: return emit(ex,lv,s,[a])
            if z3.is_int(a): return numtext(ex,lv,s,a,'i')
        raise Unsupported('stream <<')
    if s.name!='$is': raise Unsupported('>> on an output stream')
    if isinstance(a,FnRef):
        nm=a.decl.get('name') if isinstance(a.decl,dict) else a.decl.name
        if nm!='ws': raise Unsupported('manipulator '+str(nm))
        ex.st.assume(ax_fnw(s.B,s.pos,s.end)); put(ex,lv,pos=z3.If(s.fail,s.pos,FNW(s.B,s.pos,s.end))); return lv
    if not isinstance(av,LVal): raise Unsupported('>> into a temporary')
    B,pos,end=s.B,s.pos,s.end
    st=FNW(B,pos,end); e=FWS(B,st,end); ex.st.assume(ax_fnw(B,pos,end),ax_fws(B,st,end))
    has=z3.And(z3.Not(s.fail),st<end)
    if isinstance(a,Struct) and a.name=='$str':
        ex.store(av,view(B,st,z3.If(has,e,st)) if conlen(a)==0 else view(B,st,e) if ex.entails(has) else ite(has,view(B,st,e),a))
        put(ex,lv,pos=z3.If(s.fail,pos,e),fail=z3.Not(has),eof=z3.Or(s.eof,z3.And(z3.Not(s.fail),e==end))); return lv
    if isinstance(a,z3.ExprRef) and (z3.is_int(a) or z3.is_real(a)):
        t=T.parse(args[1].t or '') if args[1] is not None else ('int',32,True)
        if z3.is_int(a) and not(t[0]=='int' and t[1]==32): raise Unsupported('>> into '+str(t))
        P,OKf=(PI,PIok) if z3.is_int(a) else (PR,PRok)
        good=z3.And(has,OKf(B,st,e))
        other=z3.Const(fresh_name('parsed'),a.sort()); fl=z3.Bool(fresh_name('pfail')); np=z3.Int(fresh_name('ppos'))
        ex.st.assume(np>=st,np<=e,z3.Implies(z3.Not(NUM(B,st,e)),fl),z3.Implies(z3.And(st<end,st==np),fl),z3.Implies(OKf(B,st,e),NUM(B,st,e)))
        if z3.is_int(a): ex.st.assume(other>=-2**31,other<2**31,z3.Implies(OKf(B,st,e),z3.And(P(B,st,e)>=-2**31,P(B,st,e)<2**31)))
        ex.store(av,z3.If(good,P(B,st,e),z3.If(s.fail,a,other)))
        put(ex,lv,pos=z3.If(s.fail,pos,z3.If(good,e,z3.If(st<end,np,end))),fail=z3.Or(z3.Not(has),z3.And(z3.Not(good),fl)),eof=z3.Or(s.eof,z3.And(z3.Not(s.fail),z3.If(good,e==end,z3.Or(st==end,np==end)))))
        return lv
    raise Unsupported('stream >>')
def getline(ex,lv,sv,ch):
    s=ex.load(lv); old=ex.load(sv); B,pos,end=s.B,s.pos,s.end
    e=FCH(B,ch,pos,end); ex.st.assume(ax_fch(B,ch,pos,end))
    got=z3.And(z3.Not(s.fail),pos<end)
    nv=view(B,pos,z3.If(got,e,pos))
    ex.store(sv,nv if conlen(old)==0 or ex.entails(z3.Not(s.fail)) else ite(s.fail,old,nv))
    put(ex,lv,pos=z3.If(got,z3.If(e<end,e+1,end),pos),fail=z3.Not(got),eof=z3.Or(s.eof,z3.And(z3.Not(s.fail),e==end)))
    return lv
def free(b,ex,nm,args,n):
    if nm=='getline':
        lv=ex.ev(args[0]); sv=ex.ev(args[1]); ch=ex.rv(args[2]) if len(args)>2 else I(10)
        if not(isinstance(lv,LVal) and isinstance(sv,LVal)): raise Unsupported('getline of temporaries')
        return getline(ex,lv,sv,ch)
    if nm=='setprecision': return SetP(ex.rv(args[0]))
    if nm=='isspace': return z3.If(WS(ex.rv(args[0])),I(1),I(0))
    if nm=='isdigit':
        c=ex.rv(args[0]); return z3.If(z3.And(c>=48,c<=57),I(1),I(0))
    if nm=='to_string':
        ex.rv(args[0]); return freshstr(ex)
    return NotImplemented
def str_method(b,ex,nm,this,v,args,n):
    ln=v.hi-v.lo
    if nm in('size','length'): return ln
    if nm=='empty': return v.hi==v.lo
    if nm in('front','back','operator[]','at'):
        i=I(0) if nm=='front' else ln-1 if nm=='back' else ex.rv(args[0])
        ex.ob('bounds','string index within the string',z3.And(i>=0,i<ln)); c=_sel(v.B,v.lo+i); ex.st.assume(c>=-128,c<=127); return c
    if nm in('begin','cbegin'): return Iter(lvof(ex,this,v),I(0))
    if nm in('end','cend'): return Iter(lvof(ex,this,v),ln)
    if nm=='rbegin': return Iter(lvof(ex,this,v),I(0),True)
    if nm=='rend': return Iter(lvof(ex,this,v),ln,True)
    if nm=='clear': ex.store(this,view(v.B,v.lo,v.lo)); return None
    if nm=='operator=':
        w=ex.rv(args[0])
        if not(isinstance(w,Struct) and w.name=='$str'): raise Unsupported('string assignment')
        ex.store(this,w); return this
    if nm in('operator+=','append','push_back'):
        for a in args: ex.rv(a)
        ex.store(this,freshstr(ex)); return this
    if nm=='erase':
        a=ex.rv(args[0])
        if isinstance(a,Iter):
            if len(args)<2: raise Unsupported('erase of one character')
            e=ex.rv(args[1]); p,q=a.idx,e.idx
        else: raise Unsupported('string::erase by position')
        ex.ob('bounds','erased range is within the string',z3.And(p>=0,p<=q,q<=ln))
        if z3.is_true(z3.simplify(p==0)): ex.store(this,view(v.B,v.lo+q,v.hi))
        elif z3.is_true(z3.simplify(q==ln)): ex.store(this,view(v.B,v.lo,v.lo+p))
        else: raise Unsupported('erase in the middle')
        return Iter(this,p)
    if nm=='find':
        c=ex.rv(args[0])
        if not(isinstance(c,z3.ExprRef) and z3.is_int(c)): raise Unsupported('find of a string')
        st=ex.rv(args[1]) if len(args)>1 and args[1].k!='CXXDefaultArgExpr' else I(0)
        lo=z3.simplify(v.lo+st) if not z3.is_true(z3.simplify(st==0)) else v.lo
        ex.st.assume(ax_fch(v.B,c,lo,v.hi)); r=FCH(v.B,c,lo,v.hi); return z3.If(z3.And(lo<=v.hi,r<v.hi),r-v.lo,I(2**64-1))
    if nm in('find_first_not_of','find_last_not_of','find_first_of'): raise Unsupported('string::'+nm)
    if nm=='substr':
        p=ex.rv(args[0]) if args and args[0].k!='CXXDefaultArgExpr' else I(0)
        c=ex.rv(args[1]) if len(args)>1 and args[1].k!='CXXDefaultArgExpr' else None
        t=ex.st.copy(); t.pc.append(p>ln); ex.throws.append(('out_of_range',t)); ex.st.assume(p<=ln)
        hi=v.hi if c is None else z3.If(c<ln-p,v.lo+p+c,v.hi)
        return view(v.B,v.lo+p,hi)
    if nm=='starts_with':
        a=ex.rv(args[0])
        if isinstance(a,Struct):
            L=conlen(a)
            if L is None: raise Unsupported('starts_with')
            return z3.And(ln>=L,*[_sel(v.B,v.lo+i)==z3.simplify(_sel(a.B,a.lo+i)) for i in range(L)])
        return z3.And(ln>0,_sel(v.B,v.lo)==a)
    if nm in('c_str','data'): raise Unsupported('string::'+nm)
    raise Unsupported('string::'+nm)
def lvof(ex,this,v): return this if isinstance(this,LVal) else ex.alloc(v)
