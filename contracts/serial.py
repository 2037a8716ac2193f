"""Contracts: binary and text files (C15, C16, C17)"""
from spec import *
from program import Contract as C
from exec import Loop, UNROLL
import sym
from streams import *
from knots import KV
from grid import in_range
out=[]
def con(*a,**k): out.append(C(*a,**k))
def when(P,f):
    """clauses that only property P needs: generated when the run decides P"""
    return lambda *a: f(*a) if on(P) else []

# ---- binary layout
def knots_at(v,B,o): return ALL('i',lambda i:IMP(AND(0<=i,i<v.len),v.at(i)==RR(B,o+4+8*i)))
def kn_end(B,o): return o+4+8*RI(B,o)
def points_at(P,n,B,o): return ALL('j',lambda j:IMP(AND(0<=j,j<n),AND(*[P.at(j)[c]==RR(B,o+32*j+8*c) for c in range(4)])))
con('Utils::ReadKnotVectorFromStream(KnotVector,istream)','kv src',props=['C15','C17'],modifies=['kv','src'],throw_type='runtime_error',
    throws=lambda c:OR(c.src.fail,c.src.pos+4>c.src.end,RI(c.src.B,c.src.pos)<0,kn_end(c.src.B,c.src.pos)>c.src.end),
    ensures=lambda c:[('number of knots',KV(c.kv).len==RI(c.src.B,c.old.src.pos)),('every knot',knots_at(KV(c.kv),c.src.B,c.old.src.pos)),('exactly these bytes are consumed',AND(c.src.pos==kn_end(c.src.B,c.old.src.pos),NOT(c.src.fail)))],
    loops=[Loop(inv=lambda c:[('position',AND(c.arg('src').pos==c.old.src.pos+4+8*c.k,NOT(c.arg('src').fail),c.arg('src').pos<=c.old.src.end,KV(c.arg('kv')).len==c.k)),('knots so far',knots_at(KV(c.arg('kv')),c.old.src.B,c.old.src.pos))])])
con('Utils::ReadVec4FromStream(Vec4,istream)','vec src',props=['C15','C17'],modifies=['vec','src'],throw_type='runtime_error',
    throws=lambda c:OR(c.src.fail,c.src.pos+32>c.src.end),
    ensures=lambda c:[('four values',AND(*[c.vec[k]==RR(c.src.B,c.old.src.pos+8*k) for k in range(4)])),('exactly these bytes are consumed',AND(c.src.pos==c.old.src.pos+32,NOT(c.src.fail)))])
con('Utils::WriteKnotVectorToStream(KnotVector,ostream)','kv dst',props=['C15'],modifies=['dst'],throw_type='runtime_error',throws_at=lambda c:[('the stream failed',c.dst.fail)],
    ensures=lambda c:[('number of knots',RI(c.dst.B,c.old.dst.n)==KV(c.kv).len),('every knot',knots_at(KV(c.kv),c.dst.B,c.old.dst.n)),('position',AND(c.dst.n==c.old.dst.n+4+8*KV(c.kv).len,NOT(c.dst.fail)))])
con('Utils::WriteVec4ToStream(Vec4,ostream)','vec dst',props=['C15'],modifies=['dst'],throw_type='runtime_error',throws_at=lambda c:[('the stream failed',c.dst.fail)],
    ensures=lambda c:[('four values',AND(*[c.vec[k]==RR(c.dst.B,c.old.dst.n+8*k) for k in range(4)])),('position',AND(c.dst.n==c.old.dst.n+32,NOT(c.dst.fail)))])
# ---- text helpers
con('Utils::TrimString(string)','str',props=['C16','C17'],modifies=['str'],
    ensures=lambda c:[('the same text without white space at either end',AND(c.str.B==c.old.str.B,c.str.lo==FNW(c.str.B,c.old.str.lo,c.old.str.hi),c.str.hi==LNW(c.str.B,c.str.lo,c.old.str.hi))),('neither end is white space',AND(c.old.str.lo<=c.str.lo,c.str.lo<=c.str.hi,c.str.hi<=c.old.str.hi,IMP(c.str.hi>c.str.lo,AND(NOT(WS(c.str.B[c.str.lo])),NOT(WS(c.str.B[c.str.hi-1]))))))],
    hints=lambda c:[ax_fnw(c.old.str.B,c.old.str.lo,c.old.str.hi),ax_lnw(c.old.str.B,FNW(c.old.str.B,c.old.str.lo,c.old.str.hi),c.old.str.hi)])
def numtok(B,p,hi):
    s=FNW(B,p,hi); return s,FWS(B,s,hi)
def v4toks(B,lo,hi):
    p=lo; r=[]
    for _ in range(4):
        s,e=numtok(B,p,hi); r.append((s,e)); p=e
    return r
def v4ens_at(B,lo,hi):
    """where the earlier numbers are whole words, the next number is there"""
    r=[]; g=[]
    for k,(s,e) in enumerate(v4toks(B,lo,hi)):
        r.append((f'number {k+1} is there',IMP(AND(*g) if g else z3.BoolVal(True),AND(s<hi,NUM(B,s,e))))); g.append(PRok(B,s,e))
    return r
def v4val(c):
    B=c.text.B; T=v4toks(B,c.text.lo,c.text.hi)
    return [(f'value {k+1}',IMP(AND(*[PRok(B,s,e) for s,e in T[:k+1]]),c.vec[k]==PR(B,*T[k]))) for k in range(4)]
con('Utils::ReadVec4FromText(Vec4,string)','vec text',props=['C16','C17'],modifies=['vec'],throw_type='runtime_error',ensures=lambda c:v4ens_at(c.text.B,c.text.lo,c.text.hi)+v4val(c),
    throws_at=lambda c:[('the text does not start with four numbers',NOT(AND(*[AND(s<c.text.hi,PRok(c.text.B,s,e)) for s,e in v4toks(c.text.B,c.text.lo,c.text.hi)])))])
def v4text(B,lo,hi): return AND(*[f for _,f in v4ens_at(B,lo,hi)])
# a text whose comma separated parts are each blank or start with a number / with four numbers
def part(B,p,hi):
    e=FCH(B,44,p,hi); s=FNW(B,p,e); return e,s,LNW(B,s,e)
def _an(ok):
    def body(B,p,hi):
        e,s,r=part(B,p,hi); return z3.If(p>=hi,z3.BoolVal(True),AND(OR(r<=s,ok(B,s,r)),AN[ok](B,e+1,hi)))
    return body
def onenum(B,s,r): return NUM(B,FNW(B,s,r),FWS(B,FNW(B,s,r),r))
AN={onenum:Ghost('all_numbers',[BY,IS,IS],BO,_an(onenum)),v4text:Ghost('all_points',[BY,IS,IS],BO,_an(v4text))}
def parts_ok(lines,k,ok): return ALL('i',lambda i:IMP(AND(0<=i,i<k),AN[ok](lines.at(i).B,lines.at(i).lo,lines.at(i).hi)))
# ---- header line
def toks(B,q,end):
    """the first three words of the line that starts at q"""
    e=FCH(B,10,q,end); r=[]; p=q
    for _ in range(3):
        s=FNW(B,p,e); p=FWS(B,s,e); r.append(view(B,s,p))
    return e,r
def is_tok(t,text): return eqtext(t,text)
def header(B,q,end,text): return AND(q+len(text)+1<=end,chars_at(B,q,text+'\n'))
def header_facts(B,q,end,text):
    """a written header is read back as its three words"""
    h=header(B,q,end,text); e,t=toks(B,q,end); r=[ax_fch(B,10,q,end),Focus(IMP(h,e==q+len(text)),ax_fch(B,10,q,end))]; p=0
    for k,w in enumerate(text.split(' ')):
        lo=q if k==0 else t[k-1].hi
        r+=[ax_fnw(B,lo,e),ax_fws(B,t[k].lo,e)]
        a=Focus(IMP(h,t[k].lo==q+p),r[1].goal,ax_fnw(B,lo,e),*([r[-1].goal] if k and False else []),*([prev.goal] if k else [])); r.append(a)
        b=Focus(IMP(h,t[k].hi==q+p+len(w)),r[1].goal,a.goal,ax_fws(B,t[k].lo,e)); r.append(b); prev=b
        p+=len(w)+1
    return r
def dstart(B,q,end): 
    e=FCH(B,10,q,end); return z3.If(e<end,e+1,end)
# ---- text layout.  A number text at s ends at NE(B,s), the first comma or white space after it.
NE=FSEP
def num(B,s): return AND(NE(B,s)>s,NE(B,s)<=2**61,SEP(B[NE(B,s)]),B[s]!=42,NOT(SEP(B[s])))
def real_at(B,s): return PR(B,s,NE(B,s))
def int_at(B,s): return PI(B,s,NE(B,s))
def isreal(B,s): return AND(num(B,s),PRok(B,s,NE(B,s)))
def isint(B,s): return AND(num(B,s),PIok(B,s,NE(B,s)))
# numbers separated by ", ": number i starts at KO(B,o,i); KL: end of the list of n
KO=Ghost('item_at',[BY,IS,IS],IS,lambda B,o,i:z3.If(i<=0,o,NE(B,KO(B,o,i-1))+2))
KL=Ghost('list_end',[BY,IS,IS],IS,lambda B,o,n:z3.If(n<=0,o,NE(B,KO(B,o,n-1))))
def item(B,o,n,i):
    s=KO(B,o,i); return AND(isreal(B,s),s>=o,NE(B,s)<=KL(B,o,n),IMP(i<n-1,AND(B[NE(B,s)]==44,B[NE(B,s)+1]==32)))
LIST=Ghost('list_text',[BY,IS,IS],BO,lambda B,o,n:AND(n>=0,ALL('i',lambda i:IMP(AND(0<=i,i<n),item(B,o,n,i))),nonl(B,o,KL(B,o,n)),KL(B,o,n)>=o,KL(B,o,n)<=2**61,B[KL(B,o,n)]==10))
def nonl(B,a,b): return ALL('k',lambda k:IMP(AND(a<=k,k<b),B[k]!=10))
def list_vals(v,B,o): return ALL('i',lambda i:IMP(AND(0<=i,i<v.len),v.at(i)==real_at(B,KO(B,o,i))))
# points: four numbers separated by " ", then tail
def quad(B,s):
    r=[s]
    for _ in range(3): r.append(NE(B,r[-1])+1)
    return r
PO={t:Ghost('point_at_'+str(len(t)),[BY,IS,IS],IS,(lambda t:lambda B,o,j:z3.If(j<=0,o,NE(B,quad(B,PO[t](B,o,j-1))[3])+len(t)))(t)) for t in (',\n','\n')}
def point(B,s,t):
    Q=quad(B,s); return AND(*[isreal(B,x) for x in Q],*[B[NE(B,x)]==32 for x in Q[:3]],chars_at(B,NE(B,Q[3]),t))
PTS={t:Ghost('points_text_'+str(len(t)),[BY,IS,IS,IS],BO,(lambda t:lambda B,o,n,end:AND(n>=0,ALL('j',lambda j:IMP(AND(0<=j,j<n),AND(point(B,PO[t](B,o,j),t),PO[t](B,o,j)>=o,PO[t](B,o,j+1)<=end))),PO[t](B,o,n)==end,end>=o))(t)) for t in PO}
def point_vals(P,n,B,o,t): return ALL('j',lambda j:IMP(AND(0<=j,j<n),AND(*[P.at(j)[c]==real_at(B,x) for c,x in enumerate(quad(B,PO[t](B,o,j)))])))
# curve
CTH='LIBNURBS TXT CURVE\n*Degree: '
def ct(B,q,N):
    """degree, knots, end of the knots, points"""
    d=q+len(CTH); k=NE(B,d)+9; e=KL(B,k,N); return d,k,e,e+17
TXTC=Ghost('curve_text',[BY,IS,IS,IS,IS],BO,lambda B,q,N,M,end:(lambda d,k,e,p:AND(chars_at(B,q,CTH),isint(B,d),chars_at(B,NE(B,d),'\n*Knots:\n'),LIST(B,k,N),chars_at(B,e,'\n*ControlPoints:\n'),PTS[',\n'](B,p,M,end)))(*ct(B,q,N)))
def curve_txt(o,B,q,N,M):
    d,k,e,p=ct(B,q,N)
    return [('degree',o.Degree==int_at(B,d)),('number of knots',KV(o.Knots).len==N),('every knot',list_vals(KV(o.Knots),B,k)),('number of control points',o.ControlPoints.len==M),('every control point',point_vals(o.ControlPoints,o.ControlPoints.len,B,p,',\n'))]
# writing: loops
def w_list(vals):
    """for (i..) { os << v[i]; if (i is not the last) os << ", "; }"""
    def o(c): return c.prearg('dst').n
    def inv(c):
        D=c.arg('dst'); B=D.B; v=vals(c); n=v.len; ok=NOT(D.fail); s=KO(B,o(c),n-1); oo=o(c)
        return [('formatting',AND(D.sci,D.prec>=16,IMP(c.prearg('dst').fail,D.fail))),
            ('position',IMP(ok,AND(D.n>=oo,IMP(c.k<n,D.n==KO(B,oo,c.k)),IMP(AND(c.k==n,n>0),AND(D.n>s,s>=oo,PRok(B,s,D.n),PR(B,s,D.n)==v.at(n-1),B[s]!=42,ALL('k',lambda k:IMP(AND(s<=k,k<D.n),NOT(SEP(B[k])))))),IMP(n==0,D.n==oo)))),
            ('one line',IMP(ok,nonl(B,oo,D.n))),
            ('numbers so far',IMP(ok,ALL('i',lambda i:IMP(AND(0<=i,i<c.k,i<n-1),AND(isreal(B,KO(B,oo,i)),KO(B,oo,i)>=oo,NE(B,KO(B,oo,i))<=D.n,real_at(B,KO(B,oo,i))==v.at(i),B[NE(B,KO(B,oo,i))]==44,B[NE(B,KO(B,oo,i))+1]==32)))))]
    def hints(c):
        B=c.arg('dst').B; return [KO.unfold(B,o(c),0)]
    def step(c):
        B=c.arg('dst').B; return [KO.unfold(B,o(c),c.k),ax_fsep(B,KO(B,o(c),c.k-1))]
    return Loop(inv=when('C16',inv),hints=when('C16',hints),step_hints=when('C16',step))
def w_points(P,t,j=lambda c:c.k,o=lambda c:c.prearg('dst').n,init=lambda c:[],more=lambda c:[],nested=False):
    def inv(c):
        D=c.arg('dst'); B=D.B; ok=NOT(D.fail)
        return [('formatting',AND(D.sci,D.prec>=16,IMP(c.prearg('dst').fail,D.fail))),('position',IMP(ok,AND(D.n==PO[t](B,o(c),j(c)),D.n>=o(c)))),
            ('points so far',IMP(ok,ALL('j',lambda i:IMP(AND(0<=i,i<j(c)),AND(point(B,PO[t](B,o(c),i),t),PO[t](B,o(c),i)>=o(c),PO[t](B,o(c),i+1)<=D.n,*[P(c).at(i)[a]==real_at(B,x) for a,x in enumerate(quad(B,PO[t](B,o(c),i)))])))))]
    def step(c):
        if nested: return []
        B=c.arg('dst').B; s=PO[t](B,o(c),j(c)-1); ok=NOT(c.arg('dst').fail)
        return [PO[t].unfold(B,o(c),j(c))]+[ax_fsep(B,x) for x in quad(B,s)]+[IMP(ok,AND(isreal(B,x),P(c).at(j(c)-1)[a]==real_at(B,x),chars_at(B,NE(B,x),' ' if a<3 else t))) for a,x in enumerate(quad(B,s))]+[IMP(ok,AND(s>=o(c),PO[t](B,o(c),j(c))==c.arg('dst').n))]
    return Loop(inv=when('C16',lambda c:inv(c)+more(c)),hints=when('C16',lambda c:[PO[t].unfold(c.arg('dst').B,o(c),0)]+(init(c) if c.headst is None else [])),step_hints=when('C16',step))
# ---- binary curve
def cb(B,d):
    """offsets of a binary curve whose data start at d: knots, point count, points, end"""
    k=d+4; n=kn_end(B,k); return k,n,n+4,n+4+32*RI(B,n)
def curve_bin(o,B,d):
    k,n,p,_=cb(B,d)
    return [('degree',o.Degree==RI(B,d)),('number of knots',KV(o.Knots).len==RI(B,k)),('every knot',knots_at(KV(o.Knots),B,k)),('number of control points',o.ControlPoints.len==RI(B,n)),('every control point',points_at(o.ControlPoints,o.ControlPoints.len,B,p))]
def curve_fits(B,d,end):
    k,n,p,e=cb(B,d); return AND(k+4<=end,RI(B,k)>=0,n+4<=end,RI(B,n)>=0,e<=end)
def load_ens(c,words,bin_,fin):
    B,q,end=c.src.B,c.old.src.pos,c.src.end; e,t=toks(B,q,end)
    return ([('the first word is the magic word',is_tok(t[0],'LIBNURBS')),('the mode is known',OR(is_tok(t[1],'TXT'),is_tok(t[1],'BIN'))),('the object type matches',is_tok(t[2],words)),('there was a header line',q<end)] if on('C17') else [])+\
        ([('binary: '+n,IMP(is_tok(t[1],'BIN'),f)) for n,f in bin_(c.this,B,dstart(B,q,end))] if on('C15') else [])+([('binary: complete payload, exactly consumed',IMP(is_tok(t[1],'BIN'),fin(c,B,dstart(B,q,end),end)))] if on('C15','C17') else [])
def load_hints(c,text,names=()):
    r=header_facts(c.src.B,c.old.src.pos,c.src.end,text) if on('C15','C17') else []
    if on('C17') and c.retlv is not None and 'current_key' in c.frame.names and c.frame.names['current_key'].loc in c.state.store:
        k=c.local('current_key'); r+=[IMP(AND(is_tok(toks(c.src.B,c.old.src.pos,c.src.end)[1][1],'TXT'),k.hi>k.lo),f) for f in section(k,c.local('content_lines'),names)]
    return r
# what an accepted section of a text file looks like
def one_number(L): return AND(L.len==1,L.at(0).hi>L.at(0).lo,onenum(L.at(0).B,L.at(0).lo,L.at(0).hi))
def numbers(L): return parts_ok(L,L.len,onenum)
def points(L): return parts_ok(L,L.len,v4text)
def grid_points(L): return AND(L.len>=2,onenum(L.at(0).B,L.at(0).lo,L.at(0).hi),ALL('i',lambda i:IMP(AND(1<=i,i<L.len),v4line(L.at(i)))))
def v4line(t): s=FNW(t.B,t.lo,t.hi); return v4text(t.B,s,LNW(t.B,s,t.hi))
CT={'Degree':one_number,'Knots':numbers,'ControlPoints':points}
ST={'DegreeU':one_number,'DegreeV':one_number,'KnotsU':numbers,'KnotsV':numbers,'ControlPoints':grid_points}
def linefacts(t):
    s=FNW(t.B,t.lo,t.hi); return [nonblank(t),ax_fnw(t.B,t.lo,t.hi),ax_lnw(t.B,s,t.hi),Focus(AND(s==t.lo,LNW(t.B,s,t.hi)>s),nonblank(t),ax_fnw(t.B,t.lo,t.hi),ax_lnw(t.B,s,t.hi))]
def known(k,names): return OR(*[eqtext(k,n) for n in names])
def section(k,L,secs): return [known(k,secs)]+[IMP(eqtext(k,n),f(L)) for n,f in secs.items()]
def nonblank(t): return AND(t.hi>t.lo,NOT(WS(t.B[t.lo])))
def is_key(l): return AND(l.hi>l.lo,l.B[l.lo]==42,FCH(l.B,58,l.lo,l.hi)<l.hi)
def txt_outer(secs,extra=lambda c:[],phases=lambda c:[],facts=lambda c:[],init=lambda c:[],done=lambda c:[],step=lambda c:[]):
    phases,facts,init,done,step=[when('C16',f) for f in (phases,facts,init,done,step)]
    return Loop(hints=lambda c:init(c) if c.headst is None else [],body_hints=facts,exit_hints=done,inv=lambda c:phases(c)+[NOT(c.arg('src').fail),('content lines start with something',ALL('i',lambda i:IMP(AND(0<=i,i<c.v('content_lines').len),nonblank(c.v('content_lines').at(i)))))]+extra(c),dec=lambda c:c.arg('src').end-c.arg('src').pos,
        step_hints=lambda c:step(c)+[IMP(AND(is_key(c.v('line')),c.head('current_key').hi>c.head('current_key').lo),f) for f in section(c.head('current_key'),c.head('content_lines'),secs) if on('C17')])
def parts_loops(tok,ok,outer=lambda c:[],inner=lambda c:[],facts=lambda c:[],left=lambda c:[]):
    """for (l : lines) while (getline(ss,token,','))"""
    def at(c,p): return AN[ok](c.v('ss').B,p,c.v('ss').end)
    outer,inner,facts,left=[when('C16',f) for f in (outer,inner,facts,left)]
    def unf(c,p): return AN[ok].unfold(c.v('ss').B,p,c.v('ss').end)
    return [Loop(inv=lambda c:([('every part so far is well formed',parts_ok(c.v('lines'),c.k,ok))] if on('C17') else [])+outer(c),step_hints=when('C17',lambda c:[AN[ok](c.v('ss').B,c.v('l').lo,c.v('l').hi)])),
        Loop(inv=lambda c:[NOT(c.v('ss').fail)]+([('the parts already read are well formed',at(c,c.v('ss').pos)==at(c,c.pre('ss').pos))] if on('C17') else [])+inner(c),dec=lambda c:c.v('ss').end-c.v('ss').pos,body_hints=facts,
            step_hints=when('C17',lambda c:[unf(c,c.head('ss').pos),unf(c,c.v('ss').pos),unf(c,FCH(c.v('ss').B,44,c.head('ss').pos,c.v('ss').end)+1)]),exit_hints=lambda c:left(c)+([unf(c,c.v('ss').pos),at(c,c.pre('ss').pos)] if on('C17') else []))]
def bininv(c,P,_):
    s=c.arg('src'); p0=c.prearg('src').pos
    return [('position',AND(s.pos==p0+32*c.k,NOT(s.fail),s.pos<=s.end,P.len==c.k)),('points so far',points_at(P,c.k,s.B,p0))]
# ---- reading a written text back
GN,GM=z3.Ints('text_items text_points')      # arbitrary: the contract holds for every number of knots and points
def upto(W,B,c,lo,hi,x,*facts): return Focus(IMP(W,FCH(B,c,lo,hi)==x),ax_fch(B,c,lo,hi),*facts)
def trimmed(W,B,lo,hi,a,b,*facts):
    """[lo,hi) without white space at the ends is [a,b)"""
    x=Focus(IMP(W,FNW(B,lo,hi)==a),ax_fnw(B,lo,hi),*facts); y=Focus(IMP(W,LNW(B,a,hi)==b),ax_lnw(B,a,hi),*facts); return [x,y]
def word(W,B,lo,hi,a,b,*facts):
    """the next word of [lo,hi) is [a,b)"""
    x=Focus(IMP(W,FNW(B,lo,hi)==a),ax_fnw(B,lo,hi),*facts); y=Focus(IMP(W,FWS(B,a,hi)==b),ax_fws(B,a,hi),*facts); return [x,y]
def f_key(W,B,p,end,key,facts):
    """line "*key:" """
    n=len(key); e=p+n+2
    a=Focus(IMP(W,AND(chars_at(B,p,'*'+key+':\n'),e<end)),*facts); g=a.goal
    return [a,upto(W,B,I(10),p,end,e,g)]+trimmed(W,B,p,e,p,e,g)+[upto(W,B,I(58),p,e,e-1,g)]+trimmed(W,B,p+1,e-1,p+1,e-1,g)+trimmed(W,B,e,e,e,e,g)
def f_keyval(W,B,p,end,key,facts):
    """line "*key: number" """
    d=p+len(key)+3; e=NE(B,d); c=d-2
    a=Focus(IMP(W,AND(chars_at(B,p,'*'+key+': '),isint(B,d),B[e]==10,e<end)),*facts); g=a.goal; f=ax_fsep(B,d)
    return [a,upto(W,B,I(10),p,end,e,g,f)]+trimmed(W,B,p,e,p,e,g,f)+[upto(W,B,I(58),p,e,c,g)]+trimmed(W,B,p+1,c,p+1,c,g)+trimmed(W,B,c+1,e,d,e,g,f)+word(W,B,d,e,d,e,g,f)
def f_list(W,B,o,end,N,facts):
    """line of numbers"""
    e=KL(B,o,N)
    a=Focus(IMP(W,AND(LIST(B,o,N),e<end)),*facts); g=a.goal
    b=Focus(IMP(W,AND(e>=o,B[e]==10,nonl(B,o,e))),g,LIST.unfold(B,o,N))
    z=Focus(IMP(AND(W,N>0),AND(item(B,o,N,I(0)),item(B,o,N,N-1))),g,LIST.unfold(B,o,N))
    f=[z.goal,KO.unfold(B,o,0),KL.unfold(B,o,N),ax_fsep(B,KO(B,o,N-1))]
    c=Focus(IMP(AND(W,N>0),AND(e>o,NOT(WS(B[o])),NOT(WS(B[e-1])),B[o]!=42)),*f); d=Focus(IMP(AND(W,N<=0),e==o),*f)
    return [a,b,z,c,d,upto(W,B,I(10),o,end,e,a.goal,b.goal)]+trimmed(W,B,o,e,o,e,b.goal,c.goal,d.goal)
def f_items(W,B,o,N,t):
    """part t of the list line: from just after the comma"""
    s=KO(B,o,t); e=NE(B,s); L=KL(B,o,N); p=z3.If(t<=0,o,NE(B,KO(B,o,t-1))+1); W=AND(W,LIST(B,o,N),0<=t,t<N)
    a=Focus(IMP(W,AND(item(B,o,N,t),IMP(t>0,item(B,o,N,t-1)),B[L]==10)),LIST.unfold(B,o,N))
    f=[a.goal,KO.unfold(B,o,t),KL.unfold(B,o,N),ax_fsep(B,s)]
    b=Focus(IMP(W,AND(s==z3.If(t<=0,o,NE(B,KO(B,o,t-1))+2),s<e,e<=L,IMP(t==N-1,e==L),IMP(t<N-1,AND(B[e]==44,e<L)),IMP(t>0,B[s-1]==32))),*f)
    f=[a.goal,b.goal,ax_fsep(B,s)]
    return [a,b,upto(W,B,I(44),p,L,e,*f)]+trimmed(W,B,p,e,s,e,*f)+word(W,B,s,e,s,e,*f)
def tt(W,B,t,o,M,end,j):
    s=PO[t](B,o,j); Q=quad(B,s); e=NE(B,Q[3]); W=AND(W,PTS[t](B,o,M,end),0<=j,j<M)
    a=Focus(IMP(W,AND(point(B,s,t),s>=o,PO[t](B,o,j+1)<=end,PO[t](B,o,j+1)==e+len(t))),PTS[t].unfold(B,o,M,end),PO[t].unfold(B,o,j+1)); return s,Q,e,W,a
def f_pline(W,B,t,o,M,end,j):
    """point line j"""
    s,Q,e,W,a=tt(W,B,t,o,M,end,j); f=[a.goal]+[ax_fsep(B,x) for x in Q]; h=e+len(t)-1
    return [a,upto(W,B,I(10),s,end,h,*f)]+trimmed(W,B,s,h,s,h,*f)
def f_pwords(W,B,t,o,M,end,j):
    s,Q,e,W,a=tt(W,B,t,o,M,end,j); r=[a]; f=[a.goal]+[ax_fsep(B,x) for x in Q]; h=e+len(t)-1
    if t[0]==',': r+=[upto(W,B,I(44),s,h,e,*f)]+trimmed(W,B,s,e,s,e,*f)
    lo=s
    for x in Q: r+=word(W,B,lo,e,x,NE(B,x),*f); lo=NE(B,x)
    return r
# phases of the reading loop over a written curve
def same(t,B,lo,hi): return AND(t.B==B,t.lo==lo,t.hi==hi)
def plines(L,n,B,o,t): return ALL('i',lambda i:IMP(AND(0<=i,i<n),same(L.at(i),B,PO[t](B,o,i),NE(B,quad(B,PO[t](B,o,i))[3])+len(t)-1)))
def c_txt(c):
    q=c.old.src.pos; S=c.old.src; B,end=S.B,S.end; return TXTC(B,q,GN,GM,end),B,q,end,ct(B,q,GN)
def now(c): return c.arg('src').pos,c.v('current_key'),c.v('content_lines'),c.this
def head(c): return c.arg('src',c.headst).pos,c.head('current_key'),c.head('content_lines'),c._thisat(c.headst)
def c_phase(c,st):
    W,B,q,end,(d,k,e,p)=c_txt(c); pos,K,L,o=st; t=',\n'; kn,cp=KV(o.Knots),o.ControlPoints
    return [(cp.len==0,*x) for x in ((pos==q+19,K.hi==K.lo,L.len==0,kn.len==0),
        (pos==NE(B,d)+1,eqtext(K,'Degree'),L.len==1,same(L.at(0),B,d,NE(B,d)),kn.len==0),
        (pos==k,eqtext(K,'Knots'),L.len==0,o.Degree==int_at(B,d),kn.len==0),
        (pos==e+1,eqtext(K,'Knots'),z3.If(GN>0,AND(L.len==1,same(L.at(0),B,k,e)),L.len==0),o.Degree==int_at(B,d),kn.len==0),
        (pos==PO[t](B,p,L.len),eqtext(K,'ControlPoints'),L.len<=GM,plines(L,L.len,B,p,t),o.Degree==int_at(B,d),kn.len==GN,list_vals(kn,B,k)))]
def c_phases(c): return IMP(c_txt(c)[0],OR(*[AND(*x) for x in c_phase(c,now(c))]))
KEYS=('Degree','Knots','ControlPoints','DegreeU','DegreeV','KnotsU','KnotsV')
def steps(c,W,end,h,n,wins,last):
    """one line further: the trimmed line in each phase (window, is it a key line), then each clause of the next phase"""
    ln=c.v('line'); hp=head(c)[0]; B=wins[0][0]; x=FCH(B,10,hp,end); f0=same(ln,B,FNW(B,hp,x),LNW(B,FNW(B,hp,x),x)); r=[f0]
    for i,ph in enumerate(h):
        j=min(i+1,len(n)-1); B,lo,hi,key,guard=wins[i]; qf=[y for y in ph if not sym.has_quant(y)]; g=AND(W,*qf); V=W
        if i==len(h)-1: l=Focus(IMP(g,last[0]),hp<end,c.head('content_lines').len>=0,Focus(IMP(W,last[4]==end),last[2],last[3])); r.append(l); V=last[1]
        fs=[IMP(V,FCH(B,10,lo,end)==hi),IMP(V,FNW(B,lo,hi)==lo),IMP(V,LNW(B,lo,hi)==hi)]+([l.goal,last[2]] if i==len(h)-1 else [])
        a=Focus(IMP(g,same(ln,B,lo,hi)),f0,*fs)
        b=Focus(IMP(AND(g,guard),is_key(ln)),a.goal,IMP(W,FCH(B,58,lo,hi)==key),IMP(W,AND(B[lo]==42,lo<=key,key<hi))) if key is not None else Focus(IMP(AND(g,guard),NOT(is_key(ln))),a.goal,*fs,IMP(AND(V,guard),B[lo]!=42))
        r+=[a,b]
        r+=[IMP(AND(W,*ph),y) if sym.has_quant(y) or i and wins[i-1][3] is None and i<len(h)-1 and not any(y.eq(eqtext(now(c)[1],m)) for m in KEYS) else Focus(IMP(g,y),a.goal,b.goal,qf=True) for y in n[j]]
    return r
def c_steps(c):
    W,B,q,end,(d,k,e,p)=c_txt(c); t=',\n'; T=z3.BoolVal(True); s=PO[t](B,p,c.head('content_lines').len)
    j=c.head('content_lines').len
    return steps(c,W,end,c_phase(c,head(c)),c_phase(c,now(c)),[(B,q+19,NE(B,d),q+26,T),(B,NE(B,d)+1,NE(B,d)+8,NE(B,d)+7,T),(B,k,e,None,GN>0),(B,e+1,e+16,e+15,T),(B,s,NE(B,quad(B,s)[3])+1,None,T)],(AND(0<=j,j<GM),AND(W,PTS[t](B,p,GM,end),0<=j,j<GM),IMP(W,PTS[t](B,p,GM,end)),PTS[t].unfold(B,p,GM,end),PO[t](B,p,GM)))
def c_init(c):
    W,B,q,end,(d,k,e,p)=c_txt(c); t=',\n'
    a=Focus(IMP(W,header(B,q,end,'LIBNURBS TXT CURVE')),TXTC.unfold(B,q,GN,GM,end),LIST.unfold(B,k,GN),PTS[t].unfold(B,p,GM,end),ax_fsep(B,d))
    return [a]+header_facts(B,q,end,'LIBNURBS TXT CURVE')
def c_facts(c):
    W,B,q,end,(d,k,e,p)=c_txt(c); t=',\n'; j=c.v('content_lines').len
    u=[TXTC.unfold(B,q,GN,GM,end),LIST.unfold(B,k,GN),PTS[t].unfold(B,p,GM,end)]
    return f_keyval(W,B,q+19,end,'Degree',u+[ax_fsep(B,d)])+f_key(W,B,NE(B,d)+1,end,'Knots',u)+f_list(W,B,k,end,GN,u)+f_key(W,B,e+1,end,'ControlPoints',u)+[Focus(IMP(W,PTS[t](B,p,GM,end)),*u),PO[t].unfold(B,p,0)]+f_pline(W,B,t,p,GM,end,j)
def list_loops(N,at,field):
    """the loops that read a written list of numbers into field"""
    def W_(c):
        W,B,o,e=at(c); return AND(W,N>0,LIST(B,o,N)),B,o,e
    def outer(c):
        W,B,o,e=W_(c); L=c.v('lines'); v=KV(field(c.this)); v0=KV(field(c.prethis))
        return [('nothing read yet',IMP(c.k==0,v.len==v0.len)),('the written numbers',IMP(AND(W,L.len==1,same(L.at(0),B,o,e),v0.len==0),AND(v.len==z3.If(c.k>0,N,0),list_vals(v,B,o))))]
    def inner(c):
        W,B,o,e=W_(c); l=c.v('l'); s=c.v('ss'); v=KV(field(c.this)); v0=KV(field(c.prethis)); t=v.len
        g=AND(W,same(l,B,o,e),v0.len==0)
        return [('position in the written numbers',IMP(g,AND(t<=N,s.B==B,s.end==e,s.pos==z3.If(t<=0,o,z3.If(t<N,NE(B,KO(B,o,t-1))+1,e))))),('the written numbers so far',ALL('i',lambda i:IMP(AND(g,0<=i,i<t),v.at(i)==real_at(B,KO(B,o,i)))))]
    def facts(c):
        W,B,o,e=W_(c); t=KV(field(c.this)).len
        return f_items(W,B,o,N,t)
    return parts_loops('token',onenum,outer,inner,facts,lambda c:facts(c)[:2])
def point_loops(M,at,field,t):
    def outer(c):
        W,B,o,end=at(c); L=c.v('lines'); v=field(c.this); v0=field(c.prethis)
        return [('nothing read yet',IMP(c.k==0,v.len==v0.len)),('the written points',IMP(AND(W,PTS[t](B,o,M,end),L.len==M,plines(L,M,B,o,t),v0.len==0),AND(v.len==c.k,point_vals(v,v.len,B,o,t))))]
    def inner(c):
        W,B,o,end=at(c); l=c.v('l'); s=c.v('ss'); v=field(c.this); v0=field(c.prethis); j=v0.len; p=PO[t](B,o,j); h=NE(B,quad(B,p)[3])+len(t)-1
        return [('the written point',IMP(AND(W,PTS[t](B,o,M,end),j<M,same(l,B,p,h)),AND(s.B==B,s.end==h,OR(AND(s.pos==p,v.len==j),AND(s.pos==h,v.len==j+1,*[v.at(j)[a]==real_at(B,x) for a,x in enumerate(quad(B,p))]))))),
            ('earlier points',ALL('i',lambda i:IMP(AND(0<=i,i<j),AND(v.len>=j,*[v.at(i)[a]==v0.at(i)[a] for a in range(4)]))))]
    def facts(c):
        W,B,o,end=at(c); return f_pwords(W,B,t,o,M,end,field(c.prethis).len)
    return parts_loops('cp_str',v4text,outer,inner,facts,lambda c:facts(c)[:1])
def c_list(c):
    W,B,q,end,(d,k,e,p)=c_txt(c); return W,B,k,e
def c_points(c):
    W,B,q,end,(d,k,e,p)=c_txt(c); return W,B,p,end
def c_done(c):
    W,B,q,end,(d,k,e,p)=c_txt(c); t=',\n'; L=c.v('content_lines'); h=c_phase(c,now(c))[-1]
    u=[TXTC.unfold(B,q,GN,GM,end),LIST.unfold(B,k,GN),PTS[t].unfold(B,p,GM,end)]
    a=Focus(IMP(W,AND(PTS[t](B,p,GM,end),q+19<end,NE(B,d)+1<end,k<end,e+1<end)),*u,ax_fsep(B,d))
    return [a,f_pline(W,B,t,p,GM,end,L.len)[0]]+[IMP(W,x) for x in h]+[IMP(W,L.len==GM)]
con('Curve::LoadFromFile(istream)','src',props=['C15','C16','C17'],modifies=['this','src'],throw_type='runtime_error',
    requires=lambda c:[NOT(c.src.fail)],
    throws_at=lambda c:[(n,f) for P,n,f in [('C15','the file is not a complete binary curve',NOT(AND(header(c.src.B,c.old.src.pos,c.src.end,'LIBNURBS BIN CURVE'),curve_fits(c.src.B,c.old.src.pos+19,c.src.end)))),('C16','the file is not a written text curve',NOT(c_txt(c)[0])),('C17','may throw',z3.BoolVal(True))] if on(P)],
    ensures=lambda c:load_ens(c,'CURVE',curve_bin,lambda c,B,d,end:AND(curve_fits(B,d,end),c.src.pos==cb(B,d)[3],NOT(c.src.fail)))+
        [(n,IMP(header(c.src.B,c.old.src.pos,c.src.end,'LIBNURBS BIN CURVE'),f)) for n,f in curve_bin(c.this,c.src.B,c.old.src.pos+19)+[('exactly consumed',c.src.pos==cb(c.src.B,c.old.src.pos+19)[3])] if on('C15')]+
        [('text: '+n,IMP(c_txt(c)[0],f)) for n,f in curve_txt(c.this,c.src.B,c.old.src.pos,GN,GM) if on('C16')],
    hints=lambda c:load_hints(c,'LIBNURBS BIN CURVE',CT)+when('C16',c_init)(c),
    loops=[Loop(inv=lambda c:bininv(c,c.this.ControlPoints,'ControlPoints')),
        txt_outer(CT,phases=lambda c:[('written text',c_phases(c))],facts=c_facts,init=lambda c:c_init(c),step=lambda c:c_steps(c),done=lambda c:c_done(c))]+list_loops(GN,c_list,lambda o:o.Knots)+point_loops(GM,c_points,lambda o:o.ControlPoints,',\n'))
def csave(B,q,this,T):
    """where the parts of the text written so far lie"""
    N=KV(this.Knots).len; d,k,e,p=ct(B,q,N)
    return [ax_fsep(B,d),IMP(T,chars_at(B,q,CTH)),IMP(T,AND(isint(B,d),int_at(B,d)==this.Degree)),IMP(T,chars_at(B,NE(B,d),'\n*Knots:\n')),KL.unfold(B,k,N),ax_fsep(B,KO(B,k,N-1)),KO.unfold(B,k,0),LIST.unfold(B,k,N),IMP(T,LIST(B,k,N)),
        IMP(T,list_vals(KV(this.Knots),B,k)),IMP(T,chars_at(B,e,'\n*ControlPoints:\n')),PO[',\n'].unfold(B,p,0)]
def c_start(c): return ct(c.arg('dst').B,c.old.dst.n,KV(c.this.Knots).len)[3]
def save_hints(c):
    B,q=c.dst.B,c.old.dst.n; N,M=KV(c.this.Knots).len,c.this.ControlPoints.len; p=ct(B,q,N)[3]; T=NOT(c.binary)
    return csave(B,q,c.this,T)+[TXTC.unfold(B,q,N,M,c.dst.n),PTS[',\n'].unfold(B,p,M,c.dst.n)]
con('Curve::SaveToFile(ostream,bool)','dst binary',props=['C15','C16'],modifies=['dst'],throw_type='runtime_error',throws_at=lambda c:[('the stream failed',c.dst.fail)],
    ensures=lambda c:[('binary: '+n,IMP(c.binary,f)) for n,f in [('header',chars_at(c.dst.B,c.old.dst.n,'LIBNURBS BIN CURVE\n'))]+curve_bin(c.this,c.dst.B,c.old.dst.n+19)+[('end',c.dst.n==cb(c.dst.B,c.old.dst.n+19)[3])] if on('C15')]+[('no failure is hidden',NOT(c.dst.fail))]+
        [('text: '+n,IMP(NOT(c.binary),f)) for n,f in [('layout',TXTC(c.dst.B,c.old.dst.n,KV(c.this.Knots).len,c.this.ControlPoints.len,c.dst.n))]+curve_txt(c.this,c.dst.B,c.old.dst.n,KV(c.this.Knots).len,c.this.ControlPoints.len) if on('C16')],
    hints=lambda c:[] if c.thrown else when('C16',save_hints)(c),
    loops=[Loop(inv=lambda c:[('position',AND(c.arg('dst').n==c.prearg('dst').n+32*c.k,NOT(c.arg('dst').fail))),('points so far',points_at(c.this.ControlPoints,c.k,c.arg('dst').B,c.prearg('dst').n))]),w_list(lambda c:KV(c.this.Knots)),w_points(lambda c:c.this.ControlPoints,',\n',o=c_start,init=lambda c:csave(c.arg('dst').B,c.old.dst.n,c.this,NOT(c.arg('dst').fail)))])
# ---- binary surface
def sb(B,d):
    k=d+8; l=kn_end(B,k); n=kn_end(B,l); return k,l,n,n+8,n+8+32*(RI(B,n)*RI(B,n+4))
def surf_bin(o,B,d):
    k,l,n,p,_=sb(B,d); g=o.ControlPoints
    return [('degrees',AND(o.DegreeU==RI(B,d),o.DegreeV==RI(B,d+4))),('number of knots in u',KV(o.KnotsU).len==RI(B,k)),('every knot in u',knots_at(KV(o.KnotsU),B,k)),('number of knots in v',KV(o.KnotsV).len==RI(B,l)),('every knot in v',knots_at(KV(o.KnotsV),B,l)),
        ('dimensions',AND(g.UCount==RI(B,n),g.VCount==RI(B,n+4))),('number of control points',g.Values.len==RI(B,n)*RI(B,n+4)),('every control point',points_at(g.Values,g.Values.len,B,p))]
def surf_fits(B,d,end):
    k,l,n,p,e=sb(B,d); return AND(k+4<=end,RI(B,k)>=0,l+4<=end,RI(B,l)>=0,n+8<=end,RI(B,n)>0,RI(B,n+4)>0,RI(B,n)*RI(B,n+4)<=2**31-1,e<=end)
SH='LIBNURBS BIN SURFACE'
@lemma('quotient bound of a product')
def quot(a,b,M): return IMP(AND(a>0,b>0,M>=0),(a<=M/b)==(a*b<=M))
def consistent(g): return AND(g.UCount>=0,g.VCount>=0,g.Values.len==g.UCount*g.VCount)
# surface text
STH='LIBNURBS TXT SURFACE\n*DegreeU: '
NL='\n'
def st(B,q,N1,N2):
    """degrees, knots and their ends, dimensions, points"""
    d1=q+len(STH); d2=NE(B,d1)+11; k1=NE(B,d2)+10; e1=KL(B,k1,N1); k2=e1+10; e2=KL(B,k2,N2); m1=e2+17; m2=NE(B,m1)+1; return d1,d2,k1,e1,k2,e2,m1,m2,NE(B,m2)+1
def ts_body(B,q,N1,N2,M,end):
    d1,d2,k1,e1,k2,e2,m1,m2,p=st(B,q,N1,N2)
    return AND(chars_at(B,q,STH),isint(B,d1),chars_at(B,NE(B,d1),'\n*DegreeV: '),isint(B,d2),chars_at(B,NE(B,d2),'\n*KnotsU:\n'),LIST(B,k1,N1),chars_at(B,e1,'\n*KnotsV:\n'),LIST(B,k2,N2),chars_at(B,e2,'\n*ControlPoints:\n'),
        isint(B,m1),B[NE(B,m1)]==32,isint(B,m2),B[NE(B,m2)]==10,PTS[NL](B,p,M,end),int_at(B,m1)>0,int_at(B,m2)>0,M==int_at(B,m1)*int_at(B,m2),M<=2**26)
TXTS=Ghost('surface_text',[BY,IS,IS,IS,IS,IS],BO,ts_body)
def surf_txt(o,B,q,N1,N2,M):
    d1,d2,k1,e1,k2,e2,m1,m2,p=st(B,q,N1,N2); g=o.ControlPoints
    return [('degrees',AND(o.DegreeU==int_at(B,d1),o.DegreeV==int_at(B,d2))),('number of knots in u',KV(o.KnotsU).len==N1),('every knot in u',list_vals(KV(o.KnotsU),B,k1)),('number of knots in v',KV(o.KnotsV).len==N2),('every knot in v',list_vals(KV(o.KnotsV),B,k2)),
        ('dimensions',AND(g.UCount==int_at(B,m1),g.VCount==int_at(B,m2))),('number of control points',g.Values.len==M),('every control point',point_vals(g.Values,g.Values.len,B,p,NL))]
def ssave(B,q,this,T):
    """where the parts of the text written so far lie"""
    N1,N2=KV(this.KnotsU).len,KV(this.KnotsV).len; d1,d2,k1,e1,k2,e2,m1,m2,p=st(B,q,N1,N2); g=this.ControlPoints
    return [ax_fsep(B,d1),IMP(T,chars_at(B,q,STH)),IMP(T,AND(isint(B,d1),int_at(B,d1)==this.DegreeU)),IMP(T,chars_at(B,NE(B,d1),'\n*DegreeV: ')),ax_fsep(B,d2),IMP(T,AND(isint(B,d2),int_at(B,d2)==this.DegreeV)),IMP(T,chars_at(B,NE(B,d2),'\n*KnotsU:\n')),
        KL.unfold(B,k1,N1),ax_fsep(B,KO(B,k1,N1-1)),KO.unfold(B,k1,0),LIST.unfold(B,k1,N1),IMP(T,LIST(B,k1,N1)),IMP(T,list_vals(KV(this.KnotsU),B,k1)),IMP(T,chars_at(B,e1,'\n*KnotsV:\n')),
        KL.unfold(B,k2,N2),ax_fsep(B,KO(B,k2,N2-1)),KO.unfold(B,k2,0),LIST.unfold(B,k2,N2),IMP(T,LIST(B,k2,N2)),IMP(T,list_vals(KV(this.KnotsV),B,k2)),IMP(T,chars_at(B,e2,'\n*ControlPoints:\n')),
        ax_fsep(B,m1),IMP(T,AND(isint(B,m1),int_at(B,m1)==g.UCount,B[NE(B,m1)]==32)),ax_fsep(B,m2),IMP(T,AND(isint(B,m2),int_at(B,m2)==g.VCount,B[NE(B,m2)]==10)),PO[NL].unfold(B,p,0)]
GN2=z3.Int('text_items2')
def s_txt(c):
    q=c.old.src.pos; S=c.old.src; B,end=S.B,S.end; return TXTS(B,q,GN,GN2,GM,end),B,q,end,st(B,q,GN,GN2)
def s_phase(c,state):
    W,B,q,end,(d1,d2,k1,e1,k2,e2,m1,m2,p)=s_txt(c); pos,K,L,o=state; u,v=KV(o.KnotsU),KV(o.KnotsV)
    D1=o.DegreeU==int_at(B,d1); D2=o.DegreeV==int_at(B,d2); Z=(u.len==0,v.len==0); U=(u.len==GN,list_vals(u,B,k1)); V=(v.len==GN2,list_vals(v,B,k2)); one=lambda a,b:(L.len==1,same(L.at(0),B,a,b))
    lst=lambda N,k,e: z3.If(N>0,AND(*one(k,e)),L.len==0)
    return [(pos==q+21,K.hi==K.lo,L.len==0,*Z),
        (pos==NE(B,d1)+1,eqtext(K,'DegreeU'),*one(d1,NE(B,d1)),*Z),
        (pos==NE(B,d2)+1,eqtext(K,'DegreeV'),*one(d2,NE(B,d2)),*Z,D1),
        (pos==k1,eqtext(K,'KnotsU'),L.len==0,*Z,D1,D2),
        (pos==e1+1,eqtext(K,'KnotsU'),lst(GN,k1,e1),*Z,D1,D2),
        (pos==k2,eqtext(K,'KnotsV'),L.len==0,v.len==0,D1,D2,*U),
        (pos==e2+1,eqtext(K,'KnotsV'),lst(GN2,k2,e2),v.len==0,D1,D2,*U),
        (pos==m1,eqtext(K,'ControlPoints'),L.len==0,D1,D2,*U,*V),
        (pos==PO[NL](B,p,L.len-1),eqtext(K,'ControlPoints'),L.len>=1,L.len<=GM+1,same(L.at(0),B,m1,NE(B,m2)),glines(L,L.len,B,p),D1,D2,*U,*V)]
def glines(L,n,B,o): return ALL('i',lambda i:IMP(AND(1<=i,i<n),same(L.at(i),B,PO[NL](B,o,i-1),NE(B,quad(B,PO[NL](B,o,i-1))[3]))))
def s_phases(c): return IMP(s_txt(c)[0],OR(*[AND(*x) for x in s_phase(c,now(c))]))
def s_steps(c):
    W,B,q,end,(d1,d2,k1,e1,k2,e2,m1,m2,p)=s_txt(c); T=z3.BoolVal(True); s=PO[NL](B,p,c.head('content_lines').len-1)
    j=c.head('content_lines').len-1
    return steps(c,W,end,s_phase(c,head(c)),s_phase(c,now(c)),[(B,q+21,NE(B,d1),q+29,T),(B,NE(B,d1)+1,NE(B,d2),NE(B,d1)+9,T),(B,NE(B,d2)+1,NE(B,d2)+9,NE(B,d2)+8,T),(B,k1,e1,None,GN>0),(B,e1+1,e1+9,e1+8,T),(B,k2,e2,None,GN2>0),(B,e2+1,e2+16,e2+15,T),(B,m1,NE(B,m2),None,T),(B,s,NE(B,quad(B,s)[3]),None,T)],(AND(0<=j,j<GM),AND(W,PTS[NL](B,p,GM,end),0<=j,j<GM),IMP(W,PTS[NL](B,p,GM,end)),PTS[NL].unfold(B,p,GM,end),PO[NL](B,p,GM)))
def s_unf(c):
    W,B,q,end,(d1,d2,k1,e1,k2,e2,m1,m2,p)=s_txt(c)
    return [TXTS.unfold(B,q,GN,GN2,GM,end),LIST.unfold(B,k1,GN),LIST.unfold(B,k2,GN2),PTS[NL].unfold(B,p,GM,end)]+[ax_fsep(B,x) for x in (d1,d2,m1,m2)]
def s_order(c):
    """the parts lie one after the other"""
    W,B,q,end,(d1,d2,k1,e1,k2,e2,m1,m2,p)=s_txt(c); T=ts_body(B,q,GN,GN2,GM,end)
    a=Focus(IMP(W,AND(*[x for x in T.children() if not z3.is_quantifier(x)])),TXTS.unfold(B,q,GN,GN2,GM,end))
    b=Focus(IMP(W,AND(e1>=k1,e2>=k2,end>=p)),a.goal,LIST.unfold(B,k1,GN),LIST.unfold(B,k2,GN2),PTS[NL].unfold(B,p,GM,end))
    d=Focus(IMP(W,AND(d1>q,NE(B,d1)>d1,NE(B,d2)>d2,NE(B,m1)>m1,NE(B,m2)>m2,q+21<end,NE(B,d1)<end,NE(B,d2)+10<end,k1<end,e1<end,e1+10<end,k2<end,e2<end,e2+17<end,m1<end,NE(B,m2)<end)),a.goal,b.goal)
    return [a,b,d]
def s_init(c):
    W,B,q,end,(d1,*_)=s_txt(c); o=s_order(c); h='LIBNURBS TXT SURFACE'
    return o+[Focus(IMP(W,header(B,q,end,h)),o[0].goal,o[2].goal)]+header_facts(B,q,end,h)
def f_dims(W,B,m1,m2,end,facts):
    e=NE(B,m2); a=Focus(IMP(W,AND(isint(B,m1),isint(B,m2),B[NE(B,m1)]==32,B[e]==10,e<end)),*facts); f=[a.goal,ax_fsep(B,m1),ax_fsep(B,m2)]
    return [a,upto(W,B,I(10),m1,end,e,*f)]+trimmed(W,B,m1,e,m1,e,*f)+word(W,B,m1,e,m1,NE(B,m1),*f)+word(W,B,NE(B,m1),e,m2,e,*f)
def s_facts(c):
    W,B,q,end,(d1,d2,k1,e1,k2,e2,m1,m2,p)=s_txt(c); o=s_order(c); g=[o[0].goal,o[2].goal]; j=c.v('content_lines').len-1
    return o+f_keyval(W,B,q+21,end,'DegreeU',g)+f_keyval(W,B,NE(B,d1)+1,end,'DegreeV',g)+f_key(W,B,NE(B,d2)+1,end,'KnotsU',g)+f_list(W,B,k1,end,GN,g)+f_key(W,B,e1+1,end,'KnotsV',g)+f_list(W,B,k2,end,GN2,g)+f_key(W,B,e2+1,end,'ControlPoints',g)+f_dims(W,B,m1,m2,end,g)+\
        [Focus(IMP(W,PTS[NL](B,p,GM,end)),*g),PO[NL].unfold(B,p,0)]+f_pline(W,B,NL,p,GM,end,j)
def s_done(c):
    W,B,q,end,(d1,d2,k1,e1,k2,e2,m1,m2,p)=s_txt(c); o=s_order(c); g=[o[0].goal,o[2].goal]; L=c.v('content_lines')
    return o+[Focus(IMP(W,PTS[NL](B,p,GM,end)),*g),f_pline(W,B,NL,p,GM,end,L.len-1)[0]]+[IMP(W,x) for x in s_phase(c,now(c))[-1]]+[IMP(W,L.len==GM+1)]+f_dims(W,B,m1,m2,end,g)
def s_list(which):
    def at(c):
        W,B,q,end,(d1,d2,k1,e1,k2,e2,m1,m2,p)=s_txt(c); return (W,B,k1,e1) if which==0 else (W,B,k2,e2)
    return at
def s_grid_inv(c):
    W,B,q,end,(d1,d2,k1,e1,k2,e2,m1,m2,p)=s_txt(c); L=c.v('lines'); g=AND(W,PTS[NL](B,p,GM,end),L.len==GM+1,glines(L,GM+1,B,p)); P=c.this.ControlPoints.Values
    return [('the written points so far',ALL('i',lambda i:IMP(AND(g,0<=i,i<c.k-1),AND(*[P.at(i)[a]==real_at(B,x) for a,x in enumerate(quad(B,PO[NL](B,p,i)))]))))]
def s_grid_step(c):
    W,B,q,end,(d1,d2,k1,e1,k2,e2,m1,m2,p)=s_txt(c); L=c.v('lines'); g=AND(W,PTS[NL](B,p,GM,end),L.len==GM+1,glines(L,GM+1,B,p)); P=c.this.ControlPoints.Values
    return [IMP(g,P.at(c.k-2)[a]==real_at(B,x)) for a,x in enumerate(quad(B,PO[NL](B,p,c.k-2)))]
def s_grid_facts(c):
    W,B,q,end,(d1,d2,k1,e1,k2,e2,m1,m2,p)=s_txt(c); L=c.v('lines'); j=c.k-1; g=AND(W,PTS[NL](B,p,GM,end),L.len==GM+1,glines(L,GM+1,B,p)); s=PO[NL](B,p,j)
    return [IMP(g,same(L.at(c.k),B,s,NE(B,quad(B,s)[3])))]+f_pline(W,B,NL,p,GM,end,j)+f_pwords(W,B,NL,p,GM,end,j)
con('Surface::LoadFromFile(istream)','src',props=['C15','C16','C17'],modifies=['this','src'],throw_type='runtime_error',
    requires=lambda c:[NOT(c.src.fail)],
    throws_at=lambda c:[(n,f) for P,n,f in [('C15','the file is not a complete binary surface',NOT(AND(header(c.src.B,c.old.src.pos,c.src.end,SH),surf_fits(c.src.B,c.old.src.pos+21,c.src.end)))),('C16','the file is not a written text surface',NOT(s_txt(c)[0])),('C17','may throw',z3.BoolVal(True))] if on(P)],
    ensures=lambda c:load_ens(c,'SURFACE',surf_bin,lambda c,B,d,end:AND(surf_fits(B,d,end),c.src.pos==sb(B,d)[4],NOT(c.src.fail)))+
        [(n,IMP(header(c.src.B,c.old.src.pos,c.src.end,SH),f)) for n,f in surf_bin(c.this,c.src.B,c.old.src.pos+21)+[('exactly consumed',c.src.pos==sb(c.src.B,c.old.src.pos+21)[4])] if on('C15')]+
        [('as many control points as the dimensions say',consistent(c.this.ControlPoints))]+
        [('text: '+n,IMP(s_txt(c)[0],f)) for n,f in surf_txt(c.this,c.src.B,c.old.src.pos,GN,GN2,GM) if on('C16')],
    hints=lambda c:load_hints(c,SH,ST)+when('C16',s_init)(c)+[quot(c.this.ControlPoints.UCount,c.this.ControlPoints.VCount,I(2**31-1))],
    loops=[Loop(inv=lambda c:bininv(c,c.this.ControlPoints.Values,0)),
        txt_outer(ST,lambda c:[('grid',consistent(c.this.ControlPoints))],lambda c:[('written text',s_phases(c))],s_facts,s_init,s_done,s_steps),
        *list_loops(GN,s_list(0),lambda o:o.KnotsU),*list_loops(GN2,s_list(1),lambda o:o.KnotsV),Loop(inv=lambda c:[('storage',consistent(c.this.ControlPoints))]+([('four numbers on every line so far',ALL('i',lambda i:IMP(AND(1<=i,i<c.k),v4line(c.v('lines').at(i)))))] if on('C17') else [])+when('C16',s_grid_inv)(c),body_hints=lambda c:linefacts(c.v('lines').at(c.k))+when('C16',s_grid_facts)(c),step_hints=when('C16',s_grid_step))])
def s_start(c): return st(c.arg('dst').B,c.old.dst.n,KV(c.this.KnotsU).len,KV(c.this.KnotsV).len)[8]
def ssave_end(c):
    B,q,o=c.dst.B,c.old.dst.n,c.this; N1,N2,M=KV(o.KnotsU).len,KV(o.KnotsV).len,o.ControlPoints.Values.len
    return ssave(B,q,o,NOT(c.binary))+[TXTS.unfold(B,q,N1,N2,M,c.dst.n),PTS[NL].unfold(B,st(B,q,N1,N2)[8],M,c.dst.n)]
con('Surface::SaveToFile(ostream,bool)','dst binary',props=['C15','C16'],modifies=['dst'],throw_type='runtime_error',throws_at=lambda c:[('the stream failed',c.dst.fail)],
    requires=lambda c:[('consistent, non-empty grid',AND(c.this.ControlPoints.UCount>0,c.this.ControlPoints.VCount>0,consistent(c.this.ControlPoints)))],
    ensures=lambda c:[('binary: '+n,IMP(c.binary,f)) for n,f in [('header',chars_at(c.dst.B,c.old.dst.n,SH+'\n'))]+surf_bin(c.this,c.dst.B,c.old.dst.n+21)+[('end',c.dst.n==sb(c.dst.B,c.old.dst.n+21)[4])] if on('C15')]+[('no failure is hidden',NOT(c.dst.fail))]+
        [('text: '+n,IMP(NOT(c.binary),f)) for n,f in [('layout',TXTS(c.dst.B,c.old.dst.n,KV(c.this.KnotsU).len,KV(c.this.KnotsV).len,c.this.ControlPoints.Values.len,c.dst.n))]+surf_txt(c.this,c.dst.B,c.old.dst.n,KV(c.this.KnotsU).len,KV(c.this.KnotsV).len,c.this.ControlPoints.Values.len) if on('C16')],
    hints=lambda c:[] if c.thrown else when('C16',ssave_end)(c),
    loops=[Loop(inv=lambda c:[('position',AND(c.arg('dst').n==c.prearg('dst').n+32*c.k,NOT(c.arg('dst').fail))),('points so far',points_at(c.this.ControlPoints.Values,c.k,c.arg('dst').B,c.prearg('dst').n))])]+[w_list(lambda c:KV(c.this.KnotsU)),w_list(lambda c:KV(c.this.KnotsV)),
        w_points(lambda c:c.this.ControlPoints.Values,NL,lambda c:c.k*c.this.ControlPoints.UCount,s_start,lambda c:ssave(c.arg('dst').B,c.old.dst.n,c.this,NOT(c.arg('dst').fail)),nested=True),
        w_points(lambda c:c.this.ControlPoints.Values,NL,lambda c:c.v('v')*c.this.ControlPoints.UCount+c.k,s_start)])
def lemmas():
    L=[]
    for surf,text,lay,fits,offs in ((0,'LIBNURBS BIN CURVE',curve_bin,curve_fits,cb),(1,SH,surf_bin,surf_fits,sb)):
        a,b_=_obj('a',surf),_obj('b',surf); B=z3.Const('B',BY); q,n,end=z3.Ints('q n end'); d=q+len(text)+1
        saved=[f for _,f in lay(a,B,d)]+[chars_at(B,q,text+'\n'),n==offs(B,d)[-1],n<=end,q>=0]+[KV(k).len>=0 for k in ([a.KnotsU,a.KnotsV] if surf else [a.Knots])]
        if surf: saved+=[a.ControlPoints.UCount>0,a.ControlPoints.VCount>0,a.ControlPoints.Values.len<=sym.SIZE_MAX]
        else: saved+=[a.ControlPoints.len>=0]
        nm='binary round trip of a '+('surface' if surf else 'curve')
        L.append((nm+': what was saved is complete, so loading it does not throw',['C15'],saved,AND(header(B,q,end,text),fits(B,d,end))))
        for w,f in _same(a,b_,surf): L.append((f'{nm}: same {w}',['C15'],saved+[f for _,f in lay(b_,B,d)],f))
    for surf in (0,1):
        a,b_=_obj('a',surf),_obj('b',surf); B=z3.Const('B',BY); q,n=z3.Ints('q n')
        if surf: N=(KV(a.KnotsU).len,KV(a.KnotsV).len,a.ControlPoints.Values.len); W=TXTS(B,q,*N,n); lay=surf_txt
        else: N=(KV(a.Knots).len,a.ControlPoints.len); W=TXTC(B,q,*N,n); lay=curve_txt
        saved=[W]+[f for _,f in lay(a,B,q,*N)]; loaded=[IMP(W,f) for _,f in lay(b_,B,q,*N)]
        for w,f in _same(a,b_,surf): L.append((f'text round trip of a {"surface" if surf else "curve"}: same {w}',['C16'],saved+loaded,f))
    a,b,M=z3.Ints('a b M'); q=M/b
    return L+[('quotient bound of a product: upwards',['C15'],[a>0,b>0,M>=0,a<=q,(q-a)*b>=0],a*b<=M),
            ('quotient bound of a product: downwards',['C15'],[a>0,b>0,M>=0,a>q,(a-q-1)*b>=0],a*b>M),
            ('quotient bound of a product: sign up',['C15'],[b>0,a<=q],(q-a)*b>=0),
            ('quotient bound of a product: sign down',['C15'],[b>0,a>q],(a-q-1)*b>=0)]
# ---- files by name: the same contracts over the bytes of the named file
def _file(c): k=(c.name.B,c.name.lo,c.name.hi); return FILEOK(*k),FILEB(*k),FILEN(*k)
for cls,text,lay,fits,txt,tlay in (('Curve','LIBNURBS BIN CURVE',curve_bin,curve_fits,lambda B,n:TXTC(B,I(0),GN,GM,n),lambda o,B:curve_txt(o,B,I(0),GN,GM)),('Surface',SH,surf_bin,surf_fits,lambda B,n:TXTS(B,I(0),GN,GN2,GM,n),lambda o,B:surf_txt(o,B,I(0),GN,GN2,GM))):
    def mk(cls,text,lay,fits,txt,tlay):
        d=len(text)+1
        con(f'{cls}::LoadFromFile(string)','name',props=['C15','C16','C17'],modifies=['this'],throw_type='runtime_error',
            throws_at=lambda c:[('the file does not open or is neither a complete binary object nor a written text',NOT(AND(_file(c)[0],OR(*[z3.BoolVal(False)]+([txt(*_file(c)[1:])] if on('C16') else [])+([AND(header(_file(c)[1],I(0),_file(c)[2],text),fits(_file(c)[1],I(d),_file(c)[2]))] if on('C15') else [])))))],
            ensures=lambda c:[('the file opened',_file(c)[0])]+[(n,IMP(header(_file(c)[1],I(0),_file(c)[2],text),f)) for n,f in lay(c.this,_file(c)[1],I(d)) if on('C15')]+
                [('text: '+n,IMP(txt(*_file(c)[1:]),f)) for n,f in tlay(c.this,_file(c)[1]) if on('C16')]+
                ([] if not on('C17') else [('the first word is the magic word',is_tok(toks(_file(c)[1],I(0),_file(c)[2])[1][0],'LIBNURBS')),('the object type matches',is_tok(toks(_file(c)[1],I(0),_file(c)[2])[1][2],cls.upper()))])+
                ([('as many control points as the dimensions say',consistent(c.this.ControlPoints))] if cls=='Surface' else []))
        def written(c):
            F=c.local('file'); B=F.B; o=c.this
            if cls=='Curve': N=(KV(o.Knots).len,o.ControlPoints.len); t=[TXTC(B,I(0),*N,F.n)]+[f for _,f in curve_txt(o,B,I(0),*N)]
            else: N=(KV(o.KnotsU).len,KV(o.KnotsV).len,o.ControlPoints.Values.len); t=[TXTS(B,I(0),*N,F.n)]+[f for _,f in surf_txt(o,B,I(0),*N)]
            return [AND(NOT(F.fail),F.open)]+[IMP(c.binary,f) for f in [chars_at(B,I(0),text+'\n')]+[f for _,f in lay(o,B,I(d))] if on('C15')]+[IMP(NOT(c.binary),f) for f in t if on('C16')]
        con(f'{cls}::SaveToFile(string,bool)','name binary',props=['C15','C16'],modifies=[],throw_type='runtime_error',throws_at=lambda c:[('opening or writing may fail',z3.BoolVal(True))],
            requires=(lambda c:[('consistent, non-empty grid',AND(c.this.ControlPoints.UCount>0,c.this.ControlPoints.VCount>0,consistent(c.this.ControlPoints)))]) if cls=='Surface' else (lambda c:[]),
            ensures=lambda c:[],hints=lambda c:[] if c.thrown else written(c))
    mk(cls,text,lay,fits,txt,tlay)
# ---- round trip: what Save guarantees about the bytes and what Load guarantees about the object it makes of them
class _O: pass
def _obj(n,surf):
    o=_O(); vec=lambda t,m: sym.fresh(('vec',t),m)
    def kn(m): k=_O(); k.m_Values=vec(sym.REAL,m); return k
    if surf:
        o.DegreeU,o.DegreeV=z3.Ints(f'{n}_pu {n}_pv'); o.KnotsU,o.KnotsV=kn(n+'_ku'),kn(n+'_kv'); g=_O(); g.UCount,g.VCount=z3.Ints(f'{n}_cu {n}_cv'); g.Values=vec(('mat',4,1),n+'_cp'); o.ControlPoints=g
    else: o.Degree=z3.Int(n+'_p'); o.Knots=kn(n+'_k'); o.ControlPoints=vec(('mat',4,1),n+'_cp')
    return o
def _same(a,b,surf):
    veq=lambda x,y: AND(x.len==y.len,ALL('e',lambda i:IMP(AND(0<=i,i<x.len),x.at(i)==y.at(i))))
    peq=lambda x,y: AND(x.len==y.len,ALL('e',lambda i:IMP(AND(0<=i,i<x.len),AND(*[x.at(i)[c]==y.at(i)[c] for c in range(4)]))))
    if not surf: return [('degree',a.Degree==b.Degree),('knots',veq(KV(a.Knots),KV(b.Knots))),('control points',peq(a.ControlPoints,b.ControlPoints))]
    return [('degrees',AND(a.DegreeU==b.DegreeU,a.DegreeV==b.DegreeV)),('knots in u',veq(KV(a.KnotsU),KV(b.KnotsU))),('knots in v',veq(KV(a.KnotsV),KV(b.KnotsV))),
            ('grid',AND(a.ControlPoints.UCount==b.ControlPoints.UCount,a.ControlPoints.VCount==b.ControlPoints.VCount)),('control points',peq(a.ControlPoints.Values,b.ControlPoints.Values))]
