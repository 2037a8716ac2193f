"""Contracts: Surface evaluation (C09) and derivatives (C10)"""
from spec import *
from program import Contract as C
from exec import Loop, UNROLL
import sym
from knots import clamped, KV, span
from basis import NB,TB,SB,DN,in_span,spanctx,nonneg,unity,support
from curve import wpos,all_eq,left_end,right_end
from grid import BIN, bin_step, cells, cell, grid_ok, in_range, distinct, mono, _table
out=[]
def con(*a,**k): out.append(C(*a,**k))
def surface_ok(s):
    """a valid NURBS surface: clamped knots in both directions, matching grid, positive weights"""
    g=s.ControlPoints
    return AND(clamped(KV(s.KnotsU),s.DegreeU),clamped(KV(s.KnotsV),s.DegreeV),grid_ok(g),g.UCount==KV(s.KnotsU).len-s.DegreeU-1,g.VCount==KV(s.KnotsV).len-s.DegreeV-1,FA(g.Values.len,lambda k:g.Values.at(k)[3]>0))
GS=[AR,RS,IS,IS]
# inner sums along u in the line starting at `off`, derivative order k; outer sums along v, order l
SWI=Ghost('s_wi',GS+[IS,AR,IS,IS],RS,lambda U,x,s,p,k,W,off,m: z3.If(m<=0,R0,SWI(U,x,s,p,k,W,off,m-1)+DN(U,x,s,s-p+m-1,p,k)*W[off+(s-p+m-1)]))
SRI=Ghost('s_ri',GS+[IS,AR,AR,IS,IS],RS,lambda U,x,s,p,k,X,W,off,m: z3.If(m<=0,R0,SRI(U,x,s,p,k,X,W,off,m-1)+DN(U,x,s,s-p+m-1,p,k)*(X[off+(s-p+m-1)]*W[off+(s-p+m-1)])))
SWO=Ghost('s_wo',GS+GS+[IS,IS,AR,IS,IS],RS,lambda U,x,s,p,V,y,t,q,k,l,W,UC,m: z3.If(m<=0,R0,SWO(U,x,s,p,V,y,t,q,k,l,W,UC,m-1)+DN(V,y,t,t-q+m-1,q,l)*SWI(U,x,s,p,k,W,(t-q+m-1)*UC,p+1)))
SRO=Ghost('s_ro',GS+GS+[IS,IS,AR,AR,IS,IS],RS,lambda U,x,s,p,V,y,t,q,k,l,X,W,UC,m: z3.If(m<=0,R0,SRO(U,x,s,p,V,y,t,q,k,l,X,W,UC,m-1)+DN(V,y,t,t-q+m-1,q,l)*SRI(U,x,s,p,k,X,W,(t-q+m-1)*UC,p+1)))
ALLSP=lambda U,n,x,s,p,V,n2,y,t,q: AND(spanctx(U,n,p,s,x),spanctx(V,n2,q,t,y))
@lemma('surface weights: inner sum')
def wi_pos(U,n,x,s,p,W,cnt,off,m):
    return IMP(AND(spanctx(U,n,p,s,x),wpos(W,cnt),off>=0,off+n-p-1<=cnt,s<=n-p-2,0<=m,m<=p+1),AND(SWI(U,x,s,p,0,W,off,m)>=0,SB(U,x,s,p,m)>=0,IMP(SB(U,x,s,p,m)>0,SWI(U,x,s,p,0,W,off,m)>0)))
@lemma('surface weights: outer sum')
def wo_pos(U,n,x,s,p,V,n2,y,t,q,W,m):
    UC=n-p-1; VC=n2-q-1
    return IMP(AND(spanctx(U,n,p,s,x),spanctx(V,n2,q,t,y),wpos(W,UC*VC),s<=n-p-2,t<=n2-q-2,0<=m,m<=q+1),AND(SWO(U,x,s,p,V,y,t,q,0,0,W,UC,m)>=0,SB(V,y,t,q,m)>=0,IMP(SB(V,y,t,q,m)>0,SWO(U,x,s,p,V,y,t,q,0,0,W,UC,m)>0)))
LE=lambda U,x,s,p: all_eq(U,s-p+1,s,x)
RE=lambda U,x,s,p: all_eq(U,s+1,s+p,x)
@lemma('inner sums at the left end')
def in_left(U,n,x,s,p,X,W,off,m): return IMP(AND(spanctx(U,n,p,s,x),LE(U,x,s,p),1<=m,m<=p+1),AND(SWI(U,x,s,p,0,W,off,m)==W[off+(s-p)],SRI(U,x,s,p,0,X,W,off,m)==X[off+(s-p)]*W[off+(s-p)]))
@lemma('inner sums at the right end')
def in_right(U,n,x,s,p,X,W,off,m): return IMP(AND(spanctx(U,n,p,s,x),RE(U,x,s,p),0<=m,m<=p+1),z3.If(m<=p,AND(SWI(U,x,s,p,0,W,off,m)==0,SRI(U,x,s,p,0,X,W,off,m)==0),AND(SWI(U,x,s,p,0,W,off,m)==W[off+s],SRI(U,x,s,p,0,X,W,off,m)==X[off+s]*W[off+s])))
@lemma('outer sums at the left end')
def out_left(U,x,s,p,V,n2,y,t,q,X,W,UC,m): return IMP(AND(spanctx(V,n2,q,t,y),LE(V,y,t,q),1<=m,m<=q+1),AND(SWO(U,x,s,p,V,y,t,q,0,0,W,UC,m)==SWI(U,x,s,p,0,W,(t-q)*UC,p+1),SRO(U,x,s,p,V,y,t,q,0,0,X,W,UC,m)==SRI(U,x,s,p,0,X,W,(t-q)*UC,p+1)))
@lemma('outer sums at the right end')
def out_right(U,x,s,p,V,n2,y,t,q,X,W,UC,m): return IMP(AND(spanctx(V,n2,q,t,y),RE(V,y,t,q),0<=m,m<=q+1),z3.If(m<=q,AND(SWO(U,x,s,p,V,y,t,q,0,0,W,UC,m)==0,SRO(U,x,s,p,V,y,t,q,0,0,X,W,UC,m)==0),AND(SWO(U,x,s,p,V,y,t,q,0,0,W,UC,m)==SWI(U,x,s,p,0,W,t*UC,p+1),SRO(U,x,s,p,V,y,t,q,0,0,X,W,UC,m)==SRI(U,x,s,p,0,X,W,t*UC,p+1))))
def lemmas():
    P=['C09']; U,V,X,W=z3.Consts('U V X W',AR); x,y=z3.Reals('x y'); n,s,p,n2,t,q,m,off,cnt,UC=z3.Ints('n s p n2 t q m off cnt UC')
    ui=lambda m:[SWI.unfold(U,x,s,p,0,W,off,m),SRI.unfold(U,x,s,p,0,X,W,off,m),DN.unfold(U,x,s,s-p+m-1,p,0)]
    uo=lambda m:[SWO.unfold(U,x,s,p,V,y,t,q,0,0,W,UC,m),SRO.unfold(U,x,s,p,V,y,t,q,0,0,X,W,UC,m),DN.unfold(V,y,t,t-q+m-1,q,0)]
    yield ('surface weights: inner sum: base',P,ui(I(0))+[SB.unfold(U,x,s,p,0)],wi_pos(U,n,x,s,p,W,cnt,off,I(0)))
    yield ('surface weights: inner sum: step',P,ui(m+1)+[0<=m,m<=p,SB.unfold(U,x,s,p,m+1),wi_pos(U,n,x,s,p,W,cnt,off,m),nonneg(U,n,x,s,p,s-p+m,p)],wi_pos(U,n,x,s,p,W,cnt,off,m+1))
    uc=n-p-1; o2=lambda m:[SWO.unfold(U,x,s,p,V,y,t,q,0,0,W,uc,m),DN.unfold(V,y,t,t-q+m-1,q,0)]
    yield ('surface weights: outer sum: base',P,o2(I(0))+[SB.unfold(V,y,t,q,0)],wo_pos(U,n,x,s,p,V,n2,y,t,q,W,I(0)))
    yield ('surface weights: outer sum: step',P,o2(m+1)+[0<=m,m<=q,SB.unfold(V,y,t,q,m+1),wo_pos(U,n,x,s,p,V,n2,y,t,q,W,m),nonneg(V,n2,y,t,q,t-q+m,q),wi_pos(U,n,x,s,p,W,uc*(n2-q-1),(t-q+m)*uc,p+1),unity(U,n,x,s,p,p),in_range(uc,n2-q-1,I(0),t-q+m)],wo_pos(U,n,x,s,p,V,n2,y,t,q,W,m+1))
    yield ('inner sums at the left end: base',P,ui(I(1))+ui(I(0))+[left_end(U,n,x,s,p,s-p,p)],in_left(U,n,x,s,p,X,W,off,I(1)))
    yield ('inner sums at the left end: step',P,ui(m+1)+[m>=1,left_end(U,n,x,s,p,s-p+m,p),in_left(U,n,x,s,p,X,W,off,m)],in_left(U,n,x,s,p,X,W,off,m+1))
    yield ('inner sums at the right end: base',P,ui(I(0)),in_right(U,n,x,s,p,X,W,off,I(0)))
    yield ('inner sums at the right end: step',P,ui(m+1)+[m>=0,m<=p,right_end(U,n,x,s,p,s-p+m,p),in_right(U,n,x,s,p,X,W,off,m)],in_right(U,n,x,s,p,X,W,off,m+1))
    yield ('outer sums at the left end: base',P,uo(I(1))+uo(I(0))+[left_end(V,n2,y,t,q,t-q,q)],out_left(U,x,s,p,V,n2,y,t,q,X,W,UC,I(1)))
    yield ('outer sums at the left end: step',P,uo(m+1)+[m>=1,left_end(V,n2,y,t,q,t-q+m,q),out_left(U,x,s,p,V,n2,y,t,q,X,W,UC,m)],out_left(U,x,s,p,V,n2,y,t,q,X,W,UC,m+1))
    yield ('outer sums at the right end: base',P,uo(I(0)),out_right(U,x,s,p,V,n2,y,t,q,X,W,UC,I(0)))
    yield ('outer sums at the right end: step',P,uo(m+1)+[m>=0,m<=q,right_end(V,n2,y,t,q,t-q+m,q),out_right(U,x,s,p,V,n2,y,t,q,X,W,UC,m)],out_right(U,x,s,p,V,n2,y,t,q,X,W,UC,m+1))
def sv(c):
    """(U,n,p,V,n2,q,component arrays,UCount,VCount)"""
    K,L=KV(c.KnotsU),KV(c.KnotsV); g=c.ControlPoints
    return K.a,K.len,c.DegreeU,L.a,L.len,c.DegreeV,g.Values.arrs,g.UCount,g.VCount
def st(o):
    U,n,p,V,n2,q,A,UC,VC=sv(o.this); s=span(U,n,p,o.u); t=span(V,n2,q,o.v)
    return (U,o.u,s,p),(V,o.v,t,q),n,n2,A,UC,VC
DOM=lambda c:[('valid surface',surface_ok(c.this)),('u and v in the domain',AND(c.u>=0,c.u<=1,c.v>=0,c.v<=1))]
def w00(o):
    a,b,n,n2,A,UC,VC=st(o); return SWO(*a,*b,0,0,A[3],UC,b[3]+1)
def _posh(o):
    a,b,n,n2,A,UC,VC=st(o); (U,x,s,p),(V,y,t,q)=a,b
    return [wo_pos(U,n,x,s,p,V,n2,y,t,q,A[3],q+1),unity(V,n2,y,t,q,q),spanctx(U,n,p,s,x),spanctx(V,n2,q,t,y),wpos(A[3],UC*VC),w00(o)>0]
def _ev_post(c):
    a,b,n,n2,A,UC,VC=st(c); m=b[3]+1
    corner=lambda i,j: AND(*[c.ret[d]==A[d][j*UC+i] for d in range(3)])
    return [('weight function is positive',w00(c)>0),
        ('tensor-product combination of the control points of the spans',AND(*[c.ret[d]*w00(c)==SRO(*a,*b,0,0,A[d],A[3],UC,m) for d in range(3)])),
        ('corner (0,0)',IMP(AND(c.u==0,c.v==0),corner(I(0),I(0)))),('corner (1,0)',IMP(AND(c.u==1,c.v==0),corner(UC-1,I(0)))),
        ('corner (0,1)',IMP(AND(c.u==0,c.v==1),corner(I(0),VC-1))),('corner (1,1)',IMP(AND(c.u==1,c.v==1),corner(UC-1,VC-1)))]
def _ev_hints(c):
    a,b,n,n2,A,UC,VC=st(c); (U,x,s,p),(V,y,t,q)=a,b; W=A[3]
    h=_posh(c)+[IMP(x==0,AND(LE(U,x,s,p),s==p)),IMP(y==0,AND(LE(V,y,t,q),t==q)),IMP(x==1,RE(U,x,s,p)),IMP(y==1,RE(V,y,t,q))]
    for d in range(3):
        h+=[out_left(U,x,s,p,V,n2,y,t,q,A[d],W,UC,q+1),out_right(U,x,s,p,V,n2,y,t,q,A[d],W,UC,q+1)]
        for off in ((t-q)*UC,t*UC): h+=[in_left(U,n,x,s,p,A[d],W,off,p+1),in_right(U,n,x,s,p,A[d],W,off,p+1)]
    h+=[in_range(UC,VC,s-p,t-q),in_range(UC,VC,s,t-q),in_range(UC,VC,s-p,t),in_range(UC,VC,s,t)]
    return h
def _wr(v,a,b,k,l,A,UC,m): return AND(*[v[d]==SRO(*a,*b,k,l,A[d],A[3],UC,m) for d in range(3)],v[3]==SWO(*a,*b,k,l,A[3],UC,m))
def _wi(v,a,k,A,off,m): return AND(*[v[d]==SRI(*a,k,A[d],A[3],off,m) for d in range(3)],v[3]==SWI(*a,k,A[3],off,m))
def uno(a,b,k,l,A,UC,*ms): return [g for m in ms for g in [SWO.unfold(*a,*b,k,l,A[3],UC,m)]+[SRO.unfold(*a,*b,k,l,A[d],A[3],UC,m) for d in range(3)]]
def uni(a,k,A,off,*ms): return [g for m in ms for g in [SWI.unfold(*a,k,A[3],off,m)]+[SRI.unfold(*a,k,A[d],A[3],off,m) for d in range(3)]]
def dn0(a,m): U,x,s,p=a; return DN.unfold(U,x,s,s-p+m,p,0)
def _ev_in_h(c):
    a,b,n,n2,A,UC,VC=st(c.old); j=c.v('j'); row=b[2]-b[3]+j
    return uni(a,0,A,row*UC,I(0),c.k,c.k+1)+[dn0(a,c.k),dn0(a,c.k-1),in_range(UC,VC,a[2]-a[3]+c.k,row)]
con('Surface::Evaluate(real,real)','u v',props=['C09'],requires=DOM,ensures=_ev_post,hints=_ev_hints,
    loops=[Loop(inv=lambda c:(lambda a,b,n,n2,A,UC,VC:[('lines so far',_wr(c.v('result'),a,b,0,0,A,UC,c.k))])(*st(c.old)),
                hints=lambda c:(lambda a,b,n,n2,A,UC,VC:uno(a,b,0,0,A,UC,I(0),c.k,c.k+1)+[dn0(b,c.k),dn0(b,c.k-1)])(*st(c.old)),exit_hints=lambda c:_posh(c.old)),
           Loop(inv=lambda c:(lambda a,b,n,n2,A,UC,VC:[('points so far',_wi(c.v('tmp'),a,0,A,(b[2]-b[3]+c.v('j'))*UC,c.k))])(*st(c.old)),hints=_ev_in_h)])
con('Surface::IsRational()','',props=['C09'],ensures=lambda c:(lambda P:[('true exactly when two weights differ',c.ret==NOT(FA(P.len,lambda k:P.at(k)[3]==P.at(I(0))[3])))])(c.this.ControlPoints.Values),
    loops=[Loop(inv=lambda c:[('equal so far',FA(c.k,lambda k:c.this.ControlPoints.Values.at(k)[3]==c.this.ControlPoints.Values.at(I(0))[3]))])])
# ---------------------------------------------------------------- derivatives (C10)
OMAX=17   # the product of two binomial coefficients must fit an int
def _so(lim): return lambda c:DOM(c)+[('orders',AND(c.ou>=0,c.ov>=0,c.ou<=lim,c.ov<=lim))]
def _hdg(c,g,o,doneM=None):
    a,b,n,n2,A,UC,VC=st(o)
    return cells(g,lambda k,l:IMP(BT(True) if doneM is None else doneM(k,l),_wr(cell(g,k,l),a,b,k,l,A,UC,b[3]+1)))
BT=z3.BoolVal
def _gd(g,o): return AND(g.UCount==o.ou+1,g.VCount==o.ov+1,g.Values.len==g.UCount*g.VCount,g.Values.len<=sym.SIZE_MAX)
def _hd_post(c):
    return [('parameters lie in the spans',AND(*[h for h in (lambda a,b,n,n2,A,UC,VC:[spanctx(a[0],n,a[3],a[2],a[1]),spanctx(b[0],n2,b[3],b[2],b[1])])(*st(c))])),
            ('one entry per pair of orders',_gd(c.ret,c)),('derivatives of weighted points and weight',_hdg(c,c.ret,c))]
def zero4(v): return AND(*[v[d]==0 for d in range(4)])
def _hd_cells(c,g,kk,l,cur):
    """cells before (kk,l) in storage order are finished, later ones are zero, cell (kk,l) satisfies cur"""
    a,b,n,n2,A,UC,VC=st(c.old)
    before=lambda u,v:OR(v<l,AND(v==l,u<kk))
    return cells(g,lambda u,v:z3.If(before(u,v),_wr(cell(g,u,v),a,b,u,v,A,UC,b[3]+1),cur(u,v,cell(g,u,v)) if cur else zero4(cell(g,u,v))),lambda u,v:[distinct(g.UCount,u,v,kk,l),distinct(g.UCount,u,v,kk-1,l)])
def _hd_j(c):
    a,b,n,n2,A,UC,VC=st(c.old); g=c.v('result'); k,l=c.v('k'),c.v('l')
    return [('dims',_gd(g,c.old)),('cells',_hd_cells(c,g,k,l,lambda u,v,x:z3.If(AND(u==k,v==l),_wr(x,a,b,k,l,A,UC,c.k),zero4(x))))]
def _hd_ih(c):
    a,b,n,n2,A,UC,VC=st(c.old); j=c.v('j'); row=b[2]-b[3]+j
    return uni(a,c.v('k'),A,row*UC,I(0),c.k,c.k+1)+[in_range(UC,VC,a[2]-a[3]+c.k,row)]
con('Surface::HomogeneousDerivative(real,real,int,int)','u v ou ov',props=['C10'],requires=_so(2**10),ensures=_hd_post,
    loops=[Loop(inv=lambda c:[('dims',_gd(c.v('result'),c.old)),('cells',_hd_cells(c,c.v('result'),I(0),c.k,None))]),
           Loop(inv=lambda c:[('dims',_gd(c.v('result'),c.old)),('cells',_hd_cells(c,c.v('result'),c.k,c.v('l'),None))],
                hints=lambda c:(lambda a,b,n,n2,A,UC,VC:uno(a,b,c.k,c.v('l'),A,UC,I(0))+[in_range(c.v('result').UCount,c.v('result').VCount,c.k,c.v('l'))])(*st(c.old))),
           Loop(inv=_hd_j,hints=lambda c:(lambda a,b,n,n2,A,UC,VC:uno(a,b,c.v('k'),c.v('l'),A,UC,I(0),c.k,c.k+1)+[in_range(c.v('result').UCount,c.v('result').VCount,c.v('k'),c.v('l'))])(*st(c.old))),
           Loop(inv=lambda c:(lambda a,b,n,n2,A,UC,VC:[('points so far',_wi(c.v('tmp'),a,c.v('k'),A,(b[2]-b[3]+c.v('j'))*UC,c.k))])(*st(c.old)),hints=_hd_ih)])
# quotient rule for mixed partial derivatives
TT=GS+GS+[AR,AR,IS]
CKL=Ghost('s_ratder',TT+[IS,IS],RS,lambda U,x,s,p,V,y,t,q,X,W,UC,k,l: z3.If(OR(k<0,l<0),R0,(SRO(U,x,s,p,V,y,t,q,k,l,X,W,UC,q+1)-S1(U,x,s,p,V,y,t,q,X,W,UC,k,l,k)-S2(U,x,s,p,V,y,t,q,X,W,UC,k,l,l)-S3(U,x,s,p,V,y,t,q,X,W,UC,k,l,k))/SWO(U,x,s,p,V,y,t,q,0,0,W,UC,q+1)))
_w=lambda T,i,j:SWO(*T[:8],i,j,T[9],T[10],T[7]+1)
_tr=z3.ToReal
S1=Ghost('s_q1',TT+[IS,IS,IS],RS,lambda *z:(lambda T,k,l,m:z3.If(m<=0,R0,S1(*T,k,l,m-1)+_tr(BIN(k,m))*_w(T,m,I(0))*CKL(*T,k-m,l)))(z[:11],*z[11:]))
S2=Ghost('s_q2',TT+[IS,IS,IS],RS,lambda *z:(lambda T,k,l,m:z3.If(m<=0,R0,S2(*T,k,l,m-1)+_tr(BIN(l,m))*_w(T,I(0),m)*CKL(*T,k,l-m)))(z[:11],*z[11:]))
S3=Ghost('s_q3',TT+[IS,IS,IS],RS,lambda *z:(lambda T,k,l,m:z3.If(m<=0,R0,S3(*T,k,l,m-1)+S4(*T,k,l,m,l)))(z[:11],*z[11:]))
S4=Ghost('s_q4',TT+[IS,IS,IS,IS],RS,lambda *z:(lambda T,k,l,i,m:z3.If(m<=0,R0,S4(*T,k,l,i,m-1)+_tr(BIN(k,i))*_tr(BIN(l,m))*_w(T,i,m)*CKL(*T,k-i,l-m)))(z[:11],*z[11:]))
@lemma('binomial coefficients up to 17')
def bin17(n,k): return IMP(AND(0<=n,n<=OMAX,1<=k,k<=n),AND(BIN(n,k)>=1,BIN(n,k)<=24310))
@lemma('bounded product')
def prodb(a,b): return IMP(AND(0<=a,a<=24310,0<=b,b<=24310),AND(a*b>=0,a*b<=INT_MAX))
_l1=lemmas
def lemmas():
    yield from _l1()
    n,k,a,b=z3.Ints('n k a b')
    for N in range(1,OMAX+1):
        yield (f'binomial coefficients up to 17: n={N}',['C10'],_table(),IMP(n==N,bin17(n,k)))
    yield ('binomial coefficients up to 17: n=0',['C10'],[],IMP(n==0,bin17(n,k)))
    yield ('bounded product',['C10'],[],prodb(a,b))
def T3(o):
    a,b,n,n2,A,UC,VC=st(o); return [(*a,*b,A[d],A[3],UC) for d in range(3)]
def _q_post(c):
    a,b,n,n2,A,UC,VC=st(c); g=c.ret
    return [('one entry per pair of orders',_gd(g,c)),('mixed derivatives by the quotient rule',cells(g,lambda k,l:AND(*[cell(g,k,l)[d]==CKL(*T3(c)[d],k,l) for d in range(3)]))),
        ('entry (0,0) equals plain evaluation',AND(*[g.Values.at(I(0))[d]*w00(c)==SRO(*a,*b,0,0,A[d],A[3],UC,b[3]+1) for d in range(3)]))]
def _q_hints(c):
    return _posh(c)+[in_range(c.ou+1,c.ov+1,I(0),I(0))]+[h for T in T3(c) for h in(CKL.unfold(*T,0,0),S1.unfold(*T,0,0,0),S2.unfold(*T,0,0,0),S3.unfold(*T,0,0,0),AND(*[c.ret.Values.at(I(0))[d]==CKL(*T3(c)[d],0,0) for d in range(3)]))]
def _q_cells(c,ku,lv):
    g=c.v('result')
    return [('dims',_gd(g,c.old))]+[(f'finished entries, coordinate {d}',cells(g,(lambda d:lambda k,l:IMP(OR(k<ku,AND(k==ku,l<lv)),cell(g,k,l)[d]==CKL(*T3(c.old)[d],k,l)))(d),lambda k,l:[distinct(g.UCount,k,l,ku,lv-1),distinct(g.UCount,k,l,ku,lv)])) for d in range(3)]
def _rem(c,f): # Aders equals A - f(T)
    a,b,n,n2,A,UC,VC=st(c.old); ou,ov=c.v('ou'),c.v('ov')
    return [(f'remaining sum, coordinate {d}',c.v('Aders')[d]==SRO(*a,*b,ou,ov,A[d],A[3],UC,b[3]+1)-f(T3(c.old)[d],ou,ov)) for d in range(3)]
def _rg(c,u,v): g=c.v('result'); h=c.v('homo_ders'); return [in_range(g.UCount,g.VCount,u,v)]
def _uT(c,f): return [h for T in T3(c.old) for h in f(T,c.v('ou'),c.v('ov'))]
con('Surface::EvaluateAll(real,real,int,int)','u v ou ov',props=['C10'],requires=_so(OMAX),ensures=_q_post,hints=_q_hints,
    loops=[Loop(inv=lambda c:_q_cells(c,c.k,I(0)),hints=lambda c:_posh(c.old)+[in_range(c.old.ou+1,c.old.ov+1,I(0),I(0))]),
           Loop(inv=lambda c:_q_cells(c,c.v('ou'),c.k),hints=lambda c:_posh(c.old)+[in_range(c.old.ou+1,c.old.ov+1,c.v('ou'),c.k)]+[CKL.unfold(*T,c.v('ou'),c.k) for T in T3(c.old)]),
           Loop(inv=lambda c:_rem(c,lambda T,k,l:S1(*T,k,l,c.k-1)),hints=lambda c:_uT(c,lambda T,k,l:[S1.unfold(*T,k,l,m) for m in(I(0),c.k-1,c.k)])+_rg(c,c.k,I(0))+_rg(c,c.v('ou')-c.k,c.v('ov'))),
           Loop(inv=lambda c:_rem(c,lambda T,k,l:S1(*T,k,l,k)+S2(*T,k,l,c.k-1)),hints=lambda c:_uT(c,lambda T,k,l:[S2.unfold(*T,k,l,m) for m in(I(0),c.k-1,c.k)])+_rg(c,I(0),c.k)+_rg(c,c.v('ou'),c.v('ov')-c.k)),
           Loop(inv=lambda c:_rem(c,lambda T,k,l:S1(*T,k,l,k)+S2(*T,k,l,l)+S3(*T,k,l,c.k-1)),hints=lambda c:_uT(c,lambda T,k,l:[S3.unfold(*T,k,l,m) for m in(I(0),c.k-1,c.k)])),
           Loop(inv=lambda c:_rem(c,lambda T,k,l:S1(*T,k,l,k)+S2(*T,k,l,l)+S3(*T,k,l,c.v('i')-1)+S4(*T,k,l,c.v('i'),c.k-1)),
                hints=lambda c:_uT(c,lambda T,k,l:[S4.unfold(*T,k,l,c.v('i'),m) for m in(I(0),c.k-1,c.k)])+_rg(c,c.v('i'),c.k)+_rg(c,c.v('ou')-c.v('i'),c.v('ov')-c.k)+[bin17(c.v('ou'),c.v('i')),bin17(c.v('ov'),c.k),prodb(BIN(c.v('ou'),c.v('i')),BIN(c.v('ov'),c.k))])])
con('Surface::EvaluateDerivative(real,real,int,int)','u v ou ov',props=['C10'],requires=_so(OMAX),
    hints=lambda c:[in_range(c.ou+1,c.ov+1,c.ou,c.ov)],
    ensures=lambda c:[('the entry of those orders',AND(*[c.ret[d]==CKL(*T3(c)[d],c.ou,c.ov) for d in range(3)]))])
