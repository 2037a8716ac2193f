"""Contracts: surface knot insertion (C12)"""
from spec import *
from program import Contract as C
from exec import Loop, UNROLL
import sym
from knots import clamped, clampa, KV, span, spanp, span_exists, span_unique
from basis import NB,TB,SB,DN,support
from curve import WS,RSUM,wpos
from insertion import *
from insertion import q1,_kspan
from surface import SWI,SRI,SWO,SRO,surface_ok,sv
from grid import cells,cell,in_range,distinct,mono,grid_ok
out=[]
def con(*a,**k): out.append(C(*a,**k))
# line j of a flat grid of width UC
_LN=z3.Function('line',AR,IS,IS,AR)
def LN(a,UC,j): return _LN(a,UC,j)
def ln_def(a,UC,j):
    i=z3.Int('ln_i'); return trust(z3.ForAll([i],LN(a,UC,j)[i]==a[j*UC+i],patterns=[LN(a,UC,j)[i]]))
def ln_at(a,UC,j,i): return trust(LN(a,UC,j)[i]==a[j*UC+i])
@lemma('inner weight sums as line sums')
def swi_ws(U,x,s,p,W,UC,j,m): return SWI(U,x,s,p,0,W,j*UC,m)==WS(U,x,s,p,LN(W,UC,j),m)
@lemma('inner point sums as line sums')
def sri_ws(U,x,s,p,X,W,UC,j,m): return SRI(U,x,s,p,0,X,W,j*UC,m)==WS(U,x,s,p,LN(HM(X,W),UC,j),m)
# ---- insertion in u: every line undergoes the insertion
def line_ins(U,p,H,Hb,UC,VC,k,u,hints=None):
    i,j=z3.Ints('li_i li_j')
    def f(i,j):
        h,hb=LN(H,UC,j),LN(Hb,UC+1,j)
        return IMP(AND(0<=j,j<VC),AND(IMP(AND(0<=i,i<=k-p),hb[i]==h[i]),IMP(AND(k-p+1<=i,i<=k),CCP(u,U[i],U[i+p],h[i],h[i-1],hb[i])),IMP(AND(k+1<=i,i<=UC),hb[i]==h[i-1])))
    return ALLP([i,j],f,[LN(Hb,UC+1,j)[i]],hints)
def bpre(U,n,p,Ub,k,u,x): return AND(clampa(U,n,p),clampa(Ub,n+1,p),ins_knots(U,n,p,Ub,k,u),u<1,x>=0,x<=1)
@lemma('lines under insertion in u')
def line_u(U,n,p,Ub,k,u,x,H,Hb,VC,j):
    return IMP(AND(bpre(U,n,p,Ub,k,u,x),line_ins(U,p,H,Hb,n-p-1,VC,k,u),0<=j,j<VC),WS(Ub,x,span(Ub,n+1,p,x),p,LN(Hb,n-p,j),p+1)==WS(U,x,span(U,n,p,x),p,LN(H,n-p-1,j),p+1))
@lemma('weight sums under insertion in u')
def wsum_u(U,n,p,Ub,k,u,x,W,Wb,V,y,t,q,VC,m):
    s,sb=span(U,n,p,x),span(Ub,n+1,p,x)
    return IMP(AND(bpre(U,n,p,Ub,k,u,x),line_ins(U,p,W,Wb,n-p-1,VC,k,u),0<=m,m<=q+1,q<=t,t<VC),SWO(Ub,x,sb,p,V,y,t,q,0,0,Wb,n-p,m)==SWO(U,x,s,p,V,y,t,q,0,0,W,n-p-1,m))
@lemma('point sums under insertion in u')
def rsum_u(U,n,p,Ub,k,u,x,X,W,Xb,Wb,V,y,t,q,VC,m):
    s,sb=span(U,n,p,x),span(Ub,n+1,p,x)
    return IMP(AND(bpre(U,n,p,Ub,k,u,x),line_ins(U,p,HM(X,W),HM(Xb,Wb),n-p-1,VC,k,u),0<=m,m<=q+1,q<=t,t<VC),SRO(Ub,x,sb,p,V,y,t,q,0,0,Xb,Wb,n-p,m)==SRO(U,x,s,p,V,y,t,q,0,0,X,W,n-p-1,m))
# ---- insertion in v: the line sums undergo the insertion
def col_ins(V,q,H,Hb,UC,VC,k,v,hints=None):
    i,j=z3.Ints('ci_i ci_j')
    def f(i,j):
        h=lambda j:LN(H,UC,j)
        hb=LN(Hb,UC,j)
        return IMP(AND(0<=i,i<UC),AND(IMP(AND(0<=j,j<=k-q),hb[i]==h(j)[i]),IMP(AND(k-q+1<=j,j<=k),CCP(v,V[j],V[j+q],h(j)[i],h(j-1)[i],hb[i])),IMP(AND(k+1<=j,j<=VC),hb[i]==h(j-1)[i])))
    return ALLP([i,j],f,[LN(Hb,UC,j)[i]],hints)
_LS=z3.Function('linesums',AR,RS,IS,IS,AR,IS,AR)
def LS(U,x,s,p,H,UC): return _LS(U,x,s,p,H,UC)
def ls_def(U,x,s,p,H,UC):
    j=z3.Int('ls_j'); L=LS(U,x,s,p,H,UC); return trust(z3.ForAll([j],L[j]==WS(U,x,s,p,LN(H,UC,j),p+1),patterns=[L[j]]))
def ls_at(U,x,s,p,H,UC,j): return trust(LS(U,x,s,p,H,UC)[j]==WS(U,x,s,p,LN(H,UC,j),p+1))
@lemma('outer weight sums as sums of line sums')
def swo_ws(U,x,s,p,V,y,t,q,W,UC,m): return SWO(U,x,s,p,V,y,t,q,0,0,W,UC,m)==WS(V,y,t,q,LS(U,x,s,p,W,UC),m)
@lemma('outer point sums as sums of line sums')
def sro_ws(U,x,s,p,V,y,t,q,X,W,UC,m): return SRO(U,x,s,p,V,y,t,q,0,0,X,W,UC,m)==WS(V,y,t,q,LS(U,x,s,p,HM(X,W),UC),m)
@lemma('combination of sums')
def cmb(v,a,b,S1,S0,S,N,h1,h0,h): return IMP(AND(S*(b-a)==(v-a)*S1+(b-v)*S0,h*(b-a)==(v-a)*h1+(b-v)*h0),(S+N*h)*(b-a)==(v-a)*(S1+N*h1)+(b-v)*(S0+N*h0))
def alike(A,B,a,b):
    i=z3.Int('al_i'); return z3.ForAll([i],IMP(AND(a<=i,i<=b),A[i]==B[i]),patterns=[A[i]])
def lincomb(v,a,b,A1,A0,A,lo,hi):
    i=z3.Int('lc_i'); return z3.ForAll([i],IMP(AND(lo<=i,i<=hi),CCP(v,a,b,A1[i],A0[i],A[i])),patterns=[A[i]])
@lemma('sums of equal values')
def ws_eq(U,x,s,p,A,B,m): return IMP(AND(alike(A,B,s-p,s),0<=m,m<=p+1),WS(U,x,s,p,A,m)==WS(U,x,s,p,B,m))
@lemma('sums of combined values')
def ws_lin(U,x,s,p,v,a,b,A1,A0,A,m): return IMP(AND(lincomb(v,a,b,A1,A0,A,s-p,s),0<=m,m<=p+1),CCP(v,a,b,WS(U,x,s,p,A1,m),WS(U,x,s,p,A0,m),WS(U,x,s,p,A,m)))
@lemma('line sums under insertion in v')
def ls_v(U,x,s,p,H,Hb,UC,VC,V,q,k,v,j):
    L,Lb=LS(U,x,s,p,H,UC),LS(U,x,s,p,Hb,UC)
    return IMP(AND(col_ins(V,q,H,Hb,UC,VC,k,v),p>=0,p<=s,s<UC),AND(IMP(AND(0<=j,j<=k-q),Lb[j]==L[j]),IMP(AND(k-q+1<=j,j<=k),CCP(v,V[j],V[j+q],L[j],L[j-1],Lb[j])),IMP(AND(k+1<=j,j<=VC),Lb[j]==L[j-1])))
@lemma('line sum arrays under insertion in v')
def ls_ins(U,x,s,p,H,Hb,UC,V,n2,q,k,v):
    return IMP(AND(col_ins(V,q,H,Hb,UC,n2-q-1,k,v),p>=0,p<=s,s<UC),ins_pts(V,q,LS(U,x,s,p,H,UC),LS(U,x,s,p,Hb,UC),k,v,n2-q-1))
@lemma('weight sums under insertion in v')
def wsum_v(U,x,s,p,W,Wb,UC,V,n2,q,Vb,k,v,y):
    return IMP(AND(bpre(V,n2,q,Vb,k,v,y),col_ins(V,q,W,Wb,UC,n2-q-1,k,v),p>=0,p<=s,s<UC),SWO(U,x,s,p,Vb,y,span(Vb,n2+1,q,y),q,0,0,Wb,UC,q+1)==SWO(U,x,s,p,V,y,span(V,n2,q,y),q,0,0,W,UC,q+1))
@lemma('point sums under insertion in v')
def rsum_v(U,x,s,p,X,W,Xb,Wb,UC,V,n2,q,Vb,k,v,y):
    return IMP(AND(bpre(V,n2,q,Vb,k,v,y),col_ins(V,q,HM(X,W),HM(Xb,Wb),UC,n2-q-1,k,v),p>=0,p<=s,s<UC),SRO(U,x,s,p,Vb,y,span(Vb,n2+1,q,y),q,0,0,Xb,Wb,UC,q+1)==SRO(U,x,s,p,V,y,span(V,n2,q,y),q,0,0,X,W,UC,q+1))
def lemmas():
    P=['C12']; U,Ub,V,Vb,W,Wb,X,Xb,H,Hb,A0,A1,A=z3.Consts('U Ub V Vb W Wb X Xb H Hb A0 A1 A',AR); x,y,u,v,a,b=z3.Reals('x y u v a b'); n,n2,s,p,t,q,m,j,k,UC,VC=z3.Ints('n n2 s p t q m j k UC VC')
    ws=lambda A,m:WS.unfold(U,x,s,p,A,m)
    yield ('inner weight sums as line sums: base',P,[m<=0,SWI.unfold(U,x,s,p,0,W,j*UC,m),ws(LN(W,UC,j),m)],swi_ws(U,x,s,p,W,UC,j,m))
    yield ('inner weight sums as line sums: step',P,[m>=1,SWI.unfold(U,x,s,p,0,W,j*UC,m),ws(LN(W,UC,j),m),ln_at(W,UC,j,s-p+m-1),DN.unfold(U,x,s,s-p+m-1,p,0),swi_ws(U,x,s,p,W,UC,j,m-1)],swi_ws(U,x,s,p,W,UC,j,m))
    yield ('inner point sums as line sums: base',P,[m<=0,SRI.unfold(U,x,s,p,0,X,W,j*UC,m),ws(LN(HM(X,W),UC,j),m)],sri_ws(U,x,s,p,X,W,UC,j,m))
    e=j*UC+(s-p+m-1)
    yield ('inner point sums as line sums: step',P,[m>=1,SRI.unfold(U,x,s,p,0,X,W,j*UC,m),ws(LN(HM(X,W),UC,j),m),ln_at(HM(X,W),UC,j,s-p+m-1),trust(HM(X,W)[e]==MUL(X[e],W[e])),MUL.unfold(X[e],W[e]),DN.unfold(U,x,s,s-p+m-1,p,0),sri_ws(U,x,s,p,X,W,UC,j,m-1)],sri_ws(U,x,s,p,X,W,UC,j,m))
    yield ('lines under insertion in u: points',P,[line_ins(U,p,H,Hb,n-p-1,VC,k,u),0<=j,j<VC,ln_def(H,n-p-1,j)],ins_pts(U,p,LN(H,n-p-1,j),LN(Hb,n-p,j),k,u,n-p-1))
    yield ('lines under insertion in u: sums',P,[IMP(AND(line_ins(U,p,H,Hb,n-p-1,VC,k,u),0<=j,j<VC),ins_pts(U,p,LN(H,n-p-1,j),LN(Hb,n-p,j),k,u,n-p-1)),boehm(U,n,p,Ub,k,u,x,LN(H,n-p-1,j),LN(Hb,n-p,j))],line_u(U,n,p,Ub,k,u,x,H,Hb,VC,j))
    S,SBn=span(U,n,p,x),span(Ub,n+1,p,x)
    a1=lambda m:[SWO.unfold(U,x,S,p,V,y,t,q,0,0,W,n-p-1,m),SWO.unfold(Ub,x,SBn,p,V,y,t,q,0,0,Wb,n-p,m)]
    B=(U,n,p,Ub,k,u,x)
    yield ('weight sums under insertion in u: base',P,a1(I(0)),wsum_u(*B,W,Wb,V,y,t,q,VC,I(0)))
    jj=t-q+m
    yield ('weight sums under insertion in u: step',P,a1(m+1)+[m>=0,line_u(*B,W,Wb,VC,jj),swi_ws(U,x,S,p,W,n-p-1,jj,p+1),swi_ws(Ub,x,SBn,p,Wb,n-p,jj,p+1),wsum_u(*B,W,Wb,V,y,t,q,VC,m)],wsum_u(*B,W,Wb,V,y,t,q,VC,m+1))
    a2=lambda m:[SRO.unfold(U,x,S,p,V,y,t,q,0,0,X,W,n-p-1,m),SRO.unfold(Ub,x,SBn,p,V,y,t,q,0,0,Xb,Wb,n-p,m)]
    yield ('point sums under insertion in u: base',P,a2(I(0)),rsum_u(*B,X,W,Xb,Wb,V,y,t,q,VC,I(0)))
    yield ('point sums under insertion in u: step',P,a2(m+1)+[m>=0,line_u(*B,HM(X,W),HM(Xb,Wb),VC,jj),sri_ws(U,x,S,p,X,W,n-p-1,jj,p+1),sri_ws(Ub,x,SBn,p,Xb,Wb,n-p,jj,p+1),rsum_u(*B,X,W,Xb,Wb,V,y,t,q,VC,m)],rsum_u(*B,X,W,Xb,Wb,V,y,t,q,VC,m+1))
    # v
    L=LS(U,x,s,p,W,UC); g=t-q+m-1
    yield ('outer weight sums as sums of line sums: base',P,[m<=0,SWO.unfold(U,x,s,p,V,y,t,q,0,0,W,UC,m),WS.unfold(V,y,t,q,L,m)],swo_ws(U,x,s,p,V,y,t,q,W,UC,m))
    yield ('outer weight sums as sums of line sums: step',P,[m>=1,SWO.unfold(U,x,s,p,V,y,t,q,0,0,W,UC,m),WS.unfold(V,y,t,q,L,m),ls_at(U,x,s,p,W,UC,g),swi_ws(U,x,s,p,W,UC,g,p+1),DN.unfold(V,y,t,g,q,0),swo_ws(U,x,s,p,V,y,t,q,W,UC,m-1)],swo_ws(U,x,s,p,V,y,t,q,W,UC,m))
    L=LS(U,x,s,p,HM(X,W),UC)
    yield ('outer point sums as sums of line sums: base',P,[m<=0,SRO.unfold(U,x,s,p,V,y,t,q,0,0,X,W,UC,m),WS.unfold(V,y,t,q,L,m)],sro_ws(U,x,s,p,V,y,t,q,X,W,UC,m))
    yield ('outer point sums as sums of line sums: step',P,[m>=1,SRO.unfold(U,x,s,p,V,y,t,q,0,0,X,W,UC,m),WS.unfold(V,y,t,q,L,m),ls_at(U,x,s,p,HM(X,W),UC,g),sri_ws(U,x,s,p,X,W,UC,g,p+1),DN.unfold(V,y,t,g,q,0),sro_ws(U,x,s,p,V,y,t,q,X,W,UC,m-1)],sro_ws(U,x,s,p,V,y,t,q,X,W,UC,m))
    f=z3.Reals('f0 f1 f2 f3 f4 f5 f6 f7 f8 f9')
    yield ('combination of sums',P,[],cmb(*f))
    yield ('sums of equal values: base',P,[ws(A,I(0)),ws(A0,I(0))],ws_eq(U,x,s,p,A,A0,I(0)))
    yield ('sums of equal values: step',P,[m>=0,ws(A,m+1),ws(A0,m+1),ws_eq(U,x,s,p,A,A0,m)],ws_eq(U,x,s,p,A,A0,m+1))
    c0=CCP.unfold(v,a,b,WS(U,x,s,p,A1,0),WS(U,x,s,p,A0,0),WS(U,x,s,p,A,0))
    yield ('sums of combined values: base',P,[ws(A,I(0)),ws(A0,I(0)),ws(A1,I(0)),c0],ws_lin(U,x,s,p,v,a,b,A1,A0,A,I(0)))
    c=lambda m:CCP.unfold(v,a,b,WS(U,x,s,p,A1,m),WS(U,x,s,p,A0,m),WS(U,x,s,p,A,m)); i=s-p+m
    N=NB(U,x,s,i,p)
    fs=[IMP(AND(lincomb(v,a,b,A1,A0,A,s-p,s),0<=m,m<=p),CCP(v,a,b,A1[i],A0[i],A[i]))]
    yield ('sums of combined values: term',P,[],fs[0])
    yield ('sums of combined values: step',P,[m>=0,m<=p,ws(A,m+1),ws(A0,m+1),ws(A1,m+1),c(m),c(m+1),CCP.unfold(v,a,b,A1[i],A0[i],A[i]),CCP(v,a,b,A1[i],A0[i],A[i]),CCP(v,a,b,WS(U,x,s,p,A1,m),WS(U,x,s,p,A0,m),WS(U,x,s,p,A,m)),
        cmb(v,a,b,WS(U,x,s,p,A1,m),WS(U,x,s,p,A0,m),WS(U,x,s,p,A,m),N,A1[i],A0[i],A[i])],CCP(v,a,b,WS(U,x,s,p,A1,m+1),WS(U,x,s,p,A0,m+1),WS(U,x,s,p,A,m+1)))
    yield ('sums of combined values: conclusion',P,[m>=0,fs[0],ws_lin(U,x,s,p,v,a,b,A1,A0,A,m),IMP(AND(m<=p,CCP(v,a,b,A1[i],A0[i],A[i]),CCP(v,a,b,WS(U,x,s,p,A1,m),WS(U,x,s,p,A0,m),WS(U,x,s,p,A,m))),CCP(v,a,b,WS(U,x,s,p,A1,m+1),WS(U,x,s,p,A0,m+1),WS(U,x,s,p,A,m+1)))],ws_lin(U,x,s,p,v,a,b,A1,A0,A,m+1))
    ln=lambda H,j:LN(H,UC,j)
    yield ('line sums under insertion in v: before',P,[col_ins(V,q,H,Hb,UC,VC,k,v),p<=s,s<UC,0<=j,j<=k-q],alike(ln(Hb,j),ln(H,j),s-p,s))
    yield ('line sums under insertion in v: behind',P,[col_ins(V,q,H,Hb,UC,VC,k,v),p<=s,s<UC,k+1<=j,j<=VC],alike(ln(Hb,j),ln(H,j-1),s-p,s))
    yield ('line sums under insertion in v: between',P,[col_ins(V,q,H,Hb,UC,VC,k,v),p<=s,s<UC,k-q+1<=j,j<=k],lincomb(v,V[j],V[j+q],ln(H,j),ln(H,j-1),ln(Hb,j),s-p,s))
    yield ('line sums under insertion in v: conclusion',P,[p>=0]+[IMP(AND(col_ins(V,q,H,Hb,UC,VC,k,v),p<=s,s<UC,cd),cn) for cd,cn in ((AND(0<=j,j<=k-q),alike(ln(Hb,j),ln(H,j),s-p,s)),(AND(k+1<=j,j<=VC),alike(ln(Hb,j),ln(H,j-1),s-p,s)),(AND(k-q+1<=j,j<=k),lincomb(v,V[j],V[j+q],ln(H,j),ln(H,j-1),ln(Hb,j),s-p,s)))]+
        [ws_eq(U,x,s,p,ln(Hb,j),ln(H,j),p+1),ws_eq(U,x,s,p,ln(Hb,j),ln(H,j-1),p+1),ws_lin(U,x,s,p,v,V[j],V[j+q],ln(H,j),ln(H,j-1),ln(Hb,j),p+1),*[ls_at(U,x,s,p,H,UC,e) for e in(j,j-1)],ls_at(U,x,s,p,Hb,UC,j)],ls_v(U,x,s,p,H,Hb,UC,VC,V,q,k,v,j))
    # the three parts of the array form, each for an arbitrary line
    g=(U,x,s,p,H,Hb,UC,n2-q-1,V,q,k,v); L,Lb=LS(U,x,s,p,H,UC),LS(U,x,s,p,Hb,UC)
    cond=AND(col_ins(V,q,H,Hb,UC,n2-q-1,k,v),p>=0,p<=s,s<UC); jv=z3.Int('jv')
    yield ('line sum arrays under insertion in v',P,[trust(z3.ForAll([jv],ls_v(*g,jv),patterns=[Lb[jv]]))],ls_ins(U,x,s,p,H,Hb,UC,V,n2,q,k,v))
    T,Tb=span(V,n2,q,y),span(Vb,n2+1,q,y)
    lw=lambda W:LS(U,x,s,p,W,UC)
    yield ('weight sums under insertion in v',P,[ls_ins(U,x,s,p,W,Wb,UC,V,n2,q,k,v),boehm(V,n2,q,Vb,k,v,y,lw(W),lw(Wb)),swo_ws(U,x,s,p,V,y,T,q,W,UC,q+1),swo_ws(U,x,s,p,Vb,y,Tb,q,Wb,UC,q+1)],wsum_v(U,x,s,p,W,Wb,UC,V,n2,q,Vb,k,v,y))
    h,hb=HM(X,W),HM(Xb,Wb)
    yield ('point sums under insertion in v',P,[ls_ins(U,x,s,p,h,hb,UC,V,n2,q,k,v),boehm(V,n2,q,Vb,k,v,y,lw(h),lw(hb)),sro_ws(U,x,s,p,V,y,T,q,X,W,UC,q+1),sro_ws(U,x,s,p,Vb,y,Tb,q,Xb,Wb,UC,q+1)],rsum_v(U,x,s,p,X,W,Xb,Wb,UC,V,n2,q,Vb,k,v,y))
# ---- flat positions as (column,line)
COL=Ghost('colof',[IS,IS],IS,lambda k,U: z3.If(k<=0,0,z3.If(COL(k-1,U)+1==U,0,COL(k-1,U)+1)))
ROW=Ghost('rowof',[IS,IS],IS,lambda k,U: z3.If(k<=0,0,z3.If(COL(k-1,U)+1==U,ROW(k-1,U)+1,ROW(k-1,U))))
@lemma('every position is a cell')
def poscell(k,U): return IMP(AND(U>=1,k>=0),AND(0<=COL(k,U),COL(k,U)<U,ROW(k,U)>=0,k==ROW(k,U)*U+COL(k,U)))
@lemma('every stored position is a cell of the grid')
def posin(k,U,V): return IMP(AND(U>=1,k>=0,k<U*V),AND(0<=COL(k,U),COL(k,U)<U,ROW(k,U)>=0,ROW(k,U)<V,k==ROW(k,U)*U+COL(k,U)))
_l2=lemmas
def lemmas():
    yield from _l2()
    k,U,V=z3.Ints('k U V')
    yield ('every position is a cell: base',['C12'],[COL.unfold(0,U),ROW.unfold(0,U)],poscell(I(0),U))
    yield ('every position is a cell: step',['C12'],[k>=0,COL.unfold(k+1,U),ROW.unfold(k+1,U),poscell(k,U)],poscell(k+1,U))
    yield ('every stored position is a cell of the grid',['C12'],[poscell(k,U),mono(U,V,ROW(k,U))],posin(k,U,V))
class D:
    """one direction of a surface: u=True inserts in u"""
    def __init__(s,isu): s.u=isu
    def deg(s,S): return S.DegreeU if s.u else S.DegreeV
    def kn(s,S): return KV(S.KnotsU if s.u else S.KnotsV)
    def odeg(s,S): return S.DegreeV if s.u else S.DegreeU
    def okn(s,S): return KV(S.KnotsV if s.u else S.KnotsU)
    def cnt(s,g): return g.UCount if s.u else g.VCount
    def ocnt(s,g): return g.VCount if s.u else g.UCount
    def uv(s,i,j): return (i,j) if s.u else (j,i)     # i along the direction, j across
    def at(s,g,i,j): return cell(g,*s.uv(i,j))
    def along(s,u,v): return u if s.u else v
    def across(s,u,v): return v if s.u else u
def d_args(d,S,kv):
    K=d.kn(S); p=d.deg(S); return K.a,K.len,p,span(K.a,K.len,p,kv)
def comb(d,G0,g,U,p,kv,i,j):
    """cell i along the direction (j across) is the knot-insertion combination of the old cells i and i-1"""
    e=d.at(g,i,j); h=d.at(G0,i,j); f=d.at(G0,i-1,j)
    return AND(e[3]>0,CCP(kv,U[i],U[i+p],h[3],f[3],e[3]),*[CCP(kv,U[i],U[i+p],MUL(h[c],h[3]),MUL(f[c],f[3]),MUL(e[c],e[3])) for c in range(3)])
def newcells(d,G0,g,U,p,k,kv,done=None,hints=None):
    def f(u,v):
        i,j=d.along(u,v),d.across(u,v)
        return AND(IMP(i<=k-p,veq(d.at(g,i,j),d.at(G0,i,j))),IMP(i>k,veq(d.at(g,i,j),d.at(G0,i-1,j))),
            IMP(AND(k-p<i,i<=k,*([done(i,j)] if done else [])),comb(d,G0,g,U,p,kv,i,j)))
    return cells(g,f,hints)
def s_pre(c,d,kv,extra=1):
    g=c.this.ControlPoints
    return [('valid surface',surface_ok(c.this)),('degree',d.deg(c.this)>=1),('room',AND(d.kn(c.this).len+extra<=sym.SIZE_MAX,(d.cnt(g)+extra)*d.ocnt(g)<=sym.SIZE_MAX))]
def gd(g,U,V): return AND(g.UCount==U,g.VCount==V,g.Values.len==U*V,U*V<=sym.SIZE_MAX)
def ndim(d,G0,t=1): return (G0.UCount+t,G0.VCount) if d.u else (G0.UCount,G0.VCount+t)
def rel(d,S,R,kv,hints=None):
    """lines (or columns) of weights and weighted coordinates undergo the insertion"""
    U,n,p,k=d_args(d,S,kv); G0,g=S.ControlPoints,R.ControlPoints; A,Ab=G0.Values.arrs,g.Values.arrs
    HH=[(A[3],Ab[3])]+[(HM(A[e],A[3]),HM(Ab[e],Ab[3])) for e in range(3)]
    f=line_ins if d.u else col_ins
    return [f(U,p,H,Hb,G0.UCount,G0.VCount,k,kv,(lambda H,Hb:lambda i,j:hints(H,Hb,i,j))(H,Hb) if hints else None) for H,Hb in HH]
def rel_hints(d,S,R,q):
    """instances that carry the cell facts q over to the line form"""
    G0,g=S.ControlPoints,R.ControlPoints; A,Ab=G0.Values.arrs,g.Values.arrs
    def h(H,Hb,i,j):
        r=[inst(q,i,j)]; UC,UN=G0.UCount,g.UCount
        news=[(i,j)]; olds=[(i,j),(i-1,j)] if d.u else [(i,j),(i,j-1)]
        for (W_,U_,cs,B) in ((Hb,UN if not d.u else UC+1,news,Ab),(H,UC,olds,A)):
            for (a,b) in cs:
                r.append(ln_at(W_,U_,b,a)); e=b*U_+a
                if not W_.eq(B[3]):
                    c_=[x for x in range(3) if W_.eq(HM(B[x],B[3]))][0]
                    r.append(trust(W_[e]==MUL(B[c_][e],B[3][e])))
        return r
    return h
def sums(S,x,y):
    U,n,p,V,n2,q,A,UC,VC=sv(S); s,t=span(U,n,p,x),span(V,n2,q,y); a=(U,x,s,p,V,y,t,q,0,0)
    return [SWO(*a,A[3],UC,q+1)]+[SRO(*a,A[d],A[3],UC,q+1) for d in range(3)]
def same(S,R,x,y): return AND(*[a==b for a,b in zip(sums(S,x,y),sums(R,x,y))])
def carry(d,S,R,kv,x,y):
    """instances that carry the sums over one insertion"""
    U,n,p,V,n2,q,A,UC,VC=sv(S); Ub,nb,pb,Vb,n2b,qb,Ab,UCb,VCb=sv(R)
    if d.u:
        k=span(U,n,p,kv); t=span(V,n2,q,y)
        return [span_exists(V,n2,q,y),clampa(V,n2,q),wsum_u(U,n,p,Ub,k,kv,x,A[3],Ab[3],V,y,t,q,VC,q+1),*[rsum_u(U,n,p,Ub,k,kv,x,A[e],A[3],Ab[e],Ab[3],V,y,t,q,VC,q+1) for e in range(3)]]
    k=span(V,n2,q,kv); s=span(U,n,p,x)
    return [span_exists(U,n,p,x),clampa(U,n,p),wsum_v(U,x,s,p,A[3],Ab[3],UC,V,n2,q,Vb,k,kv,y),*[rsum_v(U,x,s,p,A[e],A[3],Ab[e],Ab[3],UC,V,n2,q,Vb,k,kv,y) for e in range(3)]]
DOMXY=lambda x,y:AND(x>=0,x<=1,y>=0,y<=1)
def post1(d,S,R,kv):
    U,n,p,k=d_args(d,S,kv); K=d.kn(R); G0,g=S.ControlPoints,R.ControlPoints
    return [('same degrees',AND(R.DegreeU==S.DegreeU,R.DegreeV==S.DegreeV)),('knots across kept',AND(d.okn(R).len==d.okn(S).len,d.okn(R).a==d.okn(S).a)),
        ('one more knot',K.len==n+1),('the knot is added in its place',ins_knots(U,n,p,K.a,k,kv)),('one more line of control points',gd(g,*ndim(d,G0))),
        ('control points by convex combination',newcells(d,G0,g,U,p,k,kv)),
        *[(f'lines by convex combination, {"weights" if i==0 else f"homogeneous coordinate {i-1}"}',r) for i,r in enumerate(rel(d,S,R,kv))],
        ('valid surface',surface_ok(R)),
        ('same point at every parameter pair',ALL('x y',lambda x,y:IMP(DOMXY(x,y),same(S,R,x,y)),lambda x,y:carry(d,S,R,kv,x,y),sort=RS))]
def cut1(d):
    def h(c):
        S,R,kv=c.this,c.ret,c.knot_value; U,n,p,k=d_args(d,S,kv); K=d.kn(R); G0,g=S.ControlPoints,R.ControlPoints
        q=newcells(d,G0,g,U,p,k,kv); A,Ab=G0.Values.arrs,g.Values.arrs
        UN,VN=ndim(d,G0); hm=lambda i,j:[]
        r=[clampa(U,n,p),spanp(U,n,p,kv,k),ins_knots(U,n,p,K.a,k,kv),clampa(K.a,n+1,p),q]
        r+=rel(d,S,R,kv,rel_hints(d,S,R,q))
        pos=ALL('k',lambda e:IMP(AND(0<=e,e<UN*VN),Ab[3][e]>0),lambda e:[posin(e,UN,VN),inst(q,COL(e,UN),ROW(e,UN)),
            *[in_range(G0.UCount,G0.VCount,COL(e,UN)-a,ROW(e,UN)-b) for a,b in((0,0),(1,0) if d.u else (0,1))]])
        return r+[wpos(A[3],G0.UCount*G0.VCount),pos]
    return h
def s_in(c,d):
    o=c.old; S=o.this; R=c.v('result'); U,n,p,_=d_args(d,S,o.knot_value); return S,R,S.ControlPoints,R.ControlPoints,U,n,p,c.v('k'),o.knot_value
def s_shape(c,d):
    S,R,G0,g,U,n,p,k,kv=s_in(c,d)
    return [('span',AND(p<=k,k<=n-p-2)),('shape',AND(R.DegreeU==S.DegreeU,R.DegreeV==S.DegreeV,gd(g,*ndim(d,G0))))]
def alph(c,d,hi):
    S,R,G0,g,U,n,p,k,kv=s_in(c,d); a=c.v('alpha_list')
    return [('alphas',a.len==p),('alphas so far',FA(hi,lambda e:a.at(e)==(kv-U[e+k-p+1])/(U[e+k+1]-U[e+k-p+1])))]
def s_alpha(d): return Loop(inv=lambda c:(lambda S,R,G0,g,U,n,p,k,kv:[('span',AND(p<=k,k<=n-p-2))]+alph(c,d,c.k-(k-p+1)))(*s_in(c,d)),
        body_hints=lambda c:(lambda S,R,G0,g,U,n,p,k,kv:[AND(U[c.k]<=kv,kv<U[c.k+p])])(*s_in(c,d)))
def s_outer(d):
    def inv(c):
        S,R,G0,g,U,n,p,k,kv=s_in(c,d)
        return s_shape(c,d)+alph(c,d,p)+[('cells',newcells(d,G0,g,U,p,k,kv,lambda i,j:j<c.k))]
    return Loop(inv=inv,exit_hints=lambda c:(lambda S,R,G0,g,U,n,p,k,kv:_kspan(U,n,p,kv,k))(*s_in(c,d)))
def s_inner(d):
    def inv(c):
        S,R,G0,g,U,n,p,k,kv=s_in(c,d); j=c.v('j')
        return s_shape(c,d)+alph(c,d,p)+[('cells',newcells(d,G0,g,U,p,k,kv,lambda i,m:OR(m<j,AND(m==j,i<c.k)),lambda u,v:[distinct(g.UCount,u,v,*d.uv(c.k-1,j))]))]
    def body(c):
        S,R,G0,g,U,n,p,k,kv=s_in(c,d); j=c.v('j'); i=c.k; a=c.v('alpha_list')
        return [AND(U[i]<=kv,kv<U[i+p]),in_range(g.UCount,g.VCount,*d.uv(i,j)),in_range(G0.UCount,G0.VCount,*d.uv(i,j)),in_range(G0.UCount,G0.VCount,*d.uv(i-1,j)),
            a.at(i-(k-p+1))==(kv-U[i])/(U[i+p]-U[i]),cc(kv,U[i],U[i+p],d.at(G0,i-1,j)[3],d.at(G0,i,j)[3]),AND(d.at(G0,i,j)[3]>0,d.at(G0,i-1,j)[3]>0)]
    def step(c):
        S,R,G0,g,U,n,p,k,kv=s_in(c,d); j=c.v('j'); i=z3.simplify(c.k-1)
        return newval(kv,U[i],U[i+p],d.at(G0,i,j),d.at(G0,i-1,j),d.at(g,i,j))
    return Loop(inv=inv,body_hints=body,step_hints=step)
for d,nm in ((D(True),'U'),(D(False),'V')):
    con(f'Surface::InsertKnot{nm}(real)','knot_value',props=['C12'],requires=lambda c,d=d:s_pre(c,d,c.knot_value)+[('inside the domain',AND(c.knot_value>0,c.knot_value<1))],
        ensures=lambda c,d=d:post1(d,c.this,c.ret,c.knot_value),hints=cut1(d),loops=[s_alpha(d),s_outer(d),s_inner(d)])
def l_inv(c,d):
    o=c.old; S=o.this; R=c.v('result'); L=o.knots_to_insert; Hd=c.head('result'); K0,K=d.kn(S),d.kn(R); p=d.deg(S); G0,g=S.ControlPoints,R.ControlPoints
    hx=lambda x,y:[]; hv=lambda v:[CE.unfold(L.a,v,0)]
    if Hd is not None:
        Kh=d.kn(Hd); m=z3.simplify(c.k-1); u=L.a[m]
        hx=lambda x,y:[]
        hv=lambda v:[CE(Kh.a,v,Kh.len)==CE(K0.a,v,K0.len)+CE(L.a,v,m),CE.unfold(L.a,v,c.k),ce_ins(Kh.a,Kh.len,p,K.a,span(Kh.a,Kh.len,p,u),u,v,Kh.len)]
    return [('same degrees',AND(R.DegreeU==S.DegreeU,R.DegreeV==S.DegreeV)),('knots across kept',AND(d.okn(R).len==d.okn(S).len,d.okn(R).a==d.okn(S).a)),('knot count',K.len==K0.len+c.k),
      ('control points per knot',gd(g,*ndim(d,G0,c.k))),('valid surface',surface_ok(R)),
      ('exactly the listed knots are added',ALL('v',lambda v:CE(K.a,v,K.len)==CE(K0.a,v,K0.len)+CE(L.a,v,c.k),hv,sort=RS)),
      ('same point at every parameter pair',ALL('x y',lambda x,y:IMP(DOMXY(x,y),same(S,R,x,y)),hx,sort=RS))]
def l_post(c,d,n,added):
    S,R=c.this,c.ret; K0,K=d.kn(S),d.kn(R); G0,g=S.ControlPoints,R.ControlPoints
    return [('same degrees',AND(R.DegreeU==S.DegreeU,R.DegreeV==S.DegreeV)),('knots across kept',AND(d.okn(R).len==d.okn(S).len,d.okn(R).a==d.okn(S).a)),('knot count',K.len==K0.len+n),
      ('one more line of control points per knot',gd(g,*ndim(d,G0,n))),('valid surface',surface_ok(R)),
      ('exactly the listed knots are added',ALL('v',lambda v:CE(K.a,v,K.len)==CE(K0.a,v,K0.len)+added(v)[0],lambda v:added(v)[1],sort=RS)),
      ('same point at every parameter pair',ALL('x y',lambda x,y:IMP(DOMXY(x,y),same(S,R,x,y)),None,sort=RS))]
def l_body(c,d):
    S=c.old.this; R=c.v('result'); g=S.ControlPoints; t=c.old.knots_to_insert.len
    return [mono(d.ocnt(g),d.cnt(g)+c.k+1,d.cnt(g)+t)]
for d,nm in ((D(True),'U'),(D(False),'V')):
    con(f'Surface::InsertKnot{nm}(vec<real>)','knots_to_insert',props=['C12'],requires=lambda c,d=d:s_pre(c,d,None,c.knots_to_insert.len)+[('inside the domain',inside(c.knots_to_insert.a,c.knots_to_insert.len))],
        ensures=lambda c,d=d:l_post(c,d,c.knots_to_insert.len,lambda v:(CE(c.knots_to_insert.a,v,c.knots_to_insert.len),[])),loops=[Loop(inv=lambda c,d=d:l_inv(c,d),body_hints=lambda c,d=d:l_body(c,d))])
    con(f'Surface::InsertKnot{nm}(real,int)','knot_value times',props=['C12'],requires=lambda c,d=d:s_pre(c,d,None,c.times)+[('times',c.times>=0),('inside the domain',AND(c.knot_value>0,c.knot_value<1))],
        ensures=lambda c,d=d:l_post(c,d,c.times,lambda v:(z3.If(v==c.knot_value,c.times,0),[ce_const(z3.K(IS,c.knot_value),c.times,c.knot_value,v,c.times)])))
