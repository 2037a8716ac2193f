"""Contracts: knot removal (C13)"""
from spec import *
from program import Contract as C
from exec import Loop
import sym
from knots import clamped, clampa, KV, span, spanp, span_exists, span_unique
from basis import NB,TB,SB,support,spanctx,nonneg,unity
from curve import WS,RSUM,curve_ok,cv,all_eq,wpos,hull,ws_pos,between
from insertion import q1,MUL,CCP,CE,HM,hm_def,rs_ws,boehm,ins_knots,ins_pts
out=[]
def con(*a,**k): out.append(C(*a,**k))
def far(U,n,u): return q1('fr_k',I(0),n-1,lambda j:OR(U[j]==u,U[j]-u>=EPS6,u-U[j]>=EPS6),lambda j:[U[j]])
def mult(U,n,p,u): return q1('mu_k',I(0),n-1-p,lambda j:IMP(U[j]==u,U[j+p]!=u),lambda j:[U[j]])
def runctx(U,n,u,r): return AND(srt(U,n),far(U,n,u),0<=r,r+1<n,U[r]<=u,u<U[r+1])
@lemma('copies of a knot: run')
def rn(U,n,u,r,m): c=CNT(U,u,m); return IMP(AND(runctx(U,n,u,r),0<=m,m<=r+1),AND(0<=c,c<=m,all_eq(U,m-c,m-1,u),OR(c==m,U[m-c-1]<u)))
@lemma('copies of a knot: none behind')
def rn2(U,n,u,r,m): return IMP(AND(runctx(U,n,u,r),r+1<=m,m<=n),CNT(U,u,m)==CNT(U,u,r+1))
@lemma('copies of a knot: exact')
def rn3(U,n,u,m): return IMP(AND(far(U,n,u),0<=m,m<=n),CNT(U,u,m)==CE(U,u,m))
# an array with the t entries from c on cut out
_CUT=z3.Function('cut',AR,IS,IS,AR)
def CUT(A,c,t): return _CUT(A,I(c) if isinstance(c,int) else c,I(t) if isinstance(t,int) else t)
def cut_def(A,c,t):
    c,t=[I(x) if isinstance(x,int) else x for x in(c,t)]
    k=z3.Int('cut_k'); return trust(z3.ForAll([k],CUT(A,c,t)[k]==z3.If(k<c,A[k],A[k+t]),patterns=[CUT(A,c,t)[k]]))
@lemma('copies after cutting')
def ce_cut(U,V,n,u,r,t,v,m): return IMP(AND(0<=t,t<=r+1,r<n,all_eq(U,r-t+1,r,u),cutto(U,V,n,r-t+1,t),0<=m,m<=n-t),CE(V,v,m)==z3.If(m<=r-t+1,CE(U,v,m),CE(U,v,m+t)-z3.If(v==u,t,0)))
@lemma('copies in a run')
def ce_run(U,u,a,v,m): return IMP(AND(0<=a,m>=0,all_eq(U,a,a+m-1,u)),CE(U,v,a+m)==CE(U,v,a)+z3.If(v==u,m,0))
def cutto(U,V,n,c,t):
    """V holds the n-t entries of U without the t entries from c on"""
    return AND(q1('ct_a',I(0),c-1,lambda j:V[j]==U[j],lambda j:[V[j]]),q1('ct_b',c,n-t-1,lambda j:V[j]==U[j+t],lambda j:[V[j]]))
def lemmas():
    P=['C13']; U,V=z3.Consts('U V',AR); u,v=z3.Reals('u v'); n,r,m,t,a=z3.Ints('n r m t a')
    yield ('copies of a knot: run, base',P,[CNT.unfold(U,u,0)],rn(U,n,u,r,I(0)))
    yield ('copies of a knot: run, step',P,[0<=m,m<=r,CNT.unfold(U,u,m+1),rn(U,n,u,r,m)],rn(U,n,u,r,m+1))
    yield ('copies of a knot: none behind, base',P,[],rn2(U,n,u,r,r+1))
    yield ('copies of a knot: none behind, step',P,[r+1<=m,CNT.unfold(U,u,m+1),rn2(U,n,u,r,m)],rn2(U,n,u,r,m+1))
    yield ('copies of a knot: exact, base',P,[CNT.unfold(U,u,0),CE.unfold(U,u,0)],rn3(U,n,u,I(0)))
    yield ('copies of a knot: exact, step',P,[m>=0,CNT.unfold(U,u,m+1),CE.unfold(U,u,m+1),rn3(U,n,u,m)],rn3(U,n,u,m+1))
    yield ('copies in a run: base',P,[],ce_run(U,u,a,v,I(0)))
    yield ('copies in a run: step',P,[m>=0,CE.unfold(U,v,a+m+1),ce_run(U,u,a,v,m)],ce_run(U,u,a,v,m+1))
    cu=lambda m:[CE.unfold(V,v,m),CE.unfold(U,v,m),CE.unfold(U,v,m+t)]
    yield ('copies after cutting: base',P,cu(I(0))+[ce_run(U,u,r-t+1,v,t)],ce_cut(U,V,n,u,r,t,v,I(0)))
    yield ('copies after cutting: step',P,[m>=0]+cu(m+1)+[ce_run(U,u,r-t+1,v,t),ce_cut(U,V,n,u,r,t,v,m)],ce_cut(U,V,n,u,r,t,v,m+1))
# ---- deviation: what one removal step does to the sums
from surfins import alike,ws_eq
def run(K,n,p,u,r,s): return AND(clampa(K,n,p),p>=1,u>0,u<1,spanp(K,n,p,u,r),all_eq(K,r-s+1,r,u),K[r-s]<u,s>=0,s<=p,p<=r-s)
def UT(K,r,t): return CUT(K,r-t+1,t)
def absle(a,b): return AND(a<=b,-a<=b)
def half(e): return e/2       # integer division
def QT(p,s,t): return half(p-s+t+1)           # steps of the sweep
def HI(p,r,s,t): return r-p-t+1+half(p-s+t)   # the two places where the polygon after t removals may be cut
def LO(p,r,s,t): return r-s-half(p-s+t)
@lemma('removal: combination of near values')
def nearcomb(a,b,u,q1_,q0,h1,h0,R,h,tol): return IMP(AND(a<=u,u<b,R*(b-a)==(u-a)*q1_+(b-u)*q0,h*(b-a)==(u-a)*h1+(b-u)*h0,absle(q1_-h1,tol),absle(q0-h0,tol)),absle(R-h,tol))
@lemma('removal: knots stay clamped')
def cut_clamp(K,n,p,u,r,s,t): return IMP(AND(run(K,n,p,u,r,s),0<=t,t<=s),clampa(UT(K,r,t),n-t,p))
@lemma('removal: one copy fewer')
def cut_ins(K,n,p,u,r,s,t): return IMP(AND(run(K,n,p,u,r,s),0<=t,t<s),ins_knots(UT(K,r,t+1),n-t-1,p,UT(K,r,t),r-t-1,u))
# the values that the insertion of u into (U,Q) behind k gives
_RI=z3.Function('reinserted',AR,IS,AR,IS,RS,AR)
def RI(U,p,Q,k,u): return _RI(U,p,Q,k,u)
def ri_body(U,p,Q,k,u,i): return z3.If(i<=k-p,Q[i],z3.If(i<=k,((u-U[i])*Q[i]+(U[i+p]-u)*Q[i-1])/(U[i+p]-U[i]),Q[i-1]))
def ri_at(U,p,Q,k,u,i): return trust(RI(U,p,Q,k,u)[i]==ri_body(U,p,Q,k,u,i))
def knsp(U,n,p,k,u): return AND(srt(U,n),p>=1,p<=k,k<=n-p-2,U[k]<=u,u<U[k+1])
@lemma('removal: reinserted value')
def rins(U,n,p,Q,k,u,i): R=RI(U,p,Q,k,u); return IMP(knsp(U,n,p,k,u),AND(IMP(AND(0<=i,i<=k-p),R[i]==Q[i]),IMP(AND(k-p+1<=i,i<=k),CCP(u,U[i],U[i+p],Q[i],Q[i-1],R[i])),IMP(AND(k+1<=i,i<=n-p-1),R[i]==Q[i-1])))
@lemma('removal: reinserted values')
def rpts(U,n,p,Q,k,u): return IMP(knsp(U,n,p,k,u),ins_pts(U,p,Q,RI(U,p,Q,k,u),k,u,n-p-1))
def SC(K,n,p,u,r,s,t,T,B,B1,mv,tol):
    """one successful step on one coordinate: scratch T, values B before and B1 after, mv the value compared in the middle"""
    F=r-p-t; off=F-1; Lt=r-s+t; Q=QT(p,s,t); N=n-p-1
    return AND(run(K,n,p,u,r,s),0<=t,t<s,tol>=0,T[0]==B[off],T[p-s+2*t+2]==B[Lt+1],
      q1('sc_l',I(1),Q,lambda k:CCP(u,K[off+k],K[off+k+p+1+t],T[k],T[k-1],B[off+k]),lambda k:[T[k]]),
      q1('sc_r',p-s+2*t+1-Q+1,p-s+2*t+1,lambda k:CCP(u,K[off+k-t],K[off+k+p+1],T[k+1],T[k],B[off+k]),lambda k:[T[k]]),
      q1('sc_a',F,F+Q-1,lambda k:B1[k]==T[k-off],lambda k:[B1[k]]),q1('sc_b',Lt-Q+1,Lt,lambda k:B1[k]==T[k-off],lambda k:[B1[k]]),
      q1('sc_c',I(0),F-1,lambda k:B1[k]==B[k],lambda k:[B1[k]]),q1('sc_d',Lt+1,N-1,lambda k:B1[k]==B[k],lambda k:[B1[k]]),
      IMP(2*Q==p-s+t+1,absle(T[Q]-T[p-s+2*t+2-Q],tol)),
      IMP(2*Q==p-s+t,AND(CCP(u,K[F+Q],K[F+Q+p+1+t],T[Q+t+2],T[Q],mv),absle(mv-B[F+Q],tol))))
def stp(K,n,p,u,r,s,t,B,B1,c):
    """old polygon, new polygon and the values it reinserts to"""
    U1=UT(K,r,t+1); P=CUT(B,HI(p,r,s,t),t); Qn=CUT(B1,c,t+1); return U1,P,Qn,RI(U1,p,Qn,r-t-1,u)
@lemma('removal: values of one step')
def near_i(K,n,p,u,r,s,t,T,B,B1,mv,tol,c,i):
    U1,P,Qn,R=stp(K,n,p,u,r,s,t,B,B1,c)
    return IMP(AND(SC(K,n,p,u,r,s,t,T,B,B1,mv,tol),OR(c==LO(p,r,s,t+1),c==HI(p,r,s,t+1)),0<=i,i<=n-p-t-2),absle(R[i]-P[i],tol))
def near(R,P,tol,a,b): return q1('nr_k',a,b,lambda k:absle(R[k]-P[k],tol),lambda k:[R[k]])
@lemma('removal: sums of near values')
def near_sum(U,n,x,s,p,R,P,tol,m): return IMP(AND(spanctx(U,n,p,s,x),near(R,P,tol,s-p,s),0<=m,m<=p+1),absle(WS(U,x,s,p,R,m)-WS(U,x,s,p,P,m),tol*SB(U,x,s,p,m)))
@lemma('removal: bounded term')
def termle(a,d,tol): return IMP(AND(a>=0,absle(d,tol)),absle(a*d,tol*a))
def SM(U,n,p,x,H): return WS(U,x,span(U,n,p,x),p,H,p+1)
@lemma('removal: sums of one step')
def step_sum(K,n,p,u,r,s,t,T,B,B1,mv,tol,c,x):
    U1,P,Qn,R=stp(K,n,p,u,r,s,t,B,B1,c)
    return IMP(AND(SC(K,n,p,u,r,s,t,T,B,B1,mv,tol),OR(c==LO(p,r,s,t+1),c==HI(p,r,s,t+1)),x>=0,x<=1),absle(SM(U1,n-t-1,p,x,Qn)-SM(UT(K,r,t),n-t,p,x,P),tol))
# equal knots, equal sums
def agr(U,V,n): return q1('ag_k',I(0),n-1,lambda k:U[k]==V[k],lambda k:[U[k]])
@lemma('removal: basis functions of equal knots')
def nb_agr(U,V,n,x,s,i,q): return IMP(AND(agr(U,V,n),0<=i,q>=0,i+q+1<=n-1),AND(NB(U,x,s,i,q)==NB(V,x,s,i,q),TB(U,x,s,i,q)==TB(V,x,s,i,q)))
@lemma('removal: sums of equal knots and values')
def ws_agr(U,V,n,x,s,p,A,B,m): return IMP(AND(agr(U,V,n),alike(A,B,s-p,s),p>=0,s>=p,s+p+1<=n-1,0<=m,m<=p+1),WS(U,x,s,p,A,m)==WS(V,x,s,p,B,m))
@lemma('removal: sums of equal objects')
def sm_agr(U,V,n,p,x,A,B): return IMP(AND(agr(U,V,n),clampa(U,n,p),clampa(V,n,p),alike(A,B,I(0),n-p-2),x>=0,x<=1),SM(U,n,p,x,A)==SM(V,n,p,x,B))
@lemma('removal: least weight bounds the weight sum')
def ws_min(U,n,x,s,p,W,lo,m): return IMP(AND(spanctx(U,n,p,s,x),q1('wm_k',s-p,s,lambda k:W[k]>=lo,lambda k:[W[k]]),0<=m,m<=p+1),WS(U,x,s,p,W,m)>=lo*SB(U,x,s,p,m))
@lemma('removal: rational deviation')
def ratdev(A,w,A1,w1,d,T,eps,wm,D): return IMP(AND(absle(A1-A,d),absle(w1-w,d),d*(1+D)==T*(eps*wm),D>=0,wm>0,w>=wm,absle(A,D*w),T>=1,2*T*eps<=1),AND(w1>0,absle(A1*w-A*w1,2*T*eps*(w*w1))))
# ---- an arbitrary unit direction: a bound along it is a bound on the Euclidean length
DX,DY,DZ=z3.Reals('direction_x direction_y direction_z')
def unit_dir(): return trust(DX*DX+DY*DY+DZ*DZ==1)
LC3=Ghost('along',[RS,RS,RS],RS,lambda x,y,z:DX*x+DY*y+DZ*z)
_LIN=z3.Function('along_all',AR,AR,AR,AR)
def LIN(B): return _LIN(*B[:3])
def lin_def(B):
    k=z3.Int('lin_k'); return trust(z3.ForAll([k],LIN(B)[k]==LC3(*[B[d][k] for d in range(3)]),patterns=[LIN(B)[k]]))
from builtins_ import normf
def norm_sq(*e): r=normf(len(e))(*e); return trust(AND(r>=0,r*r==sum([x*x for x in e],R0)))      # what the norm is
@lemma('removal: part along a direction')
def along(r,x,y,z,w): return IMP(AND(r>=0,r*r==x*x+y*y+z*z+w*w),absle(LC3(x,y,z),r))
@lemma('removal: difference along a direction')
def lc_diff(x,y,z,a,b,c): return LC3(x,y,z)-LC3(a,b,c)==LC3(x-a,y-b,z-c)
@lemma('removal: combination along a direction')
def ccp_lin(u,a,b,h1,h0,h): return IMP(AND(*[CCP(u,a,b,h1[d],h0[d],h[d]) for d in range(3)]),CCP(u,a,b,LC3(*h1),LC3(*h0),LC3(*h)))
def h_eq(u,a,b,h1,h0,h): return h*(b-a)==(u-a)*h1+(b-u)*h0
@lemma('removal: product along a direction')
def mul_lin(x,y,z,w): return MUL(LC3(x,y,z),w)==LC3(MUL(x,w),MUL(y,w),MUL(z,w))
def _ldir():
    P=['C13']; x,y,z,w,a,b,c,r,u,q=z3.Reals('x y z w a b c r u q'); f=LC3.unfold; v=[z3.Reals(f'{k}x {k}y {k}z') for k in ('h1','h0','h')]
    sq=lambda e:e*e; l=DX*x+DY*y+DZ*z; n2=x*x+y*y+z*z
    idn=n2*(DX*DX+DY*DY+DZ*DZ)-l*l==sq(DX*y-DY*x)+sq(DX*z-DZ*x)+sq(DY*z-DZ*y)
    yield ('removal: part along a direction: identity',P,[],idn)
    N_,L_,A_,B_,C_=z3.Reals('N_ L_ A_ B_ C_')
    yield ('removal: part along a direction: squares',P,[],IMP(AND(N_*q-L_==A_*A_+B_*B_+C_*C_,q==1),L_<=N_))
    yield ('removal: part along a direction: bound',P,[idn,unit_dir(),IMP(AND(idn,DX*DX+DY*DY+DZ*DZ==1),l*l<=n2)],l*l<=n2)
    yield ('removal: part along a direction: root',P,[],IMP(AND(r>=0,q*q<=r*r),absle(q,r)))
    yield ('removal: part along a direction: conclusion',P,[f(x,y,z),l*l<=n2,IMP(AND(r>=0,l*l<=r*r),absle(l,r))],along(r,x,y,z,w))
    yield ('removal: difference along a direction',P,[f(x,y,z),f(a,b,c),f(x-a,y-b,z-c)],lc_diff(x,y,z,a,b,c))
    sc=lambda D,h1,h0,h:(D*h)*(b-a)==(u-a)*(D*h1)+(b-u)*(D*h0)
    yield ('removal: combination along a direction: scaled',P,[],IMP(h_eq(u,a,b,x,y,z),sc(w,x,y,z)))
    cmp=list(zip(*v))
    yield ('removal: combination along a direction: sum',P,[],IMP(AND(*[sc(D,*cmp[d]) for d,D in enumerate((DX,DY,DZ))]),h_eq(u,a,b,*[DX*e[0]+DY*e[1]+DZ*e[2] for e in v])))
    yield ('removal: combination along a direction: conclusion',P,[f(*e) for e in v]+[CCP.unfold(u,a,b,*[e[d] for e in v]) for d in range(3)]+[CCP.unfold(u,a,b,*[LC3(*e) for e in v])]+[IMP(AND(*[h_eq(u,a,b,*cmp[d]) for d in range(3)]),h_eq(u,a,b,*[DX*e[0]+DY*e[1]+DZ*e[2] for e in v])),
        IMP(AND(*[LC3(*e)==DX*e[0]+DY*e[1]+DZ*e[2] for e in v],h_eq(u,a,b,*[DX*e[0]+DY*e[1]+DZ*e[2] for e in v])),h_eq(u,a,b,*[LC3(*e) for e in v]))],ccp_lin(u,a,b,*v))
    e=(DX*x+DY*y+DZ*z)*w==DX*(x*w)+DY*(y*w)+DZ*(z*w)
    yield ('removal: product along a direction: identity',P,[],e)
    L1,m1,m2,m3=z3.Reals('L1 m1 m2 m3')
    pr=lambda L1,m1,m2,m3:IMP(AND(L1==DX*x+DY*y+DZ*z,m1==x*w,m2==y*w,m3==z*w),L1*w==DX*m1+DY*m2+DZ*m3)
    yield ('removal: product along a direction: rule',P,[],pr(L1,m1,m2,m3))
    yield ('removal: product along a direction: conclusion',P,[f(x,y,z),f(MUL(x,w),MUL(y,w),MUL(z,w)),MUL.unfold(x,w),MUL.unfold(y,w),MUL.unfold(z,w),MUL.unfold(LC3(x,y,z),w),pr(LC3(x,y,z),MUL(x,w),MUL(y,w),MUL(z,w))],mul_lin(x,y,z,w))
def _l13():
    yield from _ldir()
    P_=['C13']; K,U,V,T,B,B1,A,W,R,P,Q=z3.Consts('K U V T B B1 A W R P Q',AR); u,x,tol,mv,lo=z3.Reals('u x tol mv lo'); n,p,r,s,t,c,i,k,m,q=z3.Ints('n p r s t c i k m q')
    e=z3.Reals('e0 e1 e2 e3 e4 e5 e6 e7 e8')
    yield ('removal: bounded term',P_,[],termle(*e[:3]))
    a,b,q1_,q0,h1,h0,Rr,h=z3.Reals('a b q1 q0 h1 h0 Rr h')
    nc=[a<=u,u<b,Rr*(b-a)==(u-a)*q1_+(b-u)*q0,h*(b-a)==(u-a)*h1+(b-u)*h0,absle(q1_-h1,tol),absle(q0-h0,tol)]
    dif=(Rr-h)*(b-a)==(u-a)*(q1_-h1)+(b-u)*(q0-h0)
    yield ('removal: combination of near values: difference',P_,nc[2:4],dif)
    yield ('removal: combination of near values: bound',P_,nc[:2]+nc[4:]+[dif,termle(u-a,q1_-h1,tol),termle(b-u,q0-h0,tol)],absle((Rr-h)*(b-a),tol*(b-a)))
    yield ('removal: combination of near values: quotient',P_,nc[:2]+[absle((Rr-h)*(b-a),tol*(b-a))],absle(Rr-h,tol))
    yield ('removal: combination of near values: conclusion',P_,[IMP(AND(*nc),absle(Rr-h,tol))],nearcomb(a,b,u,q1_,q0,h1,h0,Rr,h,tol))
    ru=run(K,n,p,u,r,s); d=lambda A,c,t:cut_def(A,c,t)
    yield ('removal: knots stay clamped',P_,[ru,0<=t,t<=s,d(K,r-t+1,t)],cut_clamp(K,n,p,u,r,s,t))
    yield ('removal: one copy fewer',P_,[ru,0<=t,t<s,d(K,r-t+1,t),d(K,r-t,t+1)],ins_knots(CUT(K,r-t,t+1),n-t-1,p,CUT(K,r-t+1,t),r-t-1,u))
    yield ('removal: one copy fewer: form',P_,[CUT(K,r-t,t+1)==CUT(K,r-(t+1)+1,t+1),IMP(AND(ru,0<=t,t<s),ins_knots(CUT(K,r-t,t+1),n-t-1,p,CUT(K,r-t+1,t),r-t-1,u))],cut_ins(K,n,p,u,r,s,t))
    RR=RI(U,p,Q,k,u)
    yield ('removal: reinserted value',P_,[ri_at(U,p,Q,k,u,i),CCP.unfold(u,U[i],U[i+p],Q[i],Q[i-1],RR[i]),IMP(AND(knsp(U,n,p,k,u),k-p+1<=i,i<=k),AND(U[i]<=u,u<U[i+p]))],rins(U,n,p,Q,k,u,i))
    yield ('removal: reinserted value: order',P_,[],IMP(AND(knsp(U,n,p,k,u),k-p+1<=i,i<=k),AND(U[i]<=u,u<U[i+p])))
    j=z3.Int('jv')
    yield ('removal: reinserted values',P_,[trust(z3.ForAll([j],rins(U,n,p,Q,k,u,j),patterns=[RR[j]]))],rpts(U,n,p,Q,k,u))
    # one step, by the position of the value
    a_=(K,n,p,u,r,s,t,T,B,B1,mv,tol); sc=SC(*a_); cc_=OR(c==LO(p,r,s,t+1),c==HI(p,r,s,t+1))
    U1,Pp,Qn,Rn=stp(K,n,p,u,r,s,t,B,B1,c); F=r-p-t; off=F-1; Lt=r-s+t; Q_=QT(p,s,t); HIt=HI(p,r,s,t); X_=p-s+2*t+1
    N=n-p-1; dom=[sc,cc_,0<=i,i<=N-t-1]; goal=absle(Rn[i]-Pp[i],tol)
    fam='removal: values of one step: '
    cutU=lambda e:trust(U1[e]==z3.If(e<r-t,K[e],K[e+t+1])); cutQ=lambda e:trust(Qn[e]==z3.If(e<c,B1[e],B1[e+t+1])); cutP=trust(Pp[i]==z3.If(i<HIt,B[i],B[i+t]))
    def trustcut(A,cc,tt,e): return trust(CUT(A,cc,tt)[e]==z3.If(e<cc,A[e],A[e+tt]))
    cu=lambda e:trustcut(K,r-(t+1)+1,t+1,e); cq=lambda e:trustcut(B1,c,t+1,e); cp=trustcut(B,HIt,t,i)
    k_=r-t-1; ksp=knsp(U1,n-t-1,p,k_,u)
    yield (fam+'span',P_,[sc,cut_clamp(K,n,p,u,r,s,t+1),cut_def(K,r-(t+1)+1,t+1)],IMP(sc,ksp))
    pc=[IMP(sc,ksp)]; ri=rins(U1,n-t-1,p,Qn,k_,u,i)
    yield (fam+'before',P_,dom+[i<=off,ksp,ri,cq(i),cp],Rn[i]==Pp[i])
    yield (fam+'behind',P_,dom+[i>=r-t,ksp,ri,cq(i-1),cp],Rn[i]==Pp[i])
    yield (fam+'copies, values',P_,dom+[r-s+1<=i,i<=r-t-1,ksp,ri,cu(i),cq(i-1),cp],AND(U1[i]==u,Qn[i-1]==Pp[i],CCP(u,U1[i],U1[i+p],Qn[i],Qn[i-1],Rn[i]),u<U1[i+p]))
    yield (fam+'copies',P_,[U1[i]==u,Qn[i-1]==Pp[i],CCP(u,U1[i],U1[i+p],Qn[i],Qn[i-1],Rn[i]),u<U1[i+p],CCP.unfold(u,U1[i],U1[i+p],Qn[i],Qn[i-1],Rn[i])],Rn[i]==Pp[i])
    def combo(nm,cond,x1,x0,hv,a_,b_):
        """Rn[i] combines Qn[i], Qn[i-1]; hv combines x1, x0 with the same knots"""
        f=[U1[i]==a_,U1[i+p]==b_,a_<u,u<b_]; g=[absle(Qn[i]-x1,tol),absle(Qn[i-1]-x0,tol)]; h_=[CCP(u,a_,b_,x1,x0,hv),CCP(u,U1[i],U1[i+p],Qn[i],Qn[i-1],Rn[i])]
        yield (fam+nm+', knots',P_,dom+cond+[cu(i),cu(i+p)],AND(*f))
        yield (fam+nm+', new values, first',P_,dom+cond+[cq(i)],g[0])
        yield (fam+nm+', new values, second',P_,dom+cond+[cq(i-1)],g[1])
        yield (fam+nm+', combinations',P_,dom+cond+[ksp,ri],AND(*h_))
        yield (fam+nm,P_,f+g+h_+[CCP.unfold(u,a_,b_,x1,x0,hv),CCP.unfold(u,U1[i],U1[i+p],Qn[i],Qn[i-1],Rn[i]),nearcomb(a_,b_,u,Qn[i],Qn[i-1],x1,x0,Rn[i],hv,tol)],absle(Rn[i]-hv,tol))
    el=i-off
    lc,rc,mc=[F<=i,i<=F+Q_-1],[r-s-Q_+1<=i,i<=r-s],[2*Q_==p-s+t,i==F+Q_]
    yield from combo('left',lc,T[el],T[el-1],B[i],K[i],K[i+p+1+t])
    yield (fam+'left, old value',P_,dom+lc+[cp],Pp[i]==B[i])
    er=i+t-off
    yield from combo('right',rc,T[er+1],T[er],B[i+t],K[i],K[i+t+p+1])
    yield (fam+'right, old value',P_,dom+rc+[cp],Pp[i]==B[i+t])
    # in the middle
    f=[U1[i]==K[i],U1[i+p]==K[i+p+1+t],K[i]<u,u<K[i+p+1+t]]
    yield (fam+'middle, knots',P_,dom+mc+[cu(i),cu(i+p)],AND(*f))
    yield (fam+'middle, values',P_,dom+mc+[cq(i),cq(i-1),cp],AND(Qn[i]==T[Q_+t+2],Qn[i-1]==T[Q_],Pp[i]==B[F+Q_]))
    mh=[CCP(u,K[i],K[i+p+1+t],T[Q_+t+2],T[Q_],mv),absle(mv-B[F+Q_],tol),CCP(u,U1[i],U1[i+p],Qn[i],Qn[i-1],Rn[i])]
    yield (fam+'middle, combinations',P_,dom+mc+[ksp,ri],AND(*mh))
    yield (fam+'middle',P_,f+mh+[Qn[i]==T[Q_+t+2],Qn[i-1]==T[Q_],Pp[i]==B[F+Q_],CCP.unfold(u,K[i],K[i+p+1+t],T[Q_+t+2],T[Q_],mv),CCP.unfold(u,U1[i],U1[i+p],Qn[i],Qn[i-1],Rn[i]),IMP(AND(*f),nearcomb(K[i],K[i+p+1+t],u,Qn[i],Qn[i-1],T[Q_+t+2],T[Q_],Rn[i],mv,R0))],goal)
    parts=[(i<=off,Rn[i]==Pp[i]),(i>=r-t,Rn[i]==Pp[i]),(AND(r-s+1<=i,i<=r-t-1),Rn[i]==Pp[i]),(AND(*lc),AND(absle(Rn[i]-B[i],tol),Pp[i]==B[i])),(AND(*rc),AND(absle(Rn[i]-B[i+t],tol),Pp[i]==B[i+t])),(AND(*mc),goal)]
    yield (fam+'every position',P_,[s<=p,t>=0,t<s],OR(*[cd for cd,_ in parts]))
    yield (fam+'conclusion',P_,[IMP(AND(*dom,cd),g) for cd,g in parts]+[IMP(AND(s<=p,t>=0,t<s),OR(*[cd for cd,_ in parts])),IMP(sc,AND(s<=p,t>=0,t<s,tol>=0))],near_i(*a_,c,i))
    # sums
    yield ('removal: sums of near values: base',P_,[WS.unfold(U,x,s,p,R,0),WS.unfold(U,x,s,p,P,0),SB.unfold(U,x,s,p,0)],near_sum(U,n,x,s,p,R,P,tol,I(0)))
    N_=NB(U,x,s,s-p+m,p)
    yield ('removal: sums of near values: step',P_,[m>=0,m<=p,WS.unfold(U,x,s,p,R,m+1),WS.unfold(U,x,s,p,P,m+1),SB.unfold(U,x,s,p,m+1),near_sum(U,n,x,s,p,R,P,tol,m),nonneg(U,n,x,s,p,s-p+m,p),termle(N_,R[s-p+m]-P[s-p+m],tol),
        IMP(AND(near(R,P,tol,s-p,s),0<=m,m<=p),absle(R[s-p+m]-P[s-p+m],tol))],near_sum(U,n,x,s,p,R,P,tol,m+1))
    Ut=UT(K,r,t); S=span(Ut,n-t,p,x)
    yield ('removal: sums of one step: near',P_,[trust(z3.ForAll([j],near_i(*a_,c,j),patterns=[Rn[j]]))],IMP(AND(sc,cc_),near(Rn,Pp,tol,I(0),n-p-t-2)))
    fs=[IMP(AND(sc,cc_),near(Rn,Pp,tol,I(0),n-p-t-2)),IMP(sc,ksp),cut_clamp(K,n,p,u,r,s,t),cut_clamp(K,n,p,u,r,s,t+1),cut_ins(K,n,p,u,r,s,t),rpts(U1,n-t-1,p,Qn,k_,u),span_exists(Ut,n-t,p,x)]
    dx=[sc,cc_,x>=0,x<=1]
    f1=AND(spanctx(Ut,n-t,p,S,x),near(Rn,Pp,tol,S-p,S)); f2=SM(Ut,n-t,p,x,Rn)==SM(U1,n-t-1,p,x,Qn)
    yield ('removal: sums of one step: span',P_,dx+fs,f1)
    yield ('removal: sums of one step: insertion',P_,dx+fs+[boehm(U1,n-t-1,p,Ut,k_,u,x,Qn,Rn)],f2)
    yield ('removal: sums of one step: conclusion',P_,[IMP(AND(*dx),AND(f1,f2)),near_sum(Ut,n-t,x,S,p,Rn,Pp,tol,p+1),unity(Ut,n-t,x,S,p,p),IMP(sc,p>=1)],step_sum(*a_,c,x))
    # equal knots
    yield ('removal: basis functions of equal knots: base',P_,[NB.unfold(U,x,s,i,0),NB.unfold(V,x,s,i,0),TB.unfold(U,x,s,i,0),TB.unfold(V,x,s,i,0)],nb_agr(U,V,n,x,s,i,I(0)))
    yield ('removal: basis functions of equal knots: step',P_,[q>=1]+[f.unfold(Z,x,s,i,q) for f in(NB,TB) for Z in(U,V)]+[nb_agr(U,V,n,x,s,i,q-1),nb_agr(U,V,n,x,s,i+1,q-1)],nb_agr(U,V,n,x,s,i,q))
    yield ('removal: sums of equal knots and values: base',P_,[WS.unfold(U,x,s,p,A,0),WS.unfold(V,x,s,p,B,0)],ws_agr(U,V,n,x,s,p,A,B,I(0)))
    yield ('removal: sums of equal knots and values: step',P_,[m>=0,m<=p,WS.unfold(U,x,s,p,A,m+1),WS.unfold(V,x,s,p,B,m+1),ws_agr(U,V,n,x,s,p,A,B,m),nb_agr(U,V,n,x,s,s-p+m,p)],ws_agr(U,V,n,x,s,p,A,B,m+1))
    su,sv_=span(U,n,p,x),span(V,n,p,x)
    yield ('removal: sums of equal objects: span',P_,[span_exists(U,n,p,x),span_exists(V,n,p,x)],IMP(AND(agr(U,V,n),clampa(U,n,p),clampa(V,n,p),x>=0,x<=1),AND(spanp(V,n,p,x,su),spanp(V,n,p,x,sv_))))
    yield ('removal: sums of equal objects: conclusion',P_,[IMP(AND(agr(U,V,n),clampa(U,n,p),clampa(V,n,p),x>=0,x<=1),AND(spanp(V,n,p,x,su),spanp(V,n,p,x,sv_))),span_unique(V,n,p,x,su,sv_),ws_agr(U,V,n,x,su,p,A,B,p+1)],sm_agr(U,V,n,p,x,A,B))
    yield ('removal: least weight bounds the weight sum: base',P_,[WS.unfold(U,x,s,p,W,0),SB.unfold(U,x,s,p,0)],ws_min(U,n,x,s,p,W,lo,I(0)))
    yield ('removal: least weight bounds the weight sum: step',P_,[m>=0,m<=p,WS.unfold(U,x,s,p,W,m+1),SB.unfold(U,x,s,p,m+1),nonneg(U,n,x,s,p,s-p+m,p),ws_min(U,n,x,s,p,W,lo,m),IMP(AND(N_>=0,W[s-p+m]>=lo),N_*W[s-p+m]>=N_*lo)],ws_min(U,n,x,s,p,W,lo,m+1))
    yield ('removal: least weight bounds the weight sum: term',P_,[],IMP(AND(e[0]>=0,e[1]>=e[2]),e[0]*e[1]>=e[0]*e[2]))
    Aa,w,A1,w1,dd,TT,eps,wm,DD=e
    h=[absle(A1-Aa,dd),absle(w1-w,dd),dd*(1+DD)==TT*(eps*wm),DD>=0,wm>0,w>=wm,absle(Aa,DD*w),TT>=1,2*TT*eps<=1]
    fam='removal: rational deviation: '
    r1=AND(dd>=0,dd<=TT*(eps*wm)); r2=2*(TT*(eps*wm))<=wm; r3=2*w1>=wm; r4=absle((A1-Aa)*w,dd*w); r5=absle(Aa*(w1-w),(DD*w)*dd)
    yield (fam+'signs',P_,h,AND(dd>=0,w>0))
    yield (fam+'tolerance',P_,[dd>=0,DD>=0,dd*(1+DD)==TT*(eps*wm)],dd<=TT*(eps*wm))
    yield (fam+'half',P_,[wm>0,2*TT*eps<=1],r2)
    yield (fam+'weight',P_,[r1,r2,w>=wm,absle(w1-w,dd)],r3)
    yield (fam+'first term',P_,[w>0,absle(A1-Aa,dd)],r4)
    yield (fam+'second term',P_,[w>0,DD>=0,dd>=0,absle(Aa,DD*w),absle(w1-w,dd)],r5)
    yield (fam+'sum',P_,[r4,r5,dd*(1+DD)==TT*(eps*wm)],absle(A1*w-Aa*w1,(TT*(eps*wm))*w))
    yield (fam+'bound',P_,[TT*eps>=0,r3,w>0],(TT*(eps*wm))*w<=2*TT*eps*(w*w1))
    yield (fam+'sign',P_,[dd>=0,DD>=0,wm>0,dd*(1+DD)==TT*(eps*wm)],TT*eps>=0)
    yield (fam+'conclusion',P_,[IMP(AND(*h),AND(dd>=0,r3,absle(A1*w-Aa*w1,(TT*(eps*wm))*w),(TT*(eps*wm))*w<=2*TT*eps*(w*w1)))],ratdev(*e))
_l13a=lemmas
def lemmas():
    yield from _l13a()
    yield from _l13()
@lemma('removal: point sums of equal objects')
def rm_agr(U,V,n,p,x,X,W,Y,Z): return IMP(AND(agr(U,V,n),clampa(U,n,p),clampa(V,n,p),alike(X,Y,I(0),n-p-2),alike(W,Z,I(0),n-p-2),x>=0,x<=1),RSUM(U,x,span(U,n,p,x),p,X,W,p+1)==RSUM(V,x,span(V,n,p,x),p,Y,Z,p+1))
_l13b=lemmas
def lemmas():
    yield from _l13b()
    U,V,X,W,Y,Z=z3.Consts('U V X W Y Z',AR); x=z3.Real('x'); n,p=z3.Ints('n p')
    al=IMP(AND(alike(X,Y,I(0),n-p-2),alike(W,Z,I(0),n-p-2)),alike(HM(X,W),HM(Y,Z),I(0),n-p-2))
    yield ('removal: point sums of equal objects: products',['C13'],[hm_def(X,W),hm_def(Y,Z)],al)
    yield ('removal: point sums of equal objects: conclusion',['C13'],[al,rs_ws(U,x,span(U,n,p,x),p,X,W,p+1),rs_ws(V,x,span(V,n,p,x),p,Y,Z,p+1),sm_agr(U,V,n,p,x,HM(X,W),HM(Y,Z))],rm_agr(U,V,n,p,x,X,W,Y,Z))
# ---- tolerance
WMIN=Ghost('least_weight',[AR,IS],RS,lambda W,m: z3.If(m<=0,z3.RealVal(10**12),z3.If(W[m-1]<WMIN(W,m-1),W[m-1],WMIN(W,m-1))))
from builtins_ import normf
DMAX=Ghost('farthest',[AR,AR,AR,IS],RS,lambda X,Y,Z,m: z3.If(m<=0,R0,(lambda d,e:z3.If(d<e,e,d))(DMAX(X,Y,Z,m-1),normf(3)(X[m-1],Y[m-1],Z[m-1]))))
def tolfacts(A,N):
    return AND(WMIN(A[3],N)>0,DMAX(*A[:3],N)>=0,q1('tw',I(0),N-1,lambda k:A[3][k]>=WMIN(A[3],N),lambda k:[A[3][k]]),
        *[q1(f'td{d}',I(0),N-1,lambda k:AND(A[d][k]<=DMAX(*A[:3],N),-A[d][k]<=DMAX(*A[:3],N)),lambda k:[A[d][k]]) for d in range(3)],
        q1('tdl',I(0),N-1,lambda k:absle(LIN(A)[k],DMAX(*A[:3],N)),lambda k:[LIN(A)[k]]))
def _tol_inv(c):
    P=c.old.points; A=P.arrs
    return [('least weight',c.v('w_min')==WMIN(A[3],c.k)),('largest distance',c.v('dist_max')==DMAX(*A[:3],c.k)),('bounds so far',tolfacts(A,c.k))]
def _tol_h(c):
    A=c.old.points.arrs; e=[A[d][c.k-1] for d in range(3)]; return [lin_def(A),norm_sq(*e),along(normf(3)(*e),*e,R0),WMIN.unfold(A[3],0),DMAX.unfold(*A[:3],0),WMIN.unfold(A[3],c.k),DMAX.unfold(*A[:3],c.k),WMIN.unfold(A[3],c.k+1),DMAX.unfold(*A[:3],c.k+1)]
con('CalcTOL(vec<Vec4>,real)','points epsilon',props=['C13'],requires=lambda c:[('positive weights',wpos(c.points.arrs[3],c.points.len))],
    ensures=lambda c:(lambda A,N:[('tolerance of the book',c.ret*(1+DMAX(*A[:3],N))==c.epsilon*WMIN(A[3],N)),('bounds of weights and distances',tolfacts(A,N))])(c.points.arrs,c.points.len),
    loops=[Loop(inv=_tol_inv,hints=_tol_h)])
# ---- removal
class R_:
    """entry values: knots K (n of them), degree p, points A (N of them), knot u, its span r and multiplicity s"""
    def __init__(z,o):
        k=KV(o.knot_vector); z.K,z.n,z.p=k.a,k.len,o.degree; z.u=o.knot_remove; z.A=o.points.arrs; z.N=o.points.len
        z.tol=None; z.eps=o.tolerance; z.H=[HM(LIN(z.A),z.A[3]),z.A[3]]
        z.r=span(z.K,z.n,z.p,z.u); z.s=CNT(z.K,z.u,z.n)
    def facts(z): return [clampa(z.K,z.n,z.p),AND(z.u>0,z.u<1),span_exists(z.K,z.n,z.p,z.u),spanp(z.K,z.n,z.p,z.u,z.r),far(z.K,z.n,z.u),mult(z.K,z.n,z.p,z.u),
        rn2(z.K,z.n,z.u,z.r,z.n),rn(z.K,z.n,z.u,z.r,z.r+1),AND(z.s>=0,z.s<=z.r+1),all_eq(z.K,z.r-z.s+1,z.r,z.u),AND(z.r-z.p>=0,z.r<z.n),IMP(z.s>z.p,AND(z.K[z.r-z.p]==z.u,z.K[z.r]==z.u)),z.s<=z.p,z.p<=z.r-z.s,z.K[z.r-z.s]<z.u,z.r<=z.N-1]
    def run(z): return run(z.K,z.n,z.p,z.u,z.r,z.s)
    def s0(z,d): return SM(z.K,z.n,z.p,XP,z.H[d])
    def dev(z,B,t,tol,c): return [absle(SM(UT(z.K,z.r,t),z.n-t,z.p,XP,CUT(B[d],c,t))-z.s0(d),z3.ToReal(t)*tol) for d,B in ((0,[LIN(B)]),(1,[None,B[3]]))]
XP=z3.Real('any_parameter')       # an arbitrary parameter
XD=AND(XP>=0,XP<=1)
def TOL(z): return (z.eps*WMIN(z.A[3],z.N))/(1+DMAX(*z.A[:3],z.N))
class Zc:
    """the same for a curve"""
    def __init__(z,cv_,eps): k=KV(cv_.Knots); z.K,z.n,z.p,z.A,z.N,z.eps=k.a,k.len,cv_.Degree,cv_.ControlPoints.arrs,cv_.ControlPoints.len,eps
def ratio(z,K,n,A,t):
    """curves of the original and of (K,A) deviate at the arbitrary parameter along the arbitrary direction by at most 2*t*tolerance"""
    w,w1=SM(z.K,z.n,z.p,XP,z.A[3]),SM(K,n,z.p,XP,A[3]); rs=lambda K,n,A:RSUM(K,XP,span(K,n,z.p,XP),z.p,LIN(A),A[3],z.p+1); T=z3.ToReal(t)
    return IMP(AND(t>=1,XD,2*T*z.eps<=1),AND(w>0,w1>0,absle(rs(K,n,A)*w-rs(z.K,z.n,z.A)*w1,2*T*z.eps*(w*w1))))
def kpre(c):
    K=KV(c.knot_vector)
    return [('clamped',clamped(K,c.degree)),('degree',c.degree>=1),('matching points',c.points.len==K.len-c.degree-1),('positive weights',wpos(c.points.arrs[3],c.points.len)),
        ('inside the domain',AND(c.knot_remove>0,c.knot_remove<1)),('the knot is stored or apart from all knots',far(K.a,K.len,c.knot_remove)),('multiplicity at most the degree',mult(K.a,K.len,c.degree,c.knot_remove))]
def kpost(c):
    z=R_(c.old); K=KV(c.knot_vector); t=c.ret; P=c.points
    return [('count',AND(t>=0,t<=z.s,OR(t==0,t<=c.times))),('t copies of the knot fewer',K.len==z.n-t),('t control points fewer',P.len==z.N-t),
        ('the removed knots are copies of the knot',all_eq(z.K,z.r-t+1,z.r,z.u)),('all other knots kept in their order',cutto(z.K,K.a,z.n,z.r-t+1,t)),
        ('exactly t copies fewer',ALL('v',lambda v:CE(K.a,v,K.len)==CE(z.K,v,z.n)-z3.If(v==z.u,t,0),lambda v:[ce_cut(z.K,K.a,z.n,z.u,z.r,t,v,z.n-t)],sort=RS)),
        ('multiplicity counts the copies',z.s==CE(z.K,z.u,z.n)),
        ('clamped',clamped(K,z.p)),('positive weights',wpos(P.arrs[3],P.len)),
        ('nothing removed, nothing changed',IMP(t==0,AND(FA(z.N,lambda k:AND(*[P.arrs[d][k]==z.A[d][k] for d in range(4)])),FA(z.n,lambda k:K.a[k]==z.K[k]))))]+[('deviation at most 2*t*tolerance',ratio(z,K.a,z.n-t,P.arrs,t))]
def khints(c):
    z=R_(c.old); return z.facts()+[rn3(z.K,z.n,z.u,z.n)]
def L(c): return R_(c.old)
def homog(c,hi):
    z=L(c); B=c.v('points').arrs
    return [('homogeneous so far',FA(hi,lambda k:AND(*[B[d][k]==MUL(z.A[d][k],z.A[3][k]) for d in range(3)],B[3][k]==z.A[3][k]))),
            ('still to convert',FAR(hi,z.N,lambda k:AND(*[B[d][k]==z.A[d][k] for d in range(4)]))),('size',c.v('points').len==z.N)]
def _h0(c): z=L(c); return [MUL.unfold(z.A[d][c.k-1],z.A[3][c.k-1]) for d in range(3)]
def outer(c):
    z=L(c); t=c.v('t'); P=c.v('points')
    return [('count',AND(t>=0,t<=c.v('times'))),('window',AND(c.v('first')==z.r-z.p-t,c.v('last')==z.r-z.s+t)),('size',P.len==z.N),('scratch',c.v('temp').len==2*z.p+1),('positive weights',wpos(P.arrs[3],z.N))]+[(f'deviation, {nm}, {("position","weight")[d]}',IMP(XD,f)) for nm,cc in (('low',LO(z.p,z.r,z.s,t)),('high',HI(z.p,z.r,z.s,t))) for d,f in enumerate(z.dev(P.arrs,t,c.v('tol'),cc))]
def _out_h(c):
    z=L(c); t=c.v('t'); B=c.v('points').arrs; h=[hm_def(LIN(z.A),z.A[3])]
    return z.facts()+h+[z.run()]
def _out_init(c):
    """before the first removal nothing deviates"""
    z=L(c); t=I(0); B=c.v('points').arrs; U0=UT(z.K,z.r,t); h=[]
    kd=cut_def(z.K,z.r-t+1,t); ag=agr(U0,z.K,z.n); h+=[Focus(ag,kd),cut_clamp(z.K,z.n,z.p,z.u,z.r,z.s,t)]
    k=z3.Int('ml_k'); b3=[q1('hb_k',I(0),z.N-1,lambda k:B[d][k]==MUL(z.A[d][k],z.A[3][k]),lambda k:[B[d][k]]) for d in range(3)]; h+=b3
    ml=trust(z3.ForAll([k],mul_lin(*[z.A[d][k] for d in range(4)]),patterns=[LIN(B)[k]])); b4=q1('hb_l',I(0),z.N-1,lambda k:LIN(B)[k]==MUL(LIN(z.A)[k],z.A[3][k]),lambda k:[LIN(B)[k]])
    bw=q1('hb_w',I(0),z.N-1,lambda k:B[3][k]==z.A[3][k],lambda k:[B[3][k]]); h+=[Focus(b4,*b3,ml,lin_def(B),lin_def(z.A)),bw]
    for cc in (LO(z.p,z.r,z.s,t),HI(z.p,z.r,z.s,t)):
        for X,H,f in ((LIN(B),z.H[0],b4),(B[3],z.H[1],bw)):
            Q=CUT(X,cc,t); al=alike(Q,H,I(0),z.n-z.p-2)
            h+=[Focus(al,f,cut_def(X,cc,t),AND(z.N==z.n-z.p-1,z.p>=1),hm_def(LIN(z.A),z.A[3])),sm_agr(U0,z.K,z.n,z.p,XP,Q,H)]
    return h
def win(c):
    z=L(c); t=c.v('t'); F=c.v('first'); Lt=c.v('last'); q=c.v('i')-F
    return z,t,F,Lt,q
def sweep(c):
    z,t,F,Lt,q=win(c); T=c.v('temp'); off=c.v('off'); B=c.v('points').arrs; r=[]
    for d in range(4):
        X=T.arrs[d]
        r+=[(f'ends, coordinate {d}',AND(X[0]==B[d][off],X[Lt+1-off]==B[d][Lt+1])),
            (f'solved from the left, coordinate {d}',q1('sc_l',I(1),q,lambda k:CCP(z.u,z.K[off+k],z.K[off+k+z.p+1+t],X[k],X[k-1],B[d][off+k]),lambda k:[X[k]])),
            (f'solved from the right, coordinate {d}',q1('sc_r',Lt-off-q+1,Lt-off,lambda k:CCP(z.u,z.K[off+k-t],z.K[off+k+z.p+1],X[k+1],X[k],B[d][off+k]),lambda k:[X[k]]))]
    return [('positions',AND(q>=0,c.v('j')==Lt-q,c.v('j')-c.v('i')>=t-1,c.v('ii')==1+q,c.v('jj')==Lt-c.v('off')-q)),('scratch',T.len==2*z.p+1),
        ('positive weights',IMP(c.v('positive_weights'),AND(q1('sw_a',I(1),q,lambda k:T.arrs[3][k]>0,lambda k:[T.arrs[3][k]]),q1('sw_b',Lt-c.v('off')-q+1,Lt-c.v('off'),lambda k:T.arrs[3][k]>0,lambda k:[T.arrs[3][k]]))))]+r
def sweep_b(c):
    z,t,F,Lt,q=win(c); i,j=c.v('i'),c.v('j'); K=z.K
    return [AND(K[i]<z.u,z.u<K[i+z.p+1+t]),AND(K[j-t]<z.u,z.u<K[j+z.p+1])]
def sweep_s(c):
    z=L(c); t=c.v('t'); i,j,ii,jj=[c.head(x) for x in ('i','j','ii','jj')]; K=z.K; T1,T0,B=c.v('temp').arrs,c.head('temp').arrs,c.v('points').arrs; h=[AND(ii<jj,ii>=1,c.v('off')+ii==i,c.v('off')+jj==j)]
    for d in range(4):
        for a,b,hi,lo,at in ((K[i],K[i+z.p+1+t],T1[d][ii],T0[d][ii-1],i),(K[j-t],K[j+z.p+1],T0[d][jj+1],T1[d][jj],j)):
            v=B[d][at]; h+=[Focus(CCP(z.u,a,b,hi,lo,v),CCP.unfold(z.u,a,b,hi,lo,v),AND(a<z.u,z.u<b),ii<jj)]
    return h
def MV(z,X,lo,f,t):
    """the value that the two neighbours combine to in the middle"""
    a,b=z.K[f],z.K[f+z.p+1+t]; al=(z.u-a)/(b-a); return al*X[lo+t+2]+(1-al)*X[lo]
def sweep_e(c):
    z,t,F,Lt,q=win(c); return [q==QT(z.p,z.s,t)]
def sweep_x(c):
    z,t,F,Lt,q=win(c); T,B=c.v('temp').arrs,c.v('points').arrs; i,ii=c.v('i'),c.v('ii'); Q=QT(z.p,z.s,t); e=AND(q==Q,i==z.r-z.p-t+Q,ii==1+Q); h=[q==Q,e,c.v('jj')+1==z.p-z.s+2*t+2-Q]
    a,b=z.K[i],z.K[i+z.p+1+t]; al=(z.u-a)/(b-a)
    return h+[Focus(AND(al*T[d][ii+t+1]+(1-al)*T[d][ii-1]==MV(z,T[d],Q,z.r-z.p-t+Q,t),B[d][i]==B[d][z.r-z.p-t+Q]),e) for d in range(4)]+[Focus(AND(*[T[d][ii-1]-T[d][c.v('jj')+1]==T[d][Q]-T[d][z.p-z.s+2*t+2-Q] for d in range(4)]),e,c.v('jj')+1==z.p-z.s+2*t+2-Q)]
def store(c):
    z,t,F,Lt,q=win(c); P,P0=c.v('points'),c.pre('points'); T=c.v('temp').arrs; off=c.v('off'); r=[]
    for d in range(4):
        B1,B=P.arrs[d],P0.arrs[d]
        r+=[(f'stored, coordinate {d}',AND(q1('sc_a',F,F+q-1,lambda k:B1[k]==T[d][k-off],lambda k:[B1[k]]),q1('sc_b',Lt-q+1,Lt,lambda k:B1[k]==T[d][k-off],lambda k:[B1[k]]))),
            (f'others kept, coordinate {d}',AND(q1('sc_c',I(0),F-1,lambda k:B1[k]==B[k],lambda k:[B1[k]]),q1('sc_d',Lt+1,z.N-1,lambda k:B1[k]==B[k],lambda k:[B1[k]])))]
    return [('positions',AND(q>=0,c.v('j')==Lt-q,c.v('j')-c.v('i')>=t-1)),('size',P.len==z.N),('positive weights',wpos(P.arrs[3],z.N))]+r
def _out_step(c):
    z=L(c); t0=c.head('t'); p,s,r,u,n=z.p,z.s,z.r,z.u,z.n; T=c.v('temp').arrs; B,B1=c.head('points').arrs,c.v('points').arrs; tol=c.v('tol'); F=r-p-t0; Q=QT(p,s,t0); h=[AND(c.v('t')==t0+1,t0<s)]
    a,b=z.K[F+Q],z.K[F+Q+p+1+t0]; even=2*Q==p-s+t0; odd=2*Q==p-s+t0+1
    h+=[OR(even,odd),tol>=0,IMP(even,AND(a<u,u<b))]
    X=p-s+2*t0+2-Q; mvs=[MV(z,T[d],Q,F+Q,t0) for d in range(4)]; off=F-1; Lt=r-s+t0; N=n-p-1
    for d in range(4): m2,m1=T[d][Q+t0+2],T[d][Q]; h+=[Focus(IMP(even,CCP(u,a,b,m2,m1,mvs[d])),IMP(even,AND(a<u,u<b)),CCP.unfold(u,a,b,m2,m1,mvs[d]))]
    TL,BL,B1L=LIN(T),LIN(B),LIN(B1); ml=LC3(*mvs[:3])
    # what was compared, along the direction
    eo=[T[d][Q]-T[d][X] for d in range(4)]; ee=[mvs[d]-B[d][F+Q] for d in range(4)]; no,ne=normf(4)(*eo),normf(4)(*ee)
    h+=[IMP(odd,no<=tol),IMP(even,ne<=tol),norm_sq(*eo),norm_sq(*ee),along(no,*eo),along(ne,*ee),lc_diff(*[T[d][Q] for d in range(3)],*[T[d][X] for d in range(3)]),lc_diff(*mvs[:3],*[B[d][F+Q] for d in range(3)]),IMP(odd,absle(eo[3],tol)),IMP(even,absle(ee[3],tol))]
    ld=[lin_def(x) for x in (T,B,B1)]; la=lambda A,k:trust(LIN(A)[k]==LC3(*[A[d][k] for d in range(3)]))
    h+=[Focus(IMP(odd,absle(TL[Q]-TL[X],tol)),IMP(odd,no<=tol),norm_sq(*eo),along(no,*eo),lc_diff(*[T[d][Q] for d in range(3)],*[T[d][X] for d in range(3)]),la(T,Q),la(T,X)),
        Focus(IMP(even,absle(ml-BL[F+Q],tol)),IMP(even,ne<=tol),norm_sq(*ee),along(ne,*ee),lc_diff(*mvs[:3],*[B[d][F+Q] for d in range(3)]),la(B,F+Q)),
        ccp_lin(u,a,b,[T[d][Q+t0+2] for d in range(3)],[T[d][Q] for d in range(3)],mvs[:3]),la(T,Q+t0+2),la(T,Q),IMP(even,CCP(u,a,b,TL[Q+t0+2],TL[Q],ml))]
    # the swept values, along the direction
    cl=lambda A,k:q1('sc_l',I(1),Q,lambda k:CCP(u,z.K[off+k],z.K[off+k+p+1+t0],A[0][k],A[0][k-1],A[1][off+k]),lambda k:[A[0][k]])
    cr=lambda A,k:q1('sc_r',X-Q,X-1,lambda k:CCP(u,z.K[off+k-t0],z.K[off+k+p+1],A[0][k+1],A[0][k],A[1][off+k]),lambda k:[A[0][k]])
    k=z3.Int('cx_k'); v=lambda A,k:[A[d][k] for d in range(3)]
    fl=[q1('sc_l',I(1),Q,lambda k:CCP(u,z.K[off+k],z.K[off+k+p+1+t0],T[d][k],T[d][k-1],B[d][off+k]),lambda k:[T[d][k]]) for d in range(3)]
    fr=[q1('sc_r',p-s+2*t0+1-Q+1,p-s+2*t0+1,lambda k:CCP(u,z.K[off+k-t0],z.K[off+k+p+1],T[d][k+1],T[d][k],B[d][off+k]),lambda k:[T[d][k]]) for d in range(3)]
    gl=q1('sc_l',I(1),Q,lambda k:CCP(u,z.K[off+k],z.K[off+k+p+1+t0],TL[k],TL[k-1],BL[off+k]),lambda k:[TL[k]])
    gr=q1('sc_r',p-s+2*t0+1-Q+1,p-s+2*t0+1,lambda k:CCP(u,z.K[off+k-t0],z.K[off+k+p+1],TL[k+1],TL[k],BL[off+k]),lambda k:[TL[k]])
    ql=trust(z3.ForAll([k],ccp_lin(u,z.K[off+k],z.K[off+k+p+1+t0],v(T,k),v(T,k-1),v(B,off+k)),patterns=[TL[k]])); qr=trust(z3.ForAll([k],ccp_lin(u,z.K[off+k-t0],z.K[off+k+p+1],v(T,k+1),v(T,k),v(B,off+k)),patterns=[TL[k]]))
    h+=fl+fr+ld+[Focus(gl,*fl,ql,*ld),Focus(gr,*fr,qr,*ld)]
    st=lambda A1,A0,TT:[q1('sc_a',F,F+Q-1,lambda k:A1[k]==TT[k-off],lambda k:[A1[k]]),q1('sc_b',Lt-Q+1,Lt,lambda k:A1[k]==TT[k-off],lambda k:[A1[k]]),q1('sc_c',I(0),F-1,lambda k:A1[k]==A0[k],lambda k:[A1[k]]),q1('sc_d',Lt+1,N-1,lambda k:A1[k]==A0[k],lambda k:[A1[k]])]
    co=[st(B1[d],B[d],T[d]) for d in range(3)]
    for i,g in enumerate(st(B1L,BL,TL)): h+=[co[d][i] for d in range(3)]+[Focus(g,*[co[d][i] for d in range(3)],*ld)]
    h+=[la(T,0),la(T,p-s+2*t0+2),la(B,off),la(B,Lt+1),AND(TL[0]==BL[off],TL[p-s+2*t0+2]==BL[Lt+1])]
    for TT,BB,BB1,mv in ((TL,BL,B1L,ml),(T[3],B[3],B1[3],mvs[3])):
        sc=SC(z.K,n,p,u,r,s,t0,TT,BB,BB1,mv,tol); h+=list(sc.children())+[sc]
        for cc in (LO(p,r,s,t0+1),HI(p,r,s,t0+1)): h+=[step_sum(z.K,n,p,u,r,s,t0,TT,BB,BB1,mv,tol,cc,XP)]
    return h
def split(c):
    z=L(c); j0=c.pre('j'); k=c.k
    return [('start',AND(2*j0<=2*z.r-z.s-z.p,2*z.r-z.s-z.p<=2*j0+1)),('range',AND(c.v('i')-c.v('j')==k-1,2*(c.v('i')-j0)<=k,k<=2*(c.v('i')-j0)+1)),('count',k<=c.v('t'))]
def close(c):
    z=L(c); t=c.v('t'); B,B0=c.v('points'),c.pre('points'); j0=c.pre('j'); j=c.v('j'); r=[('position',j==c.k-t),('gap',c.v('i')+1-j0==t),('size',B.len==z.N)]
    for d in range(4):
        X,Y=B.arrs[d],B0.arrs[d]
        r+=[(f'moved, coordinate {d}',q1('cl_d',j0,j-1,lambda k:X[k]==Y[k+t],lambda k:[X[k]])),(f'before, coordinate {d}',q1('cl_e',I(0),j0-1,lambda k:X[k]==Y[k],lambda k:[X[k]])),(f'behind, coordinate {d}',q1('cl_c',j,z.N-1,lambda k:X[k]==Y[k],lambda k:[X[k]]))]
    return r
def close_e(c):
    """the polygon without the gap is the cut of the removal lemmas"""
    z=L(c); t=c.v('t'); j0=c.pre('j'); B,B0=c.v('points').arrs,c.pre('points').arrs; p,r,s,n=z.p,z.r,z.s,z.n; U=UT(z.K,r,t); lo,hi=LO(p,r,s,t),HI(p,r,s,t)
    h=[AND(t>=1,t<=s),OR(j0==lo,j0==hi),cut_clamp(z.K,n,p,z.u,r,s,t),agr(U,U,n-t)]
    f1=lambda X,Y:AND(q1('cl_d',j0,z.N-t-1,lambda k:X[k]==Y[k+t],lambda k:[X[k]]),q1('cl_e',I(0),j0-1,lambda k:X[k]==Y[k],lambda k:[X[k]]))
    co=[f1(B[d],B0[d]) for d in range(4)]; h+=co+[Focus(f1(LIN(B),LIN(B0)),*co[:3],lin_def(B),lin_def(B0))]
    for d,X,Y in ((0,LIN(B),LIN(B0)),(1,B[3],B0[3])):
        P=CUT(Y,j0,t); al=alike(X,P,I(0),n-t-p-2)
        dev=lambda V:IMP(XD,absle(SM(U,n-t,p,XP,V)-z.s0(d),z3.ToReal(t)*c.v('tol'))); da,db=CUT(Y,lo,t),CUT(Y,hi,t)
        h+=[Focus(al,f1(X,Y),cut_def(Y,j0,t),z.N==n-p-1),sm_agr(U,U,n-t,p,XP,X,P),Focus(dev(P),OR(j0==lo,j0==hi),dev(da),dev(db)),Focus(dev(X),dev(P),al,sm_agr(U,U,n-t,p,XP,X,P),agr(U,U,n-t),clampa(U,n-t,p))]
    return h
def kmove_e(c):
    z=L(c); t=c.v('t'); K=c.v('knots').a; U=UT(z.K,z.r,t); ag=agr(K,U,z.n-t); ct=cutto(z.K,K,z.n,z.r-t+1,t)
    return [ct,Focus(ag,ct,cut_def(z.K,z.r-t+1,t)),Focus(clampa(K,z.n-t,z.p),ag,clampa(U,z.n-t,z.p))]
def back_e(c):
    z=L(c); t=c.v('t'); tol=c.v('tol'); K=c.v('knots').a; B,B0=c.v('points').arrs,c.pre('points').arrs; n,p=z.n-t,z.p; U=UT(z.K,z.r,t); T=z3.ToReal(t); h=[]
    S=span(z.K,z.n,p,XP); w=SM(z.K,z.n,p,XP,z.A[3]); w1=SM(K,n,p,XP,B[3]); wm,D=WMIN(z.A[3],z.N),DMAX(*z.A[:3],z.N); dd=T*tol
    dev=lambda d,X:IMP(XD,absle(SM(K,n,p,XP,X)-z.s0(d),dd))
    k=z3.Int('mu_k'); g=[]
    for d in range(3):
        f1=q1('bk_d',I(0),n-p-2,lambda k:AND(MUL(B[d][k],B[3][k])==B0[d][k]),lambda k:[B[d][k]]); g.append(f1)
        f0=q1('bk_e',I(0),n-p-2,lambda k:AND(B[d][k]*B0[3][k]==B0[d][k],B[3][k]==B0[3][k]),lambda k:[B[d][k]])
        mu=trust(z3.ForAll([k],MUL.unfold(B[d][k],B[3][k]),patterns=[B[d][k]])); h+=[f0,Focus(f1,f0,mu)]
    H0=HM(LIN(B),B[3]); ml=trust(z3.ForAll([k],mul_lin(*[B[d][k] for d in range(4)]),patterns=[H0[k]])); al0=alike(H0,LIN(B0),I(0),n-p-2)
    h+=[Focus(al0,*g,ml,hm_def(LIN(B),B[3]),lin_def(B),lin_def(B0))]
    for d,H,Y in ((0,H0,LIN(B0)),(1,B[3],B0[3])):
        al=alike(H,Y,I(0),n-p-2); sa=sm_agr(K,U,n,p,XP,H,Y); h+=[al,sa,Focus(dev(d,H),sa,al,agr(K,U,n),clampa(K,n,p),clampa(U,n,p),IMP(XD,absle(SM(U,n,p,XP,Y)-z.s0(d),dd)))]
    # the bound on the quotients
    tl=tol*(1+D)==z.eps*wm; tf=tolfacts(z.A,z.N); sp=span_exists(z.K,z.n,p,XP); sc=spanctx(z.K,z.n,p,S,XP)
    h+=[tl,tf,Focus(dd*(1+D)==T*(z.eps*wm),tl),sp,Focus(IMP(XD,AND(sc,S<=z.n-p-2)),sp,clampa(z.K,z.n,p),p>=1)]
    um,mi=unity(z.K,z.n,XP,S,p,p),ws_min(z.K,z.n,XP,S,p,z.A[3],wm,p+1); wp=IMP(XD,w>=wm)
    h+=[um,mi,Focus(wp,um,mi,tf,IMP(XD,AND(sc,S<=z.n-p-2)),z.N==z.n-p-1,p>=1)]
    LA=LIN(z.A); hu=hull(z.K,z.n,XP,S,p,LA,z.A[3],-D,D,p+1); rs=rs_ws(z.K,XP,S,p,LA,z.A[3],p+1); A0=z.s0(0); hb=IMP(XD,absle(A0,D*w)); A1=SM(K,n,p,XP,H0); bt=IMP(XD,between(LA,-D,D,S-p,S))
    h+=[Focus(bt,tf,IMP(XD,AND(sc,S<=z.n-p-2)),z.N==z.n-p-1),hu,rs,Focus(hb,bt,hu,rs,IMP(XD,AND(sc,S<=z.n-p-2)),wpos(z.A[3],z.N),z.N==z.n-p-1,p>=1)]
    rd=ratdev(A0,w,A1,w1,dd,T,z.eps,wm,D); r1=rs_ws(K,XP,span(K,n,p,XP),p,LIN(B),B[3],p+1); bound=IMP(AND(XD,2*T*z.eps<=1),AND(w>0,w1>0,absle(A1*w-A0*w1,2*T*z.eps*(w*w1))))
    h+=[rd,r1,T>=1,Focus(bound,rd,dev(0,H0),dev(1,B[3]),dd*(1+D)==T*(z.eps*wm),tf,wp,hb,T>=1),Focus(ratio(z,K,n,B,t),bound,r1,rs)]
    return h
def kmove(c):
    z=L(c); t=c.v('t'); K=c.v('knots'); k=c.k
    return [('size',K.len==z.n),('kept',q1('km_a',I(0),z.r-t,lambda j:K.a[j]==z.K[j],lambda j:[K.a[j]])),('moved',q1('km_b',z.r-t+1,k-t-1,lambda j:K.a[j]==z.K[j+t],lambda j:[K.a[j]])),('to come',q1('km_c',k-t,z.n-1,lambda j:K.a[j]==z.K[j],lambda j:[K.a[j]]))]
def back(c):
    B,B0=c.v('points'),c.pre('points'); r=[]
    for d in range(3):
        X,Y,W=B.arrs[d],B0.arrs[d],B0.arrs[3]
        r+=[(f'converted so far, coordinate {d}',q1('bk_c',I(0),c.k-1,lambda k:X[k]*W[k]==Y[k],lambda k:[X[k]])),(f'still to convert, coordinate {d}',q1('bk_s',c.k,B0.len-1,lambda k:X[k]==Y[k],lambda k:[X[k]]))]
    return [('size',B.len==B0.len),('weights kept',q1('bk_w',I(0),B0.len-1,lambda k:B.arrs[3][k]==B0.arrs[3][k],lambda k:[B.arrs[3][k]])),('positive weights',wpos(B0.arrs[3],B0.len)),('positive weights after',wpos(B.arrs[3],B0.len))]+r
def back_s(c):
    B,Bh,B0=c.v('points').arrs,c.head('points').arrs,c.pre('points').arrs; k=c.k-1; W=B0[3][k]
    h=[AND(Bh[3][k]==W,W>0,*[Bh[d][k]==B0[d][k] for d in range(3)])]
    return h+[Focus(B[d][k]*W==B0[d][k],h[0]) for d in range(3)]
con('KnotRemoval(KnotVector,vec<Vec4>,int,real,int,real)','knot_vector points degree knot_remove times tolerance',props=['C13'],modifies=['knot_vector','points'],
    requires=kpre,ensures=kpost,hints=khints,
    loops=[Loop(inv=lambda c:homog(c,c.k),hints=_h0),Loop(inv=outer,hints=_out_h,init_hints=_out_init,step_hints=_out_step),Loop(inv=sweep,body_hints=sweep_b,step_hints=sweep_s,exit_hints=sweep_x),Loop(inv=store,exit_hints=sweep_e),Loop(inv=split),Loop(inv=close,exit_hints=close_e),Loop(inv=kmove,exit_hints=kmove_e),Loop(inv=back,step_hints=back_s,exit_hints=back_e)])

# ---- the members
def rpre(c):
    K=KV(c.this.Knots)
    return [('valid curve',curve_ok(c.this)),('degree',c.this.Degree>=1),('times',c.times>=1),('inside the domain',AND(c.knot_remove>0,c.knot_remove<1)),
        ('the knot is stored or apart from all knots',far(K.a,K.len,c.knot_remove)),('multiplicity at most the degree',mult(K.a,K.len,c.this.Degree,c.knot_remove))]
def rpost(c):
    r,t=c.ret.e; o=c.this; K0,K=KV(o.Knots),KV(r.Knots); u=c.knot_remove; p=o.Degree; sp=span(K0.a,K0.len,p,u)
    return [('count',AND(t>=0,t<=CE(K0.a,u,K0.len),OR(t==0,t<=c.times))),('same degree',r.Degree==p),('valid curve',curve_ok(r)),
        ('t knots fewer',K.len==K0.len-t),('t control points fewer',r.ControlPoints.len==o.ControlPoints.len-t),
        ('exactly t copies fewer',ALL('v',lambda v:CE(K.a,v,K.len)==CE(K0.a,v,K0.len)-z3.If(v==u,t,0),lambda v:[],sort=RS)),
        ('all other knots kept in their order',cutto(K0.a,K.a,K0.len,sp-t+1,t)),
        ('nothing removed, nothing changed',IMP(t==0,AND(FA(o.ControlPoints.len,lambda k:veq(r.ControlPoints.at(k),o.ControlPoints.at(k))),FA(K0.len,lambda k:K.a[k]==K0.a[k]))))]+[
        ('deviation at most 2*t*tolerance',ratio(Zc(o,c.tolerance),K.a,K.len,r.ControlPoints.arrs,t))]
con('Curve::RemoveKnot(real,int,real)','knot_remove times tolerance',props=['C13'],requires=rpre,ensures=rpost)

from surfins import D,gd,posin,COL,ROW
from surface import surface_ok
from grid import cells,cell,in_range,distinct,mono,grid_ok
def spre(c,d):
    S=c.this; K=d.kn(S)
    return [('valid surface',surface_ok(S)),('degree',d.deg(S)>=1),('times',c.times>=1),('inside the domain',AND(c.knot_remove>0,c.knot_remove<1)),
        ('the knot is stored or apart from all knots',far(K.a,K.len,c.knot_remove)),('multiplicity at most the degree',mult(K.a,K.len,d.deg(S),c.knot_remove))]
def sdims(d,G,t): return (G.UCount-t,G.VCount) if d.u else (G.UCount,G.VCount-t)
def knots_cut(d,S,R,u,t):
    K0,K=d.kn(S),d.kn(R); p=d.deg(S); sp=span(K0.a,K0.len,p,u)
    return [('t knots fewer',K.len==K0.len-t),('all other knots kept in their order',cutto(K0.a,K.a,K0.len,sp-t+1,t)),('clamped',clamped(K,p)),
        ('exactly t copies fewer',ALL('v',lambda v:CE(K.a,v,K.len)==CE(K0.a,v,K0.len)-z3.If(v==u,t,0),lambda v:[],sort=RS))]
def skept(d,S,R): return [('same degrees',AND(R.DegreeU==S.DegreeU,R.DegreeV==S.DegreeV)),('knots across kept',AND(d.okn(R).len==d.okn(S).len,d.okn(R).a==d.okn(S).a))]
def spost(c,d):
    R,t=c.ret.e; S=c.this; G0,g=S.ControlPoints,R.ControlPoints; u=c.knot_remove; K0,K=d.kn(S),d.kn(R)
    return [('count',AND(t>=0,t<=CE(K0.a,u,K0.len),OR(t==0,t<=c.times)))]+skept(d,S,R)+knots_cut(d,S,R,u,t)+[('t lines of control points fewer',gd(g,*sdims(d,G0,t))),('valid surface',surface_ok(R)),
        ('nothing removed, nothing changed',IMP(t==0,AND(FA(K0.len,lambda k:K.a[k]==K0.a[k]),cells(G0,lambda u,v:veq(cell(g,u,v),cell(G0,u,v))))))]+[('every line deviates by at most 2*t*tolerance',IMP(onl(c,d,S),ratio(Zl(d,S,c.tolerance),K.a,K0.len-t,GL(d,g),t)))]
def s_loop(c,d):
    S=c.old.this; R=c.v('result'); u=c.old.knot_remove; K0,K=d.kn(S),d.kn(R); G0,g=S.ControlPoints,R.ControlPoints; t=c.v('t'); k=c.k; n_=d.ocnt(G0)
    pos=cells(g,lambda a,b:IMP(AND(k>=1,d.across(a,b)<k),cell(g,a,b)[3]>0),lambda a,b:[distinct(g.UCount,a,b,*d.uv(d.along(a,b),k-1))])
    return skept(d,S,R)+[('count',IMP(k>=1,AND(t>=1,t<=CE(K0.a,u,K0.len),t<=c.old.times,t<d.cnt(G0)))),('nothing yet',IMP(k==0,AND(t==0,veq(g.UCount,G0.UCount),g.VCount==G0.VCount,g.Values.len==G0.Values.len))),
        ('knots not yet replaced',IMP(k<n_,AND(K.len==K0.len,K.a==K0.a))),('size',IMP(k>=1,gd(g,*sdims(d,G0,t)))),('positive weights so far',pos),('deviation of every line so far',IMP(AND(onl(c,d,S),XL<k),ldev(c,d,S,g,UT(K0.a,span(K0.a,K0.len,d.deg(S),u),t),K0.len-t,t)))]+[(nm,f if nm.startswith('exactly') else IMP(k==n_,f)) for nm,f in knots_cut(d,S,R,u,t) if not nm.startswith('exactly')]+[
        ('exactly t copies fewer',ALL('v',lambda v:IMP(k==n_,CE(K.a,v,K.len)==CE(K0.a,v,K0.len)-z3.If(v==u,t,0)),lambda v:[],sort=RS))]
XL=z3.Int('any_line')       # an arbitrary line of control points
_GL=z3.Function('gridline',AR,IS,IS,z3.BoolSort(),AR)
def GL(d,g): return [_GL(a,g.UCount,XL,z3.BoolVal(d.u)) for a in g.Values.arrs]
def gl_def(d,g):
    i=z3.Int('gl_i'); u,v=d.uv(i,XL); return [trust(z3.ForAll([i],x[i]==a[v*g.UCount+u],patterns=[x[i]])) for x,a in zip(GL(d,g),g.Values.arrs)]
class Zl:
    """the line of a surface as a curve"""
    def __init__(z,d,S,eps): k=d.kn(S); z.K,z.n,z.p,z.A,z.N,z.eps=k.a,k.len,d.deg(S),GL(d,S.ControlPoints),d.cnt(S.ControlPoints),eps
def ldev(c,d,S,g,K,n,t): return ratio(Zl(d,S,c.old.tolerance),K,n,GL(d,g),t)
def onl(c,d,S): return AND(0<=XL,XL<d.ocnt(S.ControlPoints))
def line_is(d,g,Xs,cond,m,q,nm):
    """cond: the first m cells of the line of g are Xs; q: the fact about the cells"""
    r=[]; L=GL(d,g); i=z3.Int('lf_'+nm)
    for e,X in enumerate(Xs):
        al=alike(X,L[e],I(0),m-1); u,v=d.uv(i,XL)
        f=ALLP([i],lambda i,e=e,X=X:IMP(AND(cond,0<=i,i<=m-1),X[i]==L[e][i]),[L[e][i]],lambda i,e=e:[inst(q,*d.uv(i,XL)),trust(L[e][i]==g.Values.arrs[e][d.uv(i,XL)[1]*g.UCount+d.uv(i,XL)[0]])])
        r+=[f,Focus(IMP(cond,al),f)]
    return r
def s_step(c,d):
    S=c.old.this; R=c.v('result'); G0,g,gh=S.ControlPoints,R.ControlPoints,c.head('result').ControlPoints; K0=d.kn(S); p=d.deg(S); n=K0.len; t=c.v('t'); kh=c.k-1; u=c.old.knot_remove; r=span(K0.a,n,p,u); U=UT(K0.a,r,t); m=n-t-p-1
    P=c.v('points'); kk=KV(c.v('knots')); o=c.call_before(P)
    if o is None: return []
    A0=o.points.arrs; z=Zl(d,S,c.old.tolerance); L1=GL(d,g); h=gl_def(d,G0)+gl_def(d,g)+gl_def(d,gh); ct=cutto(K0.a,kk.a,n,r-t+1,t); ag=agr(kk.a,U,n-t); here=kh==XL
    cu=cut_clamp(K0.a,n,p,u,r,CNT(K0.a,u,n),t)
    h+=[ct,Focus(ag,ct,cut_def(K0.a,r-t+1,t)),clampa(kk.a,n-t,p),clampa(K0.a,n,p),Focus(clampa(U,n-t,p),ag,clampa(kk.a,n-t,p),t>=0,p>=1,n-t>=2*p+2),m==d.cnt(G0)-t]
    ks=agr(K0.a,K0.a,n); h+=[ks]
    qw=cells(g,lambda a,b:IMP(d.across(a,b)==kh,veq(P.at(d.along(a,b)),cell(g,a,b)))); qk=cells(g,lambda a,b:IMP(AND(kh>=1,d.across(a,b)!=kh),veq(cell(gh,a,b),cell(g,a,b))))
    Lh=GL(d,gh); old=AND(kh>=1,XL<kh,0<=XL); fits=AND(d.cnt(g)==m,d.ocnt(g)==d.ocnt(G0)); on=onl(c,d,S); r0=AND(here,on)
    h+=[fits,IMP(old,AND(d.cnt(gh)==m,d.ocnt(gh)==d.ocnt(G0),gh.UCount==g.UCount))]
    for e in range(4): h+=[IMP(here,alike(A0[e],z.A[e],I(0),n-p-2))]
    h+=[qw]+line_is(d,g,P.arrs,r0,m,qw,'w')
    # the earlier lines stay
    h+=[qk]
    i=z3.Int('lf_k')
    for e in range(4):
        ix=lambda i:d.uv(i,XL)[1]*g.UCount+d.uv(i,XL)[0]
        f=ALLP([i],lambda i,e=e:IMP(AND(old,on,0<=i,i<=m-1),Lh[e][i]==L1[e][i]),[L1[e][i]],lambda i,e=e:[inst(qk,*d.uv(i,XL)),trust(L1[e][i]==g.Values.arrs[e][ix(i)]),trust(Lh[e][i]==gh.Values.arrs[e][d.uv(i,XL)[1]*gh.UCount+d.uv(i,XL)[0]])])
        h+=[f,Focus(IMP(AND(old,on),alike(Lh[e],L1[e],I(0),m-1)),f)]
    # transfer of the bound
    au=agr(U,U,n-t); h+=[au]; Kc=[clampa(K0.a,n,p),clampa(kk.a,n-t,p),clampa(U,n-t,p),ks,ag,au]
    zz=Zl(d,S,c.old.tolerance); zz.A=A0
    def move(cond,zs,Ks,As):
        al=lambda X,Y,mm:alike(X,Y,I(0),mm-1); src,dst=ratio(zs,Ks,n-t,As,t),ratio(z,U,n-t,L1,t)
        w=[sm_agr(K0.a,K0.a,n,p,XP,zs.A[3],z.A[3]),sm_agr(Ks,U,n-t,p,XP,As[3],L1[3]),rm_agr(K0.a,K0.a,n,p,XP,LIN(zs.A),zs.A[3],LIN(z.A),z.A[3]),rm_agr(Ks,U,n-t,p,XP,LIN(As),As[3],LIN(L1),L1[3])]
        li=lambda X,Y,mm,cd:Focus(IMP(cd,al(LIN(X),LIN(Y),mm)),*[IMP(cd,al(X[k],Y[k],mm)) for k in range(3)],lin_def(X),lin_def(Y))
        r=w+[li(As,L1,m,cond),IMP(cond,src)]+([li(zs.A,z.A,n-p-1,here)] if zs is not z else [al(LIN(z.A),LIN(z.A),n-p-1),al(z.A[3],z.A[3],n-p-1)])
        fs=w+Kc+[m==n-t-p-1]+[IMP(cond,al(X,Y,m)) for X,Y in ((LIN(As),LIN(L1)),(As[3],L1[3]))]
        fs+=[IMP(here,al(X,Y,n-p-1)) for X,Y in ((LIN(A0),LIN(z.A)),(A0[3],z.A[3]))] if zs is not z else [al(LIN(z.A),LIN(z.A),n-p-1),al(z.A[3],z.A[3],n-p-1)]
        eqs=lambda K_,n_,A_:(RSUM(K_,XP,span(K_,n_,p,XP),p,LIN(A_),A_[3],p+1),SM(K_,n_,p,XP,A_[3]))
        q=IMP(AND(cond,XD),AND(*[a==b for a,b in zip(eqs(K0.a,n,zs.A)+eqs(Ks,n-t,As),eqs(K0.a,n,z.A)+eqs(U,n-t,L1))]))
        return r+[Focus(q,*fs),Focus(IMP(cond,dst),q,IMP(cond,src))]
    h+=move(r0,zz,kk.a,P.arrs); h+=move(AND(old,on),z,U,Lh)
    return h
def s_body(c,d):
    G0=c.old.this.ControlPoints; u,v=d.uv(I(0),c.k); t=z3.Int('t')
    return [grid_ok(G0)]
def s_exit(c,d):
    S=c.old.this; R=c.v('result'); g=R.ControlPoints; G0=S.ControlPoints; UN,VN=sdims(d,G0,c.v('t')); W=g.Values.arrs[3]
    q=cells(g,lambda a,b:cell(g,a,b)[3]>0)
    K0,K=d.kn(S),d.kn(R); n,p=K0.len,d.deg(S); t=c.v('t'); u=c.old.knot_remove; r=span(K0.a,n,p,u); U=UT(K0.a,r,t); ct=cutto(K0.a,K.a,n,r-t+1,t); ag=agr(U,K.a,n-t); L1=GL(d,g); z=Zl(d,S,c.old.tolerance); on=onl(c,d,S); m=n-t-p-1
    h=[ct,Focus(ag,ct,cut_def(K0.a,r-t+1,t)),clampa(K.a,n-t,p),Focus(clampa(U,n-t,p),ag,clampa(K.a,n-t,p),t>=0,p>=1,n-t>=2*p+2)]+[alike(x,x,I(0),m-1) for x in L1]
    w=sm_agr(U,K.a,n-t,p,XP,L1[3],L1[3]); h+=[w]; cl=[clampa(U,n-t,p),clampa(K.a,n-t,p),ag,m==n-t-p-1]+[alike(y,y,I(0),m-1) for y in (LIN(L1),L1[3])]; h+=cl[3:]
    x=rm_agr(U,K.a,n-t,p,XP,LIN(L1),L1[3],LIN(L1),L1[3]); src,dst=ratio(z,U,n-t,L1,t),ratio(z,K.a,n-t,L1,t)
    h+=[x,IMP(on,src),Focus(IMP(on,dst),IMP(on,src),x,w,*cl)]
    return h+[AND(c.k==d.ocnt(G0),d.ocnt(G0)>=1),gd(g,UN,VN),q,ALL('e',lambda e:IMP(AND(0<=e,e<UN*VN),W[e]>0),lambda e:[posin(e,UN,VN),inst(q,COL(e,UN),ROW(e,UN))])]
for d,nm in ((D(True),'U'),(D(False),'V')):
    con(f'Surface::RemoveKnot{nm}(real,int,real)','knot_remove times tolerance',props=['C13'],requires=lambda c,d=d:spre(c,d),ensures=lambda c,d=d:spost(c,d),
        loops=[Loop(inv=lambda c,d=d:s_loop(c,d),body_hints=lambda c,d=d:s_body(c,d),step_hints=lambda c,d=d:s_step(c,d),exit_hints=lambda c,d=d:s_exit(c,d))])
