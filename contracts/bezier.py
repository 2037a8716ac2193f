"""Contracts: Bezier extraction (C20)"""
from spec import *
from program import Contract as C
from exec import Loop
import sym
from knots import rle, clampa, KV, span, spanp, span_exists, span_unique, SPAN, SPF
from basis import NB,TB,support,spanctx
from curve import WS,RSUM,curve_ok,cv,all_eq,wpos,left_sum,right_sum
from insertion import same_sums, q1, copies_in
from grid import mono
out=[]
def con(*a,**k): out.append(C(*a,**k))
# runs of equal knots: RUN(U,n,i) is the first index of the i-th run
NXF=Ghost('run_end',[AR,IS,RS,IS],IS,lambda U,n,v,j: z3.If(OR(j>=n,U[j]!=v),j,NXF(U,n,v,j+1)))
RUN=Ghost('run',[AR,IS,IS],IS,lambda U,n,i: z3.If(i<=0,0,NXF(U,n,U[RUN(U,n,i-1)],RUN(U,n,i-1))))
@lemma('end of a run')
def run_end(U,n,v,j,e): return IMP(AND(j<=e,e<=n,all_eq(U,j,e-1,v),OR(e==n,U[e]!=v)),NXF(U,n,v,j)==e)
# start of the i-th block of p knots in the refined knot vector
BLK=Ghost('block',[IS,IS],IS,lambda p,i: 1+i*p)
@lemma('blocks')
def blk(p,i,j): return IMP(AND(p>=1,i<j),AND(BLK(p,i)+p<=BLK(p,j),BLK(p,i+1)==BLK(p,i)+p))
# a single span of U between p-fold knots, and the knots of a single-span curve
def piece_ctx(U,x,s,p,K,y,e,h): return AND(p>=1,h>0,x==e+y*h,all_eq(U,s-p+1,s,e),all_eq(U,s+1,s+p,e+h),all_eq(K,I(0),p,R0),all_eq(K,p+1,2*p+1,R1))
@lemma('basis functions of a single span')
def piece_nb(U,x,s,p,K,y,e,h,i,q): return IMP(AND(piece_ctx(U,x,s,p,K,y,e,h),0<=q,q<=p),AND(NB(U,x,s,s+i,q)==NB(K,y,p,p+i,q),IMP(q<p,TB(U,x,s,s+i,q)*h==TB(K,y,p,p+i,q))))
def part(A,B,o,p):
    k=z3.Int('pt_k'); return z3.ForAll([k],IMP(AND(0<=k,k<=p),B[k]==A[o+k]),patterns=[B[k]])
@lemma('sums of a single span')
def piece_ws(U,x,s,p,K,y,e,h,X,W,Y,V,m): return IMP(AND(piece_ctx(U,x,s,p,K,y,e,h),part(W,V,s-p,p),part(X,Y,s-p,p),0<=m,m<=p+1),AND(WS(U,x,s,p,W,m)==WS(K,y,p,p,V,m),RSUM(U,x,s,p,X,W,m)==RSUM(K,y,p,p,Y,V,m)))
@lemma('span of a single-span curve')
def piece_span(K,p,y): return IMP(AND(p>=0,all_eq(K,I(0),p,R0),y>=0),SPAN(K,2*p+2,p,y)==p)
@lemma('affine parameter: algebra')
def aff(x,e,y,h,t0,t1,T0,T1): return IMP(AND(x==e+y*h,T0*h==t0,T1*h==t1),AND((x-e)*T0+((e+h)-x)*T1==y*t0+(1-y)*t1))
def lemmas():
    P=['C20']; U,K,X,W,Y,V=z3.Consts('U K X W Y V',AR); x,y,e,h,v=z3.Reals('x y e h v'); n,s,p,i,q,m,j,k=z3.Ints('n s p i q m j k')
    yield ('end of a run: base',P,[j==k,NXF.unfold(U,n,v,j)],run_end(U,n,v,j,k))
    yield ('end of a run: step',P,[j<k,NXF.unfold(U,n,v,j),run_end(U,n,v,j+1,k)],run_end(U,n,v,j,k))
    yield ('blocks',P,[BLK.unfold(p,i),BLK.unfold(p,i+1),BLK.unfold(p,j)],blk(p,i,j))
    t=z3.Reals('t0 t1 T0 T1')
    yield ('affine parameter: algebra',P,[],aff(x,e,y,h,*t))
    A=(U,x,s,p,K,y,e,h)
    ctx=[piece_ctx(*A),0<=q,q<=p]
    nb=lambda i,q:[NB.unfold(U,x,s,s+i,q),NB.unfold(K,y,p,p+i,q)]
    tb=lambda i,q:[TB.unfold(U,x,s,s+i,q),TB.unfold(K,y,p,p+i,q)]
    sup=lambda i,q:[support(U,x,s,s+i,q),support(K,y,p,p+i,q)]
    N=lambda i,q: NB(U,x,s,s+i,q)==NB(K,y,p,p+i,q)
    T_=lambda i,q: TB(U,x,s,s+i,q)*h==TB(K,y,p,p+i,q)
    fam='basis functions of a single span: '
    # from N to T
    kn=AND(U[s+i]==e,U[s+i+q+1]==e+h,K[p+i]==0,K[p+i+q+1]==1)
    ins=AND(-q<=i,i<=0)
    yield (fam+'knots',P,ctx+[q<p,ins],kn)
    yield (fam+'quotient',P,[kn,h>0,N(i,q)]+tb(i,q),T_(i,q))
    yield (fam+'quotient, outside',P,ctx+[NOT(ins)]+sup(i,q),AND(N(i,q),T_(i,q)))
    yield (fam+'base',P,[piece_ctx(*A)]+nb(i,I(0)),N(i,I(0)))
    # step
    a=lambda i,q:[N(i,q),T_(i,q)]
    c1=[piece_ctx(*A),1<=q,q<=p,ins]
    hy=[T_(i,q-1),T_(i+1,q-1)]
    t0,t1=TB(K,y,p,p+i,q-1),TB(K,y,p,p+i+1,q-1); T0,T1=TB(U,x,s,s+i,q-1),TB(U,x,s,s+i+1,q-1)
    for nm,cd,f in (('both',AND(-q<i,i<0),AND(U[s+i]==e,U[s+i+q+1]==e+h,K[p+i]==0,K[p+i+q+1]==1)),
                    ('first',i==-q,AND(U[s+i+q+1]==e+h,K[p+i+q+1]==1)),('last',i==0,AND(U[s+i]==e,K[p+i]==0))):
        yield (fam+'step, '+nm+', knots',P,c1+[cd],f)
        yield (fam+'step, '+nm,P,[f,cd,x==e+y*h,q>=1]+hy+nb(i,q)+sup(i,q-1)+sup(i+1,q-1)+[aff(x,e,y,h,t0,t1,T0,T1)],N(i,q))
    yield (fam+'step, outside',P,ctx+[NOT(ins)]+sup(i,q),N(i,q))
    yield (fam+'conclusion, base',P,[IMP(piece_ctx(*A),N(i,I(0))),IMP(AND(piece_ctx(*A),I(0)<p,-0<=i,i<=0),T_(i,I(0))),IMP(AND(piece_ctx(*A),NOT(AND(-0<=i,i<=0))),T_(i,I(0)))],piece_nb(*A,i,I(0)))
    yield (fam+'conclusion, step',P,[q>=1,piece_nb(*A,i,q-1),piece_nb(*A,i+1,q-1),
        *[IMP(AND(*c1,cd,*hy),N(i,q)) for cd in(AND(-q<i,i<0),i==-q,i==0)],IMP(AND(*ctx,NOT(ins)),AND(N(i,q),T_(i,q))),IMP(AND(*ctx,q<p,ins,N(i,q)),T_(i,q))],piece_nb(*A,i,q))
    B=(X,W,Y,V); un=lambda m:[WS.unfold(U,x,s,p,W,m),WS.unfold(K,y,p,p,V,m),RSUM.unfold(U,x,s,p,X,W,m),RSUM.unfold(K,y,p,p,Y,V,m)]
    yield ('sums of a single span: base',P,un(I(0)),piece_ws(*A,*B,I(0)))
    yield ('sums of a single span: step',P,[m>=0,piece_ws(*A,*B,m)]+un(m+1)+[piece_nb(*A,m-p,p)],piece_ws(*A,*B,m+1))
    yield ('span of a single-span curve',P,[SPAN.unfold(K,2*p+2,p,y),SPF.unfold(K,y,p)],piece_span(K,p,y))
# ---------------------------------------------------------------- extraction
def mult_ok(U,n,p):
    """no interior knot occurs more than p times"""
    return q1('mo_j',I(1),n-p-2,lambda j:U[j]<U[j+p],lambda j:[U[j]])
def EV(U,n,i): return U[RUN(U,n,i)]
def piece_shape(S,p): K=KV(S.Knots); return AND(S.Degree==p,K.len==2*p+2,all_eq(K.a,I(0),p,R0),all_eq(K.a,p+1,2*p+1,R1),S.ControlPoints.len==p+1)
def st(ps,n,k): return z3.If(k<ps.len,ps.at(k).Index,n)
def run_ok(U,n,p,i): return AND(0<=RUN(U,n,i),RUN(U,n,i)<RUN(U,n,i+1),RUN(U,n,i+1)<n,all_eq(U,RUN(U,n,i),RUN(U,n,i+1)-1,EV(U,n,i)),EV(U,n,i)<EV(U,n,i+1))
def _eb_post(c):
    U,n,p,A=cv(c.this); R=c.ret; m=R.len
    def same(i,y):
        S=R.at(i); K,nk,_,B=cv(S); x=EV(U,n,i)+y*(EV(U,n,i+1)-EV(U,n,i)); s=span(U,n,p,x)
        return IMP(AND(0<=i,i<m,y>=0,y<=1),AND(WS(K,y,span(K,nk,p,y),p,B[3],p+1)==WS(U,x,s,p,A[3],p+1),*[RSUM(K,y,span(K,nk,p,y),p,B[d],B[3],p+1)==RSUM(U,x,s,p,A[d],A[3],p+1) for d in range(3)]))
    return [('one piece per non-empty knot span',AND(m>=1,RUN(U,n,I(0))==0,RUN(U,n,m)==n-p-1)),('the spans follow one another',ALL('i',lambda i:IMP(AND(0<=i,i<m),run_ok(U,n,p,i)),lambda i:[])),
      ('every piece is a valid single-span curve of the same degree',ALL('i',lambda i:IMP(AND(0<=i,i<m),AND(piece_shape(R.at(i),p),curve_ok(R.at(i)))),lambda i:_eb_valid(c,i))),
      ('consecutive pieces share their joint',ALL('i',lambda i:IMP(AND(0<=i,i<m-1),AND(*[R.at(i).ControlPoints.arrs[d][p]==R.at(i+1).ControlPoints.arrs[d][0] for d in range(4)])),lambda i:_eb_joint(c,i))),
      ('same point as the original curve',ALL('i y',same,lambda i,y:_eb_same(c,i,y),sort=[IS,RS]))]
def blocks(U,n,p,Ub,kk,hints=None):
    i=z3.Int('bk_i'); return ALLP([i],lambda i:IMP(AND(0<=i,i<=kk-1),all_eq(Ub,BLK(p,i),BLK(p,i)+p-1,EV(U,n,i))),[BLK(p,i)],hints)
def runs(U,n,p,kk):
    i=z3.Int('rf_i'); return ALLP([i],lambda i:IMP(AND(0<=i,i<=kk-1),run_ok(U,n,p,i)),[BLK(p,i)])
def rest(U,n,Ub,d,a):
    """behind the blocks: the original knots from index a, shifted by d"""
    j=z3.Int('rs_j'); return ALLP([j],lambda j:IMP(AND(a<=j,j<=n-1),Ub[j+d]==U[j]),[U[j]])
def KK(ps,k): return z3.If(k<=0,1,z3.If(k<ps.len,k,ps.len-1))
def sums_x(U,n,p,A,Ub,nb,Ab,hints=None):
    x=z3.Real('sx_x'); return ALLP([x],lambda x:IMP(AND(x>=0,x<=1),same_sums(U,n,p,A,Ub,nb,Ab,x)),[span(Ub,nb,p,x)],hints)
def _eb_inv(c):
    U,n,p,A=cv(c.old.this); R=c.v('bezier'); Ub,nb,pb,Ab=cv(R); ps=c.v('pairs'); k=c.k; kk=KK(ps,k); H=c.head('bezier')
    hx=(lambda x:[]) if H is None else (lambda x:[inst(sums_x(U,n,p,A,*cv(H)[:2],cv(H)[3]),x)])
    return [('same degree',pb==p),('valid curve',curve_ok(R)),('runs',AND(kk>=1,kk<ps.len,RUN(U,n,kk)==ps.at(kk).Index,kk<=RUN(U,n,kk))),('runs so far',runs(U,n,p,kk)),
      ('knot count',nb==n+BLK(p,kk)-RUN(U,n,kk)),('first knot',Ub[0]==0),('blocks',blocks(U,n,p,Ub,kk)),('rest',rest(U,n,Ub,BLK(p,kk)-RUN(U,n,kk),RUN(U,n,kk))),
      ('same point at every parameter',sums_x(U,n,p,A,Ub,nb,Ab,hx))]
def runfact(U,n,p,ps,j):
    """the j-th run, away from the ends"""
    r,nx=ps.at(j),ps.at(j+1); mid=AND(1<=j,j<ps.len-1)
    return IMP(mid,AND(0<r.Value,r.Value<1,r.Multiplicity>=1,nx.Index==r.Index+r.Multiplicity,all_eq(U,r.Index,r.Index+r.Multiplicity-1,r.Value),U[nx.Index]==nx.Value,r.Value<nx.Value,nx.Index<n,r.Index>=1))
def _first(c):
    U,n,p,A=cv(c.old.this); ps=c.v('pairs'); r=ps.at(I(0)); nx=ps.at(I(1)); v=c.old.this.Knots.m_Values
    rl=[x for _,x in rle(ps,v)]
    f=AND(ps.len>=2,r.Index==0,r.Value==0,r.Multiplicity==p+1,nx.Index==p+1,U[p+1]==nx.Value,nx.Value>0)
    g1=Focus(AND(ps.len>=1,r.Index==0,r.Multiplicity>=1,r.Multiplicity<=n,ps.at(ps.len-1).Index+ps.at(ps.len-1).Multiplicity==n),ps.len>=0,*rl,clampa(U,n,p))
    g2=Focus(AND(all_eq(U,I(0),r.Multiplicity-1,r.Value),U[0]==r.Value),g1.goal,*rl)
    g3=Focus(ps.len>=2,g1.goal,g2.goal,clampa(U,n,p))
    g4=Focus(AND(nx.Index==r.Multiplicity,nx.Multiplicity>=1,nx.Index+nx.Multiplicity<=n,r.Value<nx.Value),g1.goal,g3.goal,*rl)
    g5=Focus(U[nx.Index]==nx.Value,g1.goal,g3.goal,g4.goal,*rl)
    return [g1,g2,g3,g4,g5,Focus(f,*[x.goal for x in(g1,g2,g3,g4,g5)],clampa(U,n,p)),RUN.unfold(U,n,0),RUN.unfold(U,n,1),run_end(U,n,R0,I(0),p+1),BLK.unfold(p,0),BLK.unfold(p,1),RUN(U,n,I(1))==p+1,all_eq(U,I(0),p,R0)]
def _eb_h(c): return _first(c) if c.head('bezier') is None else []
def _eb_b(c):
    U,n,p,A=cv(c.old.this); ps=c.v('pairs'); j=c.k; r,nx=ps.at(j),ps.at(j+1); mid=AND(1<=j,j<ps.len-1); Uh,nh,_,Ah=cv(c.v('bezier')); s=BLK(p,j)+r.Multiplicity-1
    rl=[x for _,x in rle(ps,c.old.this.Knots.m_Values)]; rf=runfact(U,n,p,ps,j); mu=r.Multiplicity; v=r.Value
    rn=IMP(mid,AND(RUN(U,n,j)==r.Index,RUN(U,n,j+1)==nx.Index))
    inv=[x for _,x in _eb_inv(c)]
    sp=IMP(mid,spanp(Uh,nh,p,v,s)); rl.append(ps.len>=0)
    pr=ps.at(j-1); lst=ps.at(ps.len-1)
    r1=Focus(IMP(mid,AND(mu>=1,r.Index>=0,r.Index+mu<=n,nx.Index==r.Index+mu,nx.Multiplicity>=1,nx.Index+nx.Multiplicity<=n,v<nx.Value)),*rl)
    r2=Focus(IMP(mid,AND(all_eq(U,r.Index,r.Index+mu-1,v),U[nx.Index]==nx.Value,U[r.Index]==v)),r1.goal,*rl)
    r3=Focus(IMP(mid,AND(pr.Value<v,pr.Index>=0,pr.Multiplicity>=1,r.Index==pr.Index+pr.Multiplicity)),*rl)
    r4=Focus(IMP(mid,U[pr.Index]==pr.Value),r3.goal,r1.goal,*rl)
    r5=Focus(IMP(mid,AND(0<v,v<1,r.Index>=1)),r1.goal,r2.goal,r3.goal,r4.goal,clampa(U,n,p),IMP(mid,AND(0<=U[pr.Index],U[nx.Index]<=1)))
    rparts=[r1,r2,r3,r4,r5]
    kj=IMP(mid,AND(nh==n+BLK(p,j)-RUN(U,n,j),RUN(U,n,j)==r.Index,j<=RUN(U,n,j))); rq=rest(U,n,Uh,BLK(p,j)-RUN(U,n,j),RUN(U,n,j)); rj=IMP(mid,rq); bj=IMP(mid,blocks(U,n,p,Uh,j))
    kn=IMP(mid,AND(Uh[s]==v,Uh[s+1]==nx.Value,s+1<nh))
    return [clampa(U,n,p),*rparts,Focus(rf,*[x.goal for x in rparts]),IMP(AND(mid,mu>p),U[r.Index]==U[r.Index+p]),Focus(IMP(mid,mu<=p),rf,mult_ok(U,n,p),p>=1,IMP(AND(mid,mu>p),U[r.Index]==U[r.Index+p])),
      kj,rj,bj,Focus(rn,rf,kj,RUN.unfold(U,n,j+1),run_end(U,n,U[r.Index],r.Index,nx.Index)),BLK.unfold(p,j),BLK.unfold(p,j+1),blk(p,I(0),j),blk(p,j,j+1),BLK.unfold(p,0),mono(p,j+1,n),
      clampa(Uh,nh,p),Focus(kn,rf,kj,rj,inst(rq,nx.Index),inst(rq,nx.Index-1)),Focus(sp,kn,rf,clampa(Uh,nh,p),blk(p,I(0),j),BLK.unfold(p,0),p>=1),span_exists(Uh,nh,p,v),span_unique(Uh,nh,p,v,s,span(Uh,nh,p,v)),IMP(mid,span(Uh,nh,p,v)==s),
      Focus(IMP(mid,nh+p-mu<=sym.SIZE_MAX),rf,rn,kj,IMP(mid,mu<=p),BLK.unfold(p,j),mono(p,j+1,n),n*(p+1)<=sym.SIZE_MAX,IMP(mid,j<=r.Index),p>=1)]
def _eb_s(c):
    U,n,p,A=cv(c.old.this); ps=c.v('pairs'); j=z3.simplify(c.k-1); r,nx=ps.at(j),ps.at(j+1); mid=AND(1<=j,j<ps.len-1)
    Uh,nh,_,Ah=cv(c.head('bezier')); Ub,nb,_,Ab=cv(c.v('bezier')); s=BLK(p,j)+r.Multiplicity-1; mu=r.Multiplicity; v=r.Value; rf=runfact(U,n,p,ps,j)
    rn=IMP(mid,AND(RUN(U,n,j)==r.Index,RUN(U,n,j+1)==nx.Index))
    rq=rest(U,n,Uh,BLK(p,j)-RUN(U,n,j),RUN(U,n,j)); rj=IMP(mid,rq); bj=IMP(mid,blocks(U,n,p,Uh,j)); bs=IMP(mid,AND(BLK(p,j+1)==BLK(p,j)+p,mu<=p))
    ko,kn=KK(ps,j),KK(ps,c.k); kf=AND(IMP(mid,AND(ko==j,kn==j+1)),IMP(NOT(mid),kn==ko)); d1=BLK(p,j+1)-RUN(U,n,j+1)
    bn,rnx=IMP(mid,blocks(U,n,p,Ub,j+1)),IMP(mid,rest(U,n,Ub,d1,RUN(U,n,j+1)))
    com=[rf,rn,bs,bj,rj]
    if z3.eq(Ub,Uh): ci=[IMP(mid,mu==p)]
    else: ci=[mid,copies_in(Uh,nh,p,v,Ub,p-mu),IMP(mid,span(Uh,nh,p,v)==s)]
    cur=IMP(mid,all_eq(Ub,BLK(p,j),BLK(p,j)+p-1,EV(U,n,j))); old=IMP(mid,all_eq(Uh,BLK(p,j),BLK(p,j)+mu-1,v)); k=z3.Int('ek'); d0=BLK(p,j)-RUN(U,n,j); sp=s==span(Uh,nh,p,v)
    oldq=ALLP([k],lambda k:IMP(AND(mid,BLK(p,j)<=k,k<=BLK(p,j)+mu-1),Uh[k]==v),[Uh[k]],lambda k:[inst(rq,k-d0)])
    curq=ALLP([k],lambda k:IMP(AND(mid,BLK(p,j)<=k,k<=BLK(p,j)+p-1),Ub[k]==EV(U,n,j)),[Ub[k]],lambda k:[])
    bnq=ALLP([k],lambda k:IMP(AND(mid,0<=k,k<=j),all_eq(Ub,BLK(p,k),BLK(p,k)+p-1,EV(U,n,k))),[BLK(p,k)],lambda k:[blk(p,k,j),blk(p,I(0),k),BLK.unfold(p,0),inst(blocks(U,n,p,Uh,j),k)])
    rnq=ALLP([k],lambda k:IMP(AND(mid,RUN(U,n,j+1)<=k,k<=n-1),Ub[k+d1]==U[k]),[U[k]],lambda k:[inst(rq,k)])
    vr=IMP(mid,EV(U,n,j)==v); kj=IMP(mid,AND(nh==n+BLK(p,j)-RUN(U,n,j),RUN(U,n,j)==r.Index,BLK(p,j)>=1))
    return [BLK.unfold(p,0),blk(p,I(0),j),kf,rf,rn,vr,kj,IMP(mid,run_ok(U,n,p,j)),bs,bj,rj,*ci,Focus(oldq,*com),Focus(old,oldq),Focus(curq,kj,vr,bs,old,rf,*ci),Focus(cur,curq),p>=1,
        Focus(bnq,kj,bs,bj,rf,cur,p>=1,*ci),Focus(bn,bnq),Focus(rnq,kj,*com,*ci),Focus(rnx,rnq),
        Focus(blocks(U,n,p,Ub,kn),kf,bn,IMP(NOT(mid),blocks(U,n,p,Ub,ko))),Focus(rest(U,n,Ub,BLK(p,kn)-RUN(U,n,kn),RUN(U,n,kn)),kf,rnx,IMP(NOT(mid),rest(U,n,Ub,BLK(p,ko)-RUN(U,n,ko),RUN(U,n,ko)))),
        Focus(runs(U,n,p,kn),kf,runs(U,n,p,ko),IMP(mid,run_ok(U,n,p,j)))]
def _eb_x(c):
    U,n,p,A=cv(c.old.this); ps=c.v('pairs'); m=ps.len-1; r=ps.at(m)
    rl=[x for _,x in rle(ps,c.old.this.Knots.m_Values)]+[ps.len>=2]; pr=ps.at(m-1)
    e1=Focus(AND(r.Index>=0,r.Index+r.Multiplicity==n,r.Multiplicity>=1,r.Index==pr.Index+pr.Multiplicity,pr.Multiplicity>=1,pr.Index>=0,pr.Value<r.Value),*rl,clampa(U,n,p))
    e2=Focus(AND(U[r.Index]==r.Value,U[n-1]==r.Value,U[r.Index-1]==pr.Value),e1.goal,*rl)
    e3=Focus(r.Index==n-p-1,e1.goal,e2.goal,clampa(U,n,p))
    Ub,nb,_,Ab=cv(c.v('bezier')); return [clampa(U,n,p),e1,e2,e3,RUN(U,n,m)==n-p-1,EV(U,n,m)==1]
def piece_cp(S,Ab,p,j): return AND(*[q1('pc_k',I(0),p,(lambda d:lambda k:S.ControlPoints.arrs[d][k]==Ab[d][BLK(p,j)-1+k])(d),lambda k:[S.ControlPoints.arrs[d][k]]) for d in range(4)])
def pieces(R,Ab,p,q,hints=None):
    j=z3.Int('pq_j'); return ALLP([j],lambda j:IMP(AND(0<=j,j<q),piece_cp(R.at(j),Ab,p,j)),[BLK(p,j)],hints)
def _eb_s2(c):
    p=c.old.this.Degree; R=c.v('segments'); Ab=c.v('bezier').ControlPoints.arrs; q=c.head('segments').len
    return [R.len==q+1,piece_cp(R.at(q),Ab,p,q)]
def _eb_inv2(c):
    U,n,p,A=cv(c.old.this); R=c.v('segments'); Ub,nb,_,Ab=cv(c.v('bezier')); q=R.len
    return [('pieces so far',AND(0<=q,q<=c.v('pairs').len-1,c.v('i')==BLK(p,q)-1)),('shape of the pieces',FA(q,lambda j:piece_shape(R.at(j),p))),('points of the pieces',pieces(R,Ab,p,q,None if c.head('segments') is None else lambda j:[inst(pieces(c.head('segments'),Ab,p,c.head('segments').len),j)]))]
def _eb_h2(c):
    U,n,p,A=cv(c.old.this); R=c.v('segments'); Ub,nb,_,Ab=cv(c.v('bezier')); q=R.len; m=c.v('pairs').len-1
    return [BLK.unfold(p,0),blk(p,q,m),blk(p,q,q+1),blk(p,q+1,m),p>=1,blk(p,I(0),q),nb==BLK(p,m)+p+1,c.v('bezier').ControlPoints.len==BLK(p,m)]
def _eb_inv3(c):
    p=c.old.this.Degree; S=c.v('seg'); S0=c.pre('seg'); Ab=c.v('bezier').ControlPoints.arrs; i=c.v('i')
    return [('degree',S.Degree==p),('knots',AND(S.Knots.m_Values.len==S0.Knots.m_Values.len,S.Knots.m_Values.a==S0.Knots.m_Values.a)),('count',S.ControlPoints.len==p+1),('points so far',FA(c.k,lambda k:AND(*[S.ControlPoints.arrs[d][k]==Ab[d][i+k] for d in range(4)])))]
def _eb_loc(c):
    U,n,p,A=cv(c.this); b=c.local('bezier'); Ub,nb,_,Ab=cv(b); return U,n,p,A,Ub,nb,Ab,c.local('pairs').len-1
def _eb_hints(c):
    U,n,p,A,Ub,nb,Ab,m=_eb_loc(c); q=c.ret.len
    nbm=AND(nb==BLK(p,m)+p+1,m>=1,RUN(U,n,m)==n-p-1,EV(U,n,m)==1); bl=blocks(U,n,p,Ub,m); rq=rest(U,n,Ub,BLK(p,m)-RUN(U,n,m),RUN(U,n,m))
    k=z3.Int('ek'); last=ALLP([k],lambda k:IMP(AND(BLK(p,m)<=k,k<=BLK(p,m)+p),Ub[k]==1),[Ub[k]],lambda k:[inst(rq,k-BLK(p,m)+RUN(U,n,m))])
    return [blk(p,q,m),p>=1,q==m,clampa(U,n,p),clampa(Ub,nb,p),nbm,bl,rq,Focus(last,rq,nbm,clampa(U,n,p)),RUN.unfold(U,n,0),runs(U,n,p,m),BLK.unfold(p,0)]
def _eb_valid(c,i):
    U,n,p,A,Ub,nb,Ab,m=_eb_loc(c); S=c.ret.at(i); rg=AND(0<=i,i<m)
    return [BLK.unfold(p,0),blk(p,i,m),blk(p,I(0),i),IMP(rg,piece_shape(S,p)),inst(pieces(c.ret,Ab,p,m),i),pieces(c.ret,Ab,p,m),IMP(rg,piece_cp(S,Ab,p,i)),IMP(rg,wpos(S.ControlPoints.arrs[3],p+1))]
def _eb_joint(c,i):
    U,n,p,A,Ub,nb,Ab,m=_eb_loc(c); S,T=c.ret.at(i),c.ret.at(i+1); rg=AND(0<=i,i<m-1)
    return [blk(p,i,i+1),pieces(c.ret,Ab,p,m),inst(pieces(c.ret,Ab,p,m),i),inst(pieces(c.ret,Ab,p,m),i+1),IMP(rg,piece_cp(S,Ab,p,i)),IMP(rg,piece_cp(T,Ab,p,i+1))]
def _eb_same(c,i,y):
    U,n,p,A,Ub,nb,Ab,m=_eb_loc(c); S=c.ret.at(i); K,nk,_,B=cv(S); e,e1=EV(U,n,i),EV(U,n,i+1); h=e1-e; x=e+y*h; s=BLK(p,i+1)-1; rg=AND(0<=i,i<m,y>=0,y<=1); s2=BLK(p,i+2)-1; e2=EV(U,n,i+2)
    bl=blocks(U,n,p,Ub,m); nbm=AND(nb==BLK(p,m)+p+1,m>=1,RUN(U,n,m)==n-p-1,EV(U,n,m)==1); k=z3.Int('ek'); last=ALLP([k],lambda k:IMP(AND(BLK(p,m)<=k,k<=BLK(p,m)+p),Ub[k]==1),[Ub[k]])
    bk=[BLK.unfold(p,0),blk(p,i,i+1),blk(p,i+1,i+2),blk(p,i+1,m),blk(p,i+2,m),blk(p,I(0),i),p>=1]
    sh=IMP(rg,piece_shape(S,p)); pc=IMP(rg,piece_cp(S,Ab,p,i)); ro=[inst(runs(U,n,p,m),i),inst(runs(U,n,p,m),i+1),runs(U,n,p,m)]
    f0=Focus(IMP(rg,AND(e<e1,IMP(i+1<m,AND(e1<e2,e2<=1)),0<=e,e1<=1)),*ro,clampa(U,n,p),nbm)
    f1=Focus(IMP(rg,AND(all_eq(Ub,BLK(p,i),BLK(p,i)+p-1,e),all_eq(Ub,BLK(p,i+1),BLK(p,i+1)+p-1,e1))),bl,nbm,last,*bk,inst(bl,i),inst(bl,i+1))
    ctx=Focus(IMP(rg,piece_ctx(Ub,x,s,p,K,y,e,h)),f0.goal,f1.goal,sh,*bk)
    xr=Focus(IMP(rg,AND(x>=e,x>=0,IMP(y<1,x<e1),IMP(y==1,x==e1),x<=1)),f0.goal)
    f2=Focus(IMP(AND(rg,y<1),spanp(Ub,nb,p,x,s)),xr.goal,f0.goal,f1.goal,nbm,*bk)
    f2b=Focus(IMP(AND(rg,y==1,i+1==m),spanp(Ub,nb,p,x,s)),xr.goal,f0.goal,f1.goal,nbm,*bk)
    f3=Focus(IMP(AND(rg,y==1,i+1<m),AND(spanp(Ub,nb,p,x,s2),all_eq(Ub,s2-p+1,s2,x))),xr.goal,f0.goal,f1.goal,nbm,*bk,bl,last,inst(bl,i+2),IMP(AND(rg,i+1<m),all_eq(Ub,BLK(p,i+2),BLK(p,i+2)+p-1,e2)))
    f3a=Focus(IMP(AND(rg,i+1<m),all_eq(Ub,BLK(p,i+2),BLK(p,i+2)+p-1,e2)),bl,nbm,last,*bk,inst(bl,i+2))
    SP=span(Ub,nb,p,x); sp=[IMP(AND(rg,OR(y<1,i+1==m)),SP==s),IMP(AND(rg,y==1,i+1<m),SP==s2)]
    pt=[IMP(rg,part(Ab[d],B[d],s-p,p)) for d in range(4)]
    W=lambda d:AND(WS(K,y,p,p,B[3],p+1)==WS(Ub,x,SP,p,Ab[3],p+1),RSUM(K,y,p,p,B[d],B[3],p+1)==RSUM(Ub,x,SP,p,Ab[d],Ab[3],p+1))
    r=[*bk,sh,pieces(c.ret,Ab,p,m),inst(pieces(c.ret,Ab,p,m),i),pc,f0,f1,ctx,xr,f2,f2b,f3a,f3,clampa(Ub,nb,p),span_unique(Ub,nb,p,x,s,SP),span_unique(Ub,nb,p,x,s2,SP),span_exists(Ub,nb,p,x),*sp,piece_span(K,p,y),IMP(rg,AND(nk==2*p+2,span(K,nk,p,y)==p)),*[Focus(g,pc,blk(p,i,i+1),p>=1) for g in pt]]
    kc=IMP(rg,spanctx(K,nk,p,p,y)); r+=[IMP(rg,srt(K,nk)),kc]
    uc=[IMP(AND(rg,y==1,i+1<m),spanctx(Ub,nb,p,s2,x)),IMP(AND(rg,y==1,i+1==m),spanctx(Ub,nb,p,s,x))]; r+=uc
    for d in range(3):
        r.append(Focus(IMP(AND(rg,y<1),W(d)),ctx.goal,sp[0],pt[3],pt[d],piece_ws(Ub,x,s,p,K,y,e,h,Ab[d],Ab[3],B[d],B[3],p+1),p>=1))
        r.append(Focus(IMP(AND(rg,y==1),AND(WS(K,y,p,p,B[3],p+1)==Ab[3][s],RSUM(K,y,p,p,B[d],B[3],p+1)==Ab[d][s]*Ab[3][s])),kc,sh,pt[3],pt[d],p>=1,right_sum(K,nk,y,p,p,B[d],B[3],p+1)))
        r.append(Focus(IMP(AND(rg,y==1),AND(WS(Ub,x,SP,p,Ab[3],p+1)==Ab[3][s],RSUM(Ub,x,SP,p,Ab[d],Ab[3],p+1)==Ab[d][s]*Ab[3][s])),*sp,f3.goal,*uc,*bk,f1.goal,xr.goal,left_sum(Ub,nb,x,s2,p,Ab[d],Ab[3],p+1),right_sum(Ub,nb,x,s,p,Ab[d],Ab[3],p+1)))
        r.append(IMP(rg,W(d)))
    return r+[inst(sums_x(U,n,p,A,Ub,nb,Ab),x),sums_x(U,n,p,A,Ub,nb,Ab),IMP(rg,same_sums(U,n,p,A,Ub,nb,Ab,x))]
con('Curve::ExtractBezier()','',props=['C20'],requires=lambda c:[('valid curve',curve_ok(c.this)),('degree',c.this.Degree>=1),('interior multiplicity at most the degree',mult_ok(KV(c.this.Knots).a,KV(c.this.Knots).len,c.this.Degree)),('room',KV(c.this.Knots).len*(c.this.Degree+1)<=sym.SIZE_MAX)],
   ensures=_eb_post,hints=_eb_hints,loops=[Loop(inv=_eb_inv,hints=_eb_h,body_hints=_eb_b,step_hints=_eb_s,exit_hints=_eb_x),Loop(inv=_eb_inv2,hints=_eb_h2,step_hints=_eb_s2),Loop(inv=_eb_inv3)])
