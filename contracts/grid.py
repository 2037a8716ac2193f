"""Contracts: Grid, BoundingBox, Approx, Binomial, Factorial"""
from spec import *
from program import Contract as C
from exec import Loop, UNROLL
import sym
out=[]
def con(*a,**k): out.append(C(*a,**k))
def grid_ok(g):
    return AND(g.UCount>=0,g.VCount>=0,g.UCount<=sym.SIZE_MAX,g.VCount<=sym.SIZE_MAX,g.Values.len==g.UCount*g.VCount,g.Values.len<=sym.SIZE_MAX)
def cell(g,u,v,U=None): return g.Values.at(v*(g.UCount if U is None else U)+u)
def cells(g,f,hints=None,also=None):
    """forall cells (u,v) of g: f(u,v)"""
    U,V=g.UCount,g.VCount
    return ALL('u v',lambda u,v:IMP(AND(0<=u,u<U,0<=v,v<V),f(u,v)),lambda u,v:[in_range(U,V,u,v)]+(hints(u,v) if hints else []),also=also)
@lemma('grid positions lie inside')
def in_range(U,V,u,v):
    """lemma (proved: see lemma_in_range): positions of cells lie inside the storage"""
    return IMP(AND(0<=u,u<U,0<=v,v<V),AND(v*U+u>=0,v*U+u<U*V,v*U>=0,v*U+U<=U*V))
@lemma('grid positions of different cells')
def distinct(U,u,v,u2,v2):
    """lemma (proved: see lemma_distinct): different cells have different positions"""
    return IMP(AND(0<=u,u<U,0<=u2,u2<U,v*U+u==v2*U+u2),AND(u==u2,v==v2))
@lemma('products are monotone')
def mono(U,a,b):
    """lemma: a<=b and U>=0 imply a*U<=b*U"""
    return IMP(AND(U>=0,a<=b),a*U<=b*U)
for El in ('Vec4','Vec3'):
    G=f'Grid<{El}>'
    inb=lambda c:[('consistent grid',grid_ok(c.this)),('cell inside the grid',AND(0<=c.u,c.u<c.this.UCount,0<=c.v,c.v<c.this.VCount)),in_range(c.this.UCount,c.this.VCount,c.u,c.v)]
    con(f'{G}::Grid(int,int)','u v',props=['C18'],modifies=['this'],requires=lambda c:[AND(c.u>=0,c.v>=0,c.u<=sym.SIZE_MAX,c.v<=sym.SIZE_MAX,c.u*c.v<=sym.SIZE_MAX,c.u*c.v>=0)],
        ensures=lambda c:[('dimensions',AND(c.this.UCount==c.u,c.this.VCount==c.v)),('storage',c.this.Values.len==c.u*c.v)])
    con(f'{G}::Grid(int,int,{El})','u v init',props=['C18'],modifies=['this'],requires=lambda c:[AND(c.u>=0,c.v>=0,c.u<=sym.SIZE_MAX,c.v<=sym.SIZE_MAX,c.u*c.v<=sym.SIZE_MAX,c.u*c.v>=0)],
        ensures=lambda c:[('dimensions',AND(c.this.UCount==c.u,c.this.VCount==c.v)),('storage',c.this.Values.len==c.u*c.v),('filled',FA(c.u*c.v,lambda k:veq(c.this.Values.at(k),c.init)))])
    con(f'{G}::Count()','',props=['C18'],requires=lambda c:[('consistent grid',grid_ok(c.this))],ensures=lambda c:[('product of the dimensions',c.ret==c.this.UCount*c.this.VCount),('number of stored values',c.ret==c.this.Values.len)])
    # Get returns a reference: reading it gives the cell, writing it changes exactly that cell
    for cst in ('',' const'):
        con(f'{G}::Get(int,int){cst}','u v',props=['C18'],requires=inb,
            ensures=lambda c:[('the cell at (u,v)',c.retlv_is(c.this.Values.at(c.v*c.this.UCount+c.u),('f','Values'),c.v*c.this.UCount+c.u))],
            ret_lv=lambda ex,old,this,refs: this.ext(('f','Values')).ext(('i',old.v*old.this.UCount+old.u)))
    con(f'{G}::GetU(int)','u',props=['C18'],requires=lambda c:[('consistent grid',grid_ok(c.this)),('line inside',AND(0<=c.u,c.u<c.this.UCount))],
        ensures=lambda c:[('one value per v',c.ret.len==c.this.VCount),('line of constant u',FA(c.ret.len,lambda v:veq(c.ret.at(v),cell(c.this,c.u,v))))],
        loops=[Loop(inv=lambda c:[('line so far',FA(c.k,lambda v:veq(c.v('result').at(v),cell(c.this,c.old.u,v)))),('len',c.v('result').len==c.this.VCount)],body_hints=lambda c:[in_range(c.this.UCount,c.this.VCount,c.old.u,c.k)])])
    con(f'{G}::GetV(int)','v',props=['C18'],requires=lambda c:[('consistent grid',grid_ok(c.this)),('line inside',AND(0<=c.v,c.v<c.this.VCount))],
        ensures=lambda c:[('one value per u',c.ret.len==c.this.UCount),('line of constant v',FA(c.ret.len,lambda u:veq(c.ret.at(u),cell(c.this,u,c.v))))],
        loops=[Loop(inv=lambda c:[('line so far',FA(c.k,lambda u:veq(c.v('result').at(u),cell(c.this,u,c.old.v)))),('len',c.v('result').len==c.this.UCount)],body_hints=lambda c:[in_range(c.this.UCount,c.this.VCount,c.k,c.old.v)])])
    con(f'{G}::SetU(int,vec<{El}>)','u values',props=['C18'],modifies=['this'],requires=lambda c:[('consistent grid',grid_ok(c.this)),('line inside',AND(0<=c.u,c.u<c.this.UCount)),('size',c.values.len==c.this.VCount)],
        ensures=lambda c:[('dimensions kept',AND(c.this.UCount==c.old.this.UCount,c.this.VCount==c.old.this.VCount,c.this.Values.len==c.old.this.Values.len)),
                          ('exactly that line is replaced',cells(c.this,lambda u,v:veq(cell(c.this,u,v),ITE(u==c.u,c.values.at(v),cell(c.old.this,u,v)))))],
        loops=[Loop(inv=lambda c:[('replaced so far',cells(c.this,lambda u,v:veq(cell(c.this,u,v),ITE(AND(u==c.old.u,v<c.k),c.old.values.at(v),cell(c.old.this,u,v))),lambda u,v:[distinct(c.this.UCount,u,v,c.old.u,c.k-1)]))],
                    body_hints=lambda c:[in_range(c.this.UCount,c.this.VCount,c.old.u,c.k)])])
    con(f'{G}::SetV(int,vec<{El}>)','v values',props=['C18'],modifies=['this'],requires=lambda c:[('consistent grid',grid_ok(c.this)),('line inside',AND(0<=c.v,c.v<c.this.VCount)),('size',c.values.len==c.this.UCount)],
        ensures=lambda c:[('dimensions kept',AND(c.this.UCount==c.old.this.UCount,c.this.VCount==c.old.this.VCount,c.this.Values.len==c.old.this.Values.len)),
                          ('exactly that line is replaced',cells(c.this,lambda u,v:veq(cell(c.this,u,v),ITE(v==c.v,c.values.at(u),cell(c.old.this,u,v)))))],
        loops=[Loop(inv=lambda c:[('replaced so far',cells(c.this,lambda u,v:veq(cell(c.this,u,v),ITE(AND(v==c.old.v,u<c.k),c.old.values.at(u),cell(c.old.this,u,v))),lambda u,v:[distinct(c.this.UCount,u,v,c.k-1,c.old.v)]))],
                    body_hints=lambda c:[in_range(c.this.UCount,c.this.VCount,c.k,c.old.v)])])
    con(f'{G}::InsertV(int,{El})','pos value',props=['C18'],modifies=['this'],
        requires=lambda c:[('consistent grid',grid_ok(c.this)),('position',AND(0<=c.pos,c.pos<c.this.VCount)),mono(c.this.UCount,c.pos,c.this.VCount),mono(c.this.UCount,I(0),c.pos)],
        ensures=lambda c:[('one more line in v',AND(c.this.VCount==c.old.this.VCount+1,c.this.UCount==c.old.this.UCount)),('storage matches',c.this.Values.len==c.this.UCount*c.this.VCount),
            ('new line holds the value, all other lines keep their order',cells(c.this,lambda u,v:veq(cell(c.this,u,v),ITE(v<c.pos,cell(c.old.this,u,v),ITE(v==c.pos,c.value,cell(c.old.this,u,v-1)))),
                lambda u,v:[mono(c.this.UCount,v+1,c.pos),mono(c.this.UCount,c.pos,v),mono(c.this.UCount,c.pos+1,v),in_range(c.old.this.UCount,c.old.this.VCount,u,v),in_range(c.old.this.UCount,c.old.this.VCount,u,v-1)]))])
    def moved(g,old,pos,val,u,v):
        return veq(cell(g,u,v),ITE(u<pos,cell(old,u,v),ITE(u==pos,val,cell(old,u-1,v))))
    def insU_outer(c):
        o=c.old.this; g=c.this; U=o.UCount; V=o.VCount; fi=c.v('float_idx')
        return [('next source',fi==(c.k+1)*U-1),('dims',AND(g.UCount==U+1,g.VCount==V,g.Values.len==(U+1)*V)),
           ('sources not yet moved',FA(fi+1,lambda j:veq(g.Values.at(j),o.Values.at(j)))),
           ('finished lines',ALL('u v',lambda u,v:IMP(AND(0<=u,u<U+1,c.k<v,v<V),moved(g,o,c.old.pos,c.old.value,u,v)),lambda u,v:[distinct(U+1,u,v,c.old.pos,c.k+1)]))]
    def insU_inner(c,off,lo_src):
        o=c.old.this; g=c.this; U=o.UCount; V=o.VCount; fi=c.v('float_idx'); iv=c.v('it_v'); st=iv*(U+1); pos=c.old.pos
        return [('next source',fi==iv*U+(c.k-st)-off),('row position',AND(c.k-st>=(pos if off==1 else -1),c.k-st<=(U if off==1 else pos-1))),
           ('dims',AND(g.UCount==U+1,g.VCount==V,g.Values.len==(U+1)*V)),
           ('sources not yet moved',FA(fi+1,lambda j:veq(g.Values.at(j),o.Values.at(j)))),
           ('finished lines',ALL('u v',lambda u,v:IMP(AND(0<=u,u<U+1,iv<v,v<V),moved(g,o,pos,c.old.value,u,v)),lambda u,v:[mono(U+1,iv+1,v)])),
           ('finished cells of this line',ALL('u',lambda u:IMP(AND(0<=u,u<U+1,c.k-st<u,u!=pos),moved(g,o,pos,c.old.value,u,iv))))]
    def insU_bh(c):
        o=c.old.this; U=o.UCount; V=o.VCount; iv=c.v('it_v')
        return [in_range(U+1,V,c.old.pos,iv),in_range(U,V,c.old.pos,iv),mono(U+1,I(0),iv),mono(U,I(0),iv),mono(U+1,iv+1,V),mono(U,iv+1,V)]
    con(f'{G}::InsertU(int,{El})','pos value',props=['C18'],modifies=['this'],
        requires=lambda c:[('consistent grid',grid_ok(c.this)),('position',AND(0<=c.pos,c.pos<c.this.UCount)),('room',(c.this.UCount+1)*c.this.VCount<=sym.SIZE_MAX),mono(c.this.VCount,I(0),c.this.UCount+1),mono(c.this.VCount,I(0),c.this.UCount)],
        ensures=lambda c:[('one more line in u',AND(c.this.UCount==c.old.this.UCount+1,c.this.VCount==c.old.this.VCount)),('storage matches',c.this.Values.len==c.this.UCount*c.this.VCount),
            ('new line holds the value, all other lines keep their order',cells(c.this,lambda u,v:veq(cell(c.this,u,v),ITE(u<c.pos,cell(c.old.this,u,v),ITE(u==c.pos,c.value,cell(c.old.this,u-1,v))))))],
        loops=[Loop(inv=insU_outer,body_hints=insU_bh),
               Loop(inv=lambda c:insU_inner(c,1,0),body_hints=insU_bh,hints=insU_bh),
               Loop(inv=lambda c:insU_inner(c,0,0),body_hints=insU_bh,hints=insU_bh)])
# ---------------------------------------------------------------- BoundingBox
mn=lambda a,b: z3.If(b<a,b,a)
mx=lambda a,b: z3.If(a<b,b,a)
def box_is(b,lo,hi): return AND(*[b.Min[i]==lo[i] for i in range(3)],*[b.Max[i]==hi[i] for i in range(3)])
con('BoundingBox::BoundingBox(Vec3,Vec3)','a b',props=['C19'],modifies=['this'],
    ensures=lambda c:[('smallest box of both points',box_is(c.this,[mn(c.a[i],c.b[i]) for i in range(3)],[mx(c.a[i],c.b[i]) for i in range(3)]))])
def noninv(*B): return [('box is not inverted',AND(*[b.Min[i]<=b.Max[i] for b in B for i in range(3)]))]
con('BoundingBox::ExpandToInclude(Vec3)','p',props=['C19'],modifies=['this'],requires=lambda c:noninv(c.this),
    ensures=lambda c:[('smallest box of the old box and the point',box_is(c.this,[mn(c.old.this.Min[i],c.p[i]) for i in range(3)],[mx(c.old.this.Max[i],c.p[i]) for i in range(3)]))])
con('BoundingBox::ExpandToInclude(BoundingBox)','b',props=['C19'],modifies=['this'],requires=lambda c:noninv(c.this,c.b),
    ensures=lambda c:[('smallest box of both boxes',box_is(c.this,[mn(c.old.this.Min[i],c.b.Min[i]) for i in range(3)],[mx(c.old.this.Max[i],c.b.Max[i]) for i in range(3)]))])
con('BoundingBox::Contains(Vec3)','p',props=['C19'],ensures=lambda c:[('exact, boundaries included',c.ret==AND(*[AND(c.this.Min[i]<=c.p[i],c.p[i]<=c.this.Max[i]) for i in range(3)]))])
con('BoundingBox::Contains(BoundingBox)','b',props=['C19'],
    requires=lambda c:[('box is not inverted',AND(*[c.b.Min[i]<=c.b.Max[i] for i in range(3)]))],
    ensures=lambda c:[('exactly when the whole box lies inside',c.ret==AND(*[AND(c.this.Min[i]<=c.b.Min[i],c.b.Max[i]<=c.this.Max[i]) for i in range(3)]))])
con('BoundingBox::Center()','',props=['C19'],ensures=lambda c:[('midpoint',AND(*[2*c.ret[i]==c.this.Min[i]+c.this.Max[i] for i in range(3)]))])
con('BoundingBox::Length()','',props=['C19'],ensures=lambda c:[('extent',AND(*[c.ret[i]==c.this.Max[i]-c.this.Min[i] for i in range(3)]))])
con('BoundingBox::Volume()','',props=['C19'],ensures=lambda c:[('product of the extents',c.ret==(c.this.Max[0]-c.this.Min[0])*(c.this.Max[1]-c.this.Min[1])*(c.this.Max[2]-c.this.Min[2]))])
# ---------------------------------------------------------------- MathUtils
absd=lambda a,b: z3.If(a-b>=0,a-b,b-a)
con('Approx(real,real,real)','a b eps',props=['C26'],ensures=lambda c:[('true exactly when closer than eps',c.ret==(absd(c.a,c.b)<c.eps))])
con('Approx(Vec3,Vec3,real)','a b eps',props=['C26'],ensures=lambda c:[('true exactly when every component is closer than eps',c.ret==AND(*[absd(c.a[i],c.b[i])<c.eps for i in range(3)]))])
FACT=[1,1,2,6,24,120,720,5040,40320,362880]
con('Factorial(int)','n',props=['C26'],requires=lambda c:[('domain',AND(c.n>=0,c.n<=9))],ensures=lambda c:[('exact',AND(*[IMP(c.n==i,c.ret==f) for i,f in enumerate(FACT)]))])
BIN=Ghost('binom',[IS,IS],IS,lambda n,k: z3.If(k==0,1,z3.If(n<=0,0,BIN(n-1,k-1)+BIN(n-1,k))))
import math
NB=29
def _pascal(): return [BIN.unfold(n,k) for n in range(0,NB+1) for k in range(0,NB+2)]
def _table(): return [BIN(n,k)==math.comb(n,k) for n in range(0,NB+1) for k in range(0,n+2)]
@lemma('binomial step ratio')
def bin_step(n,i):
    return IMP(AND(1<=i,i<=n,n<=NB),AND(BIN(n,i-1)*(n-i+1)==BIN(n,i)*i,BIN(n,i-1)*(n-i+1)<=INT_MAX,BIN(n,i)>=1,BIN(n,i)<=INT_MAX,BIN(n,i-1)>=1,BIN(n,i-1)<=INT_MAX))
def _step_cases():
    return [AND(BIN(n,i-1)*(n-i+1)==BIN(n,i)*i,BIN(n,i-1)*(n-i+1)<=INT_MAX,BIN(n,i)>=1,BIN(n,i)<=INT_MAX,BIN(n,i-1)>=1,BIN(n,i-1)<=INT_MAX) for n in range(1,NB+1) for i in range(1,n+1)]
@lemma('binomial is zero above')
def bin_zero(n,k): return IMP(AND(n>=0,k>n),BIN(n,k)==0)
def _binlemmas():
    n,i=z3.Ints('n i')
    # above the diagonal: by induction on n (k arbitrary)
    yield ('binomial table up to 29 follows from Pascal recursion',['C26','C08','C10'],_pascal(),AND(*_table()))
    yield ('binomial step ratio, all cases up to 29',['C26','C08','C10'],_table(),AND(*_step_cases()))
    for N in range(1,NB+1):
        yield (f'binomial step ratio, n={N}',['C26','C08','C10'],_table(),z3.Implies(n==N,bin_step(n,i)))
    yield ('binomial is zero above the diagonal: induction step',['C26','C08','C10'],[BIN.unfold(n,i),IMP(AND(i-1>n-1,i-1>=0),BIN(n-1,i-1)==0),IMP(AND(i>n-1,i>=0),BIN(n-1,i)==0)],IMP(AND(n>=1,i>n),BIN(n,i)==0))
    yield ('binomial is zero above the diagonal: base',['C26','C08','C10'],[BIN.unfold(n,i)],IMP(AND(n==0,i>n),BIN(n,i)==0))
con('Binomial(int,int)','n k',props=['C26'],requires=lambda c:[('domain',AND(c.n<=NB,c.n>=0,c.k>=0,c.k<=2**30))],
    ensures=lambda c:[('exact',c.ret==BIN(c.n,c.k)),('zero above the diagonal',IMP(c.k>c.n,c.ret==0)),('in range',AND(c.ret>=0,c.ret<=INT_MAX))],
    hints=lambda c:[bin_zero(c.n,c.k),bin_step(c.n,c.k),BIN.unfold(c.n,0)],
    loops=[Loop(inv=lambda c:[('coefficient so far',c.v('result')==BIN(c.old.n,c.k-1)),('k <= n',c.old.k<=c.old.n),('bounds',AND(c.v('result')>=1,c.v('result')<=INT_MAX))],
                hints=lambda c:[BIN.unfold(c.old.n,0),bin_step(c.old.n,c.k),bin_step(c.old.n,c.k-1)])])
def lemmas():
    U,V,u,v,u2,v2=z3.Ints('U V u v u2 v2')
    yield ('grid positions lie inside the storage',['C18'],[mono(U,v+1,V),mono(U,I(0),v)],in_range(U,V,u,v))
    yield ('grid positions of different cells differ',['C18'],[mono(U,v+1,v2),mono(U,v2+1,v)],distinct(U,u,v,u2,v2))
    yield ('products are monotone',['C18'],[],mono(U,u,v))
    yield from _binlemmas()
