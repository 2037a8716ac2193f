"""Specification vocabulary: quantified sequence facts, recursive ghost functions with explicit
unfolding, and lemmas.  Ghost functions are total and defined by primitive recursion, so that any
instance of their defining equation may be assumed."""
import z3
from sym import *
import sym
ACTIVE=[None]
def on(*P):
    """does this run decide one of the properties P? (clauses only they need are generated then)"""
    return ACTIVE[0] is None or bool(ACTIVE[0]&set(P))
R0,R1=z3.RealVal(0),z3.RealVal(1)
def FA(n,f,*pats):
    """forall k in [0,n)"""
    k=z3.Int(fresh_name('k'))
    return z3.ForAll([k],z3.Implies(z3.And(0<=k,k<n),f(k)))
def FAR(lo,hi,f):
    k=z3.Int(fresh_name('k'))
    return z3.ForAll([k],z3.Implies(z3.And(lo<=k,k<hi),f(k)))
def FA2(lo1,hi1,lo2,hi2,f):
    i,j=z3.Int(fresh_name('i')),z3.Int(fresh_name('j'))
    return z3.ForAll([i,j],z3.Implies(z3.And(lo1<=i,i<hi1,lo2<=j,j<hi2),f(i,j)))
def AND(*a): return z3.And(*a)
def OR(*a): return z3.Or(*a)
def NOT(a): return z3.Not(a)
def IMP(a,b): return z3.Implies(a,b)
def ITE(c,a,b): return ite(c,a,b)
def le(a,b): return rcmp('<=',a,b)
def lt(a,b): return rcmp('<',a,b)
def eq(a,b): return rcmp('==',a,b)
def notnan(a): return z3.Not(a.nan) if isinstance(a,Real) else z3.BoolVal(True)
def srt(U,n):
    i,j=z3.Int('srt_i'),z3.Int('srt_j')
    return z3.ForAll([i,j],z3.Implies(z3.And(0<=i,i<=j,j<n),U[i]<=U[j]),patterns=[z3.MultiPattern(U[i],U[j])])
def sorted_upto(v,n):
    i,j=z3.Int(fresh_name('i')),z3.Int(fresh_name('j'))
    return z3.ForAll([i,j],z3.Implies(z3.And(0<=i,i<=j,j<n),le(v.at(i),v.at(j))))
def sorted_(v): return sorted_upto(v,v.len)
def legal(v):
    """exactly the sequences a KnotVector accepts: non-empty, no NaN, starts at or above 0, sorted, ends at 1"""
    return z3.And(v.len>0, sorted_upto(v,v.len), le(rconst(0),v.at(I(0))), eq(v.at(v.len-1),rconst(1)))
def knots_ok(v):
    """valid knot vector as used by the evaluators: sorted, first 0, last 1"""
    return z3.And(v.len>=2, sorted_upto(v,v.len), v.at(I(0))==0, v.at(v.len-1)==1)
def clamped(v,p):
    """clamped of degree p: exactly p+1 zeros and p+1 ones"""
    return z3.And(p>=0,p<=2**20,v.len>=2*p+2, v.len<=sym.SIZE_MAX, sorted_upto(v,v.len), FAR(I(0),p+1,lambda k:v.at(k)==0), FAR(v.len-p-1,v.len,lambda k:v.at(k)==1), v.at(p+1)>0, v.at(v.len-p-2)<1)
class Ghost:
    """ghost function with a recursive definition body(*args)->term; unfold(*args) is the defining equation"""
    def __init__(s,name,sorts,rsort,body): s.f=z3.Function(name,*sorts,rsort); s.body=body; s.name=name
    def __call__(s,*a): return s.f(*[I(x) if isinstance(x,int) else x for x in a])
    def unfold(s,*a):
        a=[I(x) if isinstance(x,int) else x for x in a]
        return trust(s.f(*a)==s.body(*a))
LEMMAS={}; LEMMA_USED=set()
def lemma(name):
    """marks a parametrised fact as a lemma: its instances may be used as hypotheses, and the proof entries
    whose name starts with `name` (base and step of the induction, or a direct proof) must all be discharged in the same run"""
    def deco(f):
        LEMMAS[name]=f
        def g(*a):
            LEMMA_USED.add(name)
            r=f(*[I(x) if isinstance(x,int) else x for x in a])
            return trust(r)
        g.__doc__=f.__doc__; g.raw=f; g.lname=name
        return g
    return deco
IS,RS=z3.IntSort(),z3.RealSort()
AR=z3.ArraySort(IS,RS)
EPS6=z3.Q(*__import__('fractions').Fraction(1e-6).as_integer_ratio())
CNT=Ghost('count_near',[AR,RS,IS],IS,lambda a,u,k: z3.If(k<=0,0,CNT(a,u,k-1)+z3.If(z3.And(a[k-1]-u<EPS6,u-a[k-1]<EPS6),1,0)))
def count_range(ex,vec,a,b,p): raise Unsupported('std::count_if')
