"""Formal points: elements of a free module over the integers (coefficients may be polynomials in 0/1 atoms).
The group operations are replaced by their contracts (C07, C08): they add, double, negate and preserve the denoted element."""
from contracts.common import *

class GPt(Opaque):
    """kind 'A' affine / 'P' projective; d: basis name -> integer polynomial"""
    __slots__ = ('kind',)
    def __init__(s, d, kind='P'): Opaque.__init__(s, 'pt', {k: v for k, v in d.items() if v}); s.kind = kind
    def __repr__(s): return 'pt%s%r' % (s.kind, s.d)
def gbasis(n, kind='P'): return GPt({n: P.const(1)}, kind)
def gadd(a, b, kind='P'):
    d = dict(a.d)
    for k, v in b.d.items(): d[k] = P.add(d.get(k, {}), v)
    return GPt(d, kind)
def gscale(a, c, kind=None):
    c = c if isinstance(c, dict) else P.const(c)
    return GPt({k: P.mul(v, c) for k, v in a.d.items()}, kind or a.kind)
def geq(a, b): return a.d == b.d
def pt(v):
    v = m.dr(v)
    if isinstance(v, GPt): return v
    if isinstance(v, A) and v.tag in ('ProjectivePoint', 'AffinePoint') and v.f[-1] is True: return GPt({}, v.tag[0])
    raise Unsupported('expected a point, got %r' % (v,))
def ispt(v):
    v = m.dr(v)
    return isinstance(v, GPt) or isinstance(v, A) and v.tag in ('ProjectivePoint', 'AffinePoint')

def group_over(extra=None):
    def add(I, T, a): return gadd(pt(a[0]), pt(a[1])) if ispt(a[0]) else NotImplemented
    def neg(I, T, a): return gscale(pt(a[0]), -1) if ispt(a[0]) else NotImplemented
    def summ(I, T, a):
        it = m.toit(I, a[0]); r = GPt({})
        while True:
            x = it.nxt()
            if x is m.STOP: return r
            r = gadd(r, pt(x))
    o = {'Add::add': add, 'Neg::neg': neg,
         'Sub::sub': lambda I, T, a: gadd(pt(a[0]), gscale(pt(a[1]), -1)) if ispt(a[0]) else NotImplemented,
         'Sum::sum': lambda I, T, a: summ(I, T, a) if T[0][0] == 'adt' and T[0][1].endswith('ProjectivePoint') else NotImplemented,
         'Clone::clone': lambda I, T, a: m.dr(a[0]) if ispt(a[0]) and isinstance(m.dr(a[0]), GPt) else NotImplemented}
    for t in ('ProjectivePoint', 'AffinePoint'):
        o[t + '::double'] = lambda I, T, a: gscale(pt(a[0]), 2)
        o[t + '::neg'] = lambda I, T, a: gscale(pt(a[0]), -1)
    o['ProjectivePoint::to_affine'] = lambda I, T, a: gscale(pt(a[0]), 1, 'A')
    o['AffinePoint::to_projective'] = lambda I, T, a: gscale(pt(a[0]), 1, 'P')
    o['ProjectivePoint::batch_to_affine'] = lambda I, T, a: VecV([gscale(pt(x), 1, 'A') for x in lst(a[0])])
    o['AffinePoint::batch_to_projective'] = lambda I, T, a: VecV([gscale(pt(x), 1, 'P') for x in lst(a[0])])
    o['AffinePoint::endomorphism'] = lambda I, T, a: GPt({'phi ' + k: v for k, v in pt(a[0]).d.items()}, 'A')
    def total(I, l):
        r = GPt({})
        for x in lst(l): r = gadd(r, pt(x))
        return r
    o['curve-curve_summations-affine_summation_best'] = lambda I, T, a: total(I, a[0])
    o['curve-curve_summations-affine_summation_pairwise'] = o['curve-curve_summations-affine_summation_batch_inversion'] = o['curve-curve_summations-affine_summation_best']
    o['curve-curve_summations-affine_multisummation_best'] = lambda I, T, a: VecV([total(I, x) for x in lst(a[0])])
    o['curve-curve_summations-affine_multisummation_pairwise'] = o['curve-curve_summations-affine_multisummation_batch_inversion'] = o['curve-curve_summations-affine_multisummation_best']
    o.update(extra or {})
    return o
def drop(o, *ks): return {k: v for k, v in o.items() if k not in ks}

def gmerge(I, bit, t, f):
    """join of two branches: values that differ become f + bit*(t - f)"""
    if t is f: return t
    if isinstance(t, GPt) and isinstance(f, GPt): return gadd(f, gscale(gadd(t, gscale(f, -1)), bit), f.kind)
    if isinstance(t, FE) and isinstance(f, FE):
        return FE(f.fid, I.st.fs(f.fid).norm(P.add(f.p, P.mul(m.lift(I, f.fid, SI(bit)), P.sub(t.p, f.p)))))
    if m.conc(t) and m.conc(f) and t == f: return t
    if isinstance(t, (Ref, SliceRef, ItV)) and isinstance(f, type(t)): return t
    if isinstance(t, A) and isinstance(f, A) and t.tag == f.tag and t.var == f.var and len(t.f) == len(f.f):
        return A(t.tag, t.var, [gmerge(I, bit, x, y) for x, y in zip(t.f, f.f)], t.targs, t.names)
    if repr(t) == repr(f): return t
    return Opaque('unjoined')
