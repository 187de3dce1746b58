"""Formal points with scalar-field coefficients: elements of the free module over the scalar field 'S' on named basis points.
The curve operations are replaced by their contracts (C07, C08, C09, C10): they act linearly on the denoted element."""
from contracts.common import *
class MPt(Opaque):
    """kind 'A'/'P'; d: basis name -> polynomial over S"""
    __slots__ = ('kind',)
    def __init__(s, d, kind='P'): Opaque.__init__(s, 'mpt', d); s.kind = kind
    def __repr__(s): return 'm%s{%s}' % (s.kind, ', '.join(sorted(map(str, s.d))))
def mbasis(n, kind='P'): return MPt({n: P.const(1)}, kind)
def mpt(v):
    v = m.dr(v)
    if isinstance(v, MPt): return v
    if isinstance(v, A) and v.tag in ('ProjectivePoint', 'AffinePoint') and v.f[-1] is True: return MPt({}, v.tag[0])
    raise Unsupported('expected a point, got %r' % (v,))
def ismpt(v):
    v = m.dr(v); return isinstance(v, MPt) or (isinstance(v, A) and v.tag in ('ProjectivePoint', 'AffinePoint'))
def mnorm(st, d): f = st.fs('S'); return {k: w for k, w in ((k, f.norm(v)) for k, v in d.items()) if w}
def madd(st, a, b, kind='P'):
    d = dict(a.d)
    for k, v in b.d.items(): d[k] = P.add(d.get(k, {}), v)
    return MPt(mnorm(st, d), kind)
def mscale(st, a, c, kind=None):
    if isinstance(c, FE): c = c.p
    elif not isinstance(c, dict): c = P.const(c)
    return MPt(mnorm(st, {k: P.mul(v, c) for k, v in a.d.items()}), kind or a.kind)
def msum(st, terms):
    """sum of (FE or poly, MPt)"""
    r = MPt({})
    for c, p in terms: r = madd(st, r, mscale(st, p, c))
    return r
def scal(v):
    v = m.dr(v)
    if isinstance(v, A) and v.tag == 'CurveScalar': v = m.dr(v.f[0])
    if not isinstance(v, FE): raise Unsupported('expected a scalar, got %r' % (v,))
    return v

def module_over(st, extra=None):
    def one(v): return isinstance(m.dr(v), MPt)
    def guard(f): return lambda I, T, a: f(I, T, a) if ismpt(a[0]) else NotImplemented
    def msm(I, pre, sc):
        pre = m.dr(pre); sl_ = m.dr(sc)
        if not (isinstance(pre, Opaque) and pre.what == 'msm table'): raise Unsupported('msm on %r' % (pre,))
        if isinstance(sl_, Opaque): return mbasis(('msm', id(pre.d), sl_.what))
        ps, ss = pre.d, [scal(x) for x in lst(sl_)]
        if len(ps) != len(ss): raise Panic('msm lengths differ')
        return msum(st, list(zip(ss, ps)))
    def direct(I, T, a):
        ss, ps = lst(a[0]), lst(a[1])
        if len(ps) != len(ss): raise Panic('msm lengths differ')
        return msum(st, [(scal(s), mpt(p)) for s, p in zip(ss, ps)])
    tab = lambda I, T, a: Opaque('msm table', [mpt(x) for x in lst(a[0])])
    def eq(I, T, a):
        if not (ismpt(a[0]) and ismpt(a[1])): return NotImplemented
        x, y = mpt(a[0]), mpt(a[1]); d = madd(st, x, mscale(st, y, -1)); st.eqs.append((x, y))
        r = True
        for k in sorted(d.d, key=str): r = r and st.decide(SB('fz', 'S', d.d[k]))
        return r
    def summ(I, T, a):
        if T[0][0] != 'adt' or not T[0][1].endswith('ProjectivePoint'): return NotImplemented
        it = m.toit(I, a[0]); r = MPt({})
        while True:
            x = it.nxt()
            if x is m.STOP: return r
            r = madd(st, r, mpt(x))
    def mul(I, T, a):
        x = m.dr(a[0])
        if isinstance(x, A) and x.tag == 'CurveScalar': return mscale(st, mpt(a[1]), scal(x), 'P')
        return NotImplemented
    st.eqs = []
    o = {'Add::add': guard(lambda I, T, a: madd(st, mpt(a[0]), mpt(a[1]))), 'Sub::sub': guard(lambda I, T, a: madd(st, mpt(a[0]), mscale(st, mpt(a[1]), -1))), 'Neg::neg': guard(lambda I, T, a: mscale(st, mpt(a[0]), -1)),
         'Mul::mul': mul, 'Sum::sum': summ, 'PartialEq::eq': eq, 'Clone::clone': lambda I, T, a: m.dr(a[0]) if one(a[0]) else NotImplemented,
         'PartialEq::ne': lambda I, T, a: (lambda r: r if r is NotImplemented else not r)(eq(I, T, a)),
         'ProjectivePoint::to_affine': lambda I, T, a: mscale(st, mpt(a[0]), 1, 'A'), 'AffinePoint::to_projective': lambda I, T, a: mscale(st, mpt(a[0]), 1, 'P'),
         'ProjectivePoint::batch_to_affine': lambda I, T, a: VecV([mscale(st, mpt(x), 1, 'A') for x in lst(a[0])]), 'AffinePoint::batch_to_projective': lambda I, T, a: VecV([mscale(st, mpt(x), 1, 'P') for x in lst(a[0])]),
         'ProjectivePoint::mul_precompute': lambda I, T, a: Opaque('mul table', mpt(a[0])), 'ProjectivePoint::mul_with_precomputation': lambda I, T, a: mscale(st, mpt(a[0]), scal(a[1])),
         'curve-curve_msm-msm_precompute': tab, 'curve-curve_msm-msm_parallel': direct,
         'curve-curve_msm-msm_execute': lambda I, T, a: msm(I, a[0], a[1]), 'curve-curve_msm-msm_execute_parallel': lambda I, T, a: msm(I, a[0], a[1])}
    for t in ('ProjectivePoint', 'AffinePoint'):
        o[t + '::double'] = lambda I, T, a: mscale(st, mpt(a[0]), 2)
        o[t + '::neg'] = lambda I, T, a: mscale(st, mpt(a[0]), -1)
    o.update(extra or {}); return o
def mcfg(st, extra=None): return curve_cfg(Opaque('A'), Opaque('B'), over=module_over(st, extra))
def mfeq(ctx, st, got, want, what):
    """equality of module elements, coordinate by coordinate"""
    got, want = mpt(got), mpt(want); d = madd(st, got, mscale(st, want, -1)).d
    for k in sorted(set(got.d) | set(want.d), key=str): ctx.zero(st, 'S', d.get(k, {}), '%s: coefficient of %s' % (what, k))
    ctx.concrete(True, what)
MFI = lambda: {'F': FieldInfo('F'), 'S': FieldInfo('S')}
