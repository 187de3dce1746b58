from contracts.common import *
from contracts.C07 import rep, isz
import itertools
FUNCTIONS = ['ProjectivePoint::to_affine', 'ProjectivePoint::batch_to_affine', 'AffinePoint::to_projective', 'AffinePoint::batch_to_projective', 'PartialEq for ProjectivePoint', 'PartialEq for AffinePoint',
             'AffinePoint::is_valid', 'ProjectivePoint::is_valid', 'AffinePoint::nonzero', 'ProjectivePoint::nonzero', 'AffinePoint::endomorphism']
EXPLAIN = 'Abstract field and curve; coordinates and scalings are indeterminates. Equality and validity are compared, on every path, with the defining predicate over the denoted affine point.'
ASSUMPTIONS = ['field operations meet their contracts (C01)', 'batch_multiplicative_inverse_opt meets its contract (C02): element i is the inverse of input i, or None for zero']

def onc(st, n=''):
    x, y, a = st.fe('F', 'x'+n), st.fe('F', 'y'+n), st.fe('F', 'A')
    b = P.sub(P.sub(P.mul(y.p, y.p), P.pw(x.p, 3)), P.mul(a.p, x.p))
    return (x.p, y.p), a, FE('F', b)
def same(ctx, st, r, pt, what):
    isz(ctx, st, r, pt is None, what)
    if pt is None: return
    z = r.f[2].p if r.tag == 'ProjectivePoint' else P.const(1)
    if r.tag == 'ProjectivePoint': ctx.fnonzero(st, 'F', z, what + ': z')
    ctx.zero(st, 'F', P.sub(r.f[0].p, P.mul(pt[0], z)), what + ': x'); ctx.zero(st, 'F', P.sub(r.f[1].p, P.mul(pt[1], z)), what + ': y')

def conv(ctx, kind, fn, ident):
    def run(st):
        pt, a, b = onc(st); st.pt = None if ident else pt
        I = ctx.interp(st, **curve_cfg(a, b))
        return I.inherent({'A': APT, 'P': PPT}[kind], fn, [], [Ref([rep(st, st.pt, kind, '1')], 0)])[0]
    for st, res in ctx.explore({'F': FieldInfo('F')}, run):
        ctx.no_panic(st, res, fn); same(ctx, st, res[1], st.pt, fn)

def binv_opt(I, T, a):
    out = []
    for v in lst(a[0]):
        v = m.dr(v)
        if I.st.decide(I.st.fz('F', v.p)): out.append(none())
        else: out.append(some(FE('F', I.st.fs('F').inverse(v.p))))
    return VecV(out)

def batch(ctx, fn, kind, n):
    for mask in itertools.product((False, True), repeat=n):
        def run(st):
            a = st.fe('F', 'A'); b = st.fe('F', 'B'); st.pts = []; l = []
            I = ctx.interp(st, over={'Field::batch_multiplicative_inverse_opt': binv_opt,
                                     'AffinePoint::nonzero': lambda I, T, x: aff(x[0], x[1])}, **curve_cfg(a, b))
            for i, z in enumerate(mask):
                pt = None if z else (st.fe('F', 'x%d' % i).p, st.fe('F', 'y%d' % i).p)
                st.pts.append(pt); l.append(rep(st, pt, kind, str(i)))
            return I.inherent({'A': APT, 'P': PPT}[kind], fn, [], [SliceRef(l, 0, n)])[0]
        for st, res in ctx.explore({'F': FieldInfo('F')}, run):
            ctx.no_panic(st, res, fn); r = lst(res[1])
            ctx.concrete(len(r) == n, '%s keeps the length' % fn, {'n': n})
            for x, pt in zip(r, st.pts): same(ctx, st, x, pt, fn)

def eq_ob(ctx, kind):
    """eq is equality of the denoted points: all pairs, not only points on one curve"""
    for z1, z2 in itertools.product((False, True), repeat=2):
        def run(st):
            a = st.fe('F', 'A'); b = st.fe('F', 'B'); ps = []; I = ctx.interp(st, **curve_cfg(a, b))
            st.pts = [None if z else (st.fe('F', 'x%d' % i).p, st.fe('F', 'y%d' % i).p) for i, z in enumerate((z1, z2))]
            l = [rep(st, p, kind, str(i)) for i, p in enumerate(st.pts)]
            r = I.dispatch({'A': APT, 'P': PPT}[kind], 'PartialEq', [], 'eq', [], [Ref(l, 0), Ref(l, 1)])
            return st.decide(r)
        seen = set()
        for st, res in ctx.explore({'F': FieldInfo('F')}, run):
            ctx.no_panic(st, res, 'eq')
            if z1 or z2: ctx.concrete(res[1] == (z1 == z2), 'equality with the identity', {'zero1': z1, 'zero2': z2}); continue
            dx = P.sub(st.pts[0][0], st.pts[1][0]); dy = P.sub(st.pts[0][1], st.pts[1][1]); seen.add(res[1])
            if res[1]: ctx.zero(st, 'F', dx, 'equal points have equal x'); ctx.zero(st, 'F', dy, 'equal points have equal y')
            else:
                ctx.checks += 1
                f = st.fs('F')
                if 'nonzero' not in (f.status(dx), f.status(dy)): raise Undischarged('unequal points: some coordinate differs')
        if not (z1 or z2): ctx.concrete(seen == {True, False}, 'equality is not constant')

def valid_ob(ctx, kind, zero):
    def run(st):
        a = st.fe('F', 'A'); b = st.fe('F', 'B'); x = st.fe('F', 'x'); y = st.fe('F', 'y'); z = st.fe('F', 'z')
        st.v = (a.p, b.p, x.p, y.p, z.p)
        I = ctx.interp(st, **curve_cfg(a, b))
        p = aff(x, y, zero) if kind == 'A' else prj(x, y, z, zero)
        return st.decide(I.inherent({'A': APT, 'P': PPT}[kind], 'is_valid', [], [Ref([p], 0)])[0])
    seen = set()
    for st, res in ctx.explore({'F': FieldInfo('F')}, run):
        ctx.no_panic(st, res, 'is_valid'); a, b, x, y, z = st.v; seen.add(res[1])
        if zero: ctx.concrete(res[1] is True, 'the identity is valid'); continue
        f = st.fs('F')
        if kind == 'A': z = P.const(1)
        # Y^2 Z = X^3 + a X Z^2 + b Z^3
        e = P.sub(P.mul(P.mul(y, y), z), P.add(P.pw(x, 3), P.add(P.mul(P.mul(a, x), P.mul(z, z)), P.mul(b, P.pw(z, 3)))))
        if res[1]:
            ctx.zero(st, 'F', e, 'valid points satisfy the equation')
            if kind == 'P': ctx.fnonzero(st, 'F', z, 'valid points have nonzero z')
        else:
            ctx.checks += 1
            if not (f.status(e) == 'nonzero' or f.status(z) == 'zero'): raise Undischarged('a rejected point violates the equation')
    if not zero: ctx.concrete(seen == {True, False}, 'is_valid is not constant')

def cons_ob(ctx):
    for kind in 'AP':
        def run(st):
            pt, a, b = onc(st); I = ctx.interp(st, **curve_cfg(a, b)); st.pt = pt
            p = rep(st, pt, kind, '1')
            return I.inherent({'A': APT, 'P': PPT}[kind], 'nonzero', [], p.f[:-1])[0]
        for st, res in ctx.explore({'F': FieldInfo('F')}, run):
            ctx.no_panic(st, res, 'nonzero'); same(ctx, st, res[1], st.pt, 'nonzero')

def obligations(crates, tier):
    obs = []
    for ident in (False, True):
        t = 'identity' if ident else 'ordinary point'
        obs.append(Ob('to_affine, ' + t, lambda ctx, i=ident: conv(ctx, 'P', 'to_affine', i)))
        obs.append(Ob('to_projective, ' + t, lambda ctx, i=ident: conv(ctx, 'A', 'to_projective', i)))
        for k in 'AP': obs.append(Ob('is_valid %s, %s' % (k, 'identity' if ident else 'arbitrary coordinates'), lambda ctx, k=k, i=ident: valid_ob(ctx, k, i)))
    for k in 'AP': obs.append(Ob('== on %s points' % k, lambda ctx, k=k: eq_ob(ctx, k)))
    obs.append(Ob('nonzero constructors', cons_ob))
    top = 4 if tier == 'quick' else 6
    for n in range(top + 1):
        obs.append(Ob('batch_to_affine, length %d' % n, lambda ctx, n=n: batch(ctx, 'batch_to_affine', 'P', n), bounded='batch length %d, every pattern of identities' % n, timeout=200))
        obs.append(Ob('batch_to_projective, length %d' % n, lambda ctx, n=n: batch(ctx, 'batch_to_projective', 'A', n), bounded='batch length %d, every pattern of identities' % n))
    return obs
