from contracts.common import *
FUNCTIONS = ['Add<ProjectivePoint> for ProjectivePoint', 'Add<AffinePoint> for ProjectivePoint', 'Add<AffinePoint> for AffinePoint', 'AffinePoint::double', 'ProjectivePoint::double', 'Neg for AffinePoint', 'Neg for ProjectivePoint', 'ProjectivePoint::neg', 'ProjectivePoint::add_slices', 'Sum<ProjectivePoint>']
EXPLAIN = ('Field and curve are abstract: coordinates, the projective scalings and the curve coefficients are indeterminates constrained only by the curve equation. The cases of the group law (identity, equal, '
           'opposite, order two, distinct abscissae) partition all pairs of points; the chord and tangent slopes parametrise them without further assumption. Each obligation interprets the MIR of the operation and '
           'compares the result with the chord-tangent formulas as polynomial identities.')
ASSUMPTIONS = ['the base field has characteristic other than 2 and 3 (C04 checks the moduli)', 'field operations meet their contracts (C01, C02)', 'the chord-tangent construction is the group law']

def setup(st, case):
    """returns (A, B, p1, p2, p3): affine coordinates or None for the identity"""
    f = lambda n: st.fe('F', n).p
    nz = lambda p: st.assume(SB('fz', 'F', p), False)
    x, y = f('x1'), f('y1')
    if case in ('eq', 'opp', 'z1', 'z2', 'zz', 'dblz'):
        nz(y); l = f('lam'); a = P.sub(P.scale(P.mul(y, l), 2), P.scale(P.mul(x, x), 3))
        b = P.sub(P.sub(P.mul(y, y), P.pw(x, 3)), P.mul(a, x))
        x3 = P.sub(P.mul(l, l), P.scale(x, 2)); y3 = P.sub(P.mul(l, P.sub(x, x3)), y)
        p1 = (x, y); p2 = {'eq': (x, y), 'opp': (x, P.neg(y)), 'z1': (x, y), 'z2': None, 'zz': None, 'dblz': None}[case]
        if case in ('z1', 'zz', 'dblz'): p1 = None
        p3 = {'eq': (x3, y3), 'opp': None, 'z1': (x, y), 'z2': (x, y), 'zz': None, 'dblz': None}[case]
    elif case == 'tor':
        a = f('A'); b = P.neg(P.add(P.pw(x, 3), P.mul(a, x))); p1 = p2 = (x, {}); p3 = None
    else:
        x2 = f('x2'); l = f('lam'); nz(P.sub(x2, x)); y2 = P.add(y, P.mul(l, P.sub(x2, x)))
        x3 = P.sub(P.sub(P.mul(l, l), x), x2); c = P.sub(y, P.mul(l, x))
        a = P.add(P.add(P.mul(x, x2), P.mul(x3, P.add(x, x2))), P.scale(P.mul(l, c), 2))
        b = P.sub(P.mul(c, c), P.mul(P.mul(x, x2), x3))
        p1 = (x, y); p2 = (x2, y2); p3 = (x3, P.sub(P.mul(l, P.sub(x, x3)), y))
    return FE('F', a), FE('F', b), p1, p2, p3

def rep(st, pt, kind, n):
    E = lambda p: FE('F', p)
    if kind == 'A':
        return aff(E(pt[0]), E(pt[1])) if pt else aff(st.fe('F', 'jx'+n), st.fe('F', 'jy'+n), True)
    z = st.fe('F', 'z'+n)
    if not pt: return prj(st.fe('F', 'jx'+n), st.fe('F', 'jy'+n), z, True)
    st.assume(SB('fz', 'F', z.p), False)
    return prj(E(P.mul(pt[0], z.p)), E(P.mul(pt[1], z.p)), z)

def check(ctx, st, r, p3, what):
    """r denotes the point p3"""
    isz(ctx, st, r, p3 is None, what)
    if p3 is None: return
    if r.tag == 'AffinePoint': z = P.const(1)
    else: z = r.f[2].p; ctx.fnonzero(st, 'F', z, what + ': z of the result')
    ctx.zero(st, 'F', P.sub(r.f[0].p, P.mul(p3[0], z)), what + ': x of the result')
    ctx.zero(st, 'F', P.sub(r.f[1].p, P.mul(p3[1], z)), what + ': y of the result')

CASES = {'eq': 'equal points', 'opp': 'opposite points', 'tor': 'a point of order two and itself', 'gen': 'different abscissae', 'z1': 'identity on the left', 'z2': 'identity on the right', 'zz': 'two identities'}
def run_ob(ctx, case, call, kinds, what, want=None):
    def run(st):
        a, b, p1, p2, p3 = setup(st, case); st.pp = (p1, p2, p3)
        I = ctx.interp(st, **curve_cfg(a, b))
        return call(I, *[rep(st, p, k, str(i)) for i, (p, k) in enumerate(zip((p1, p2), kinds))])
    for st, res in ctx.explore({'F': FieldInfo('F')}, run):
        ctx.no_panic(st, res, what)
        check(ctx, st, res[1], (want or (lambda pp: pp[2]))(st.pp), what)
    if not ctx.checks: raise Unsupported('no path')

TY = {'A': APT, 'P': PPT}
def closed(ctx):
    """the reference result is itself on the curve (the group law is closed), for both formulas"""
    for case in ('eq', 'gen'):
        def run(st):
            a, b, p1, p2, p3 = setup(st, case)
            for q in (p1, p2, p3):
                ctx.zero(st, 'F', P.sub(P.mul(q[1], q[1]), P.add(P.add(P.pw(q[0], 3), P.mul(a.p, q[0])), b.p)), 'a point of case %s is on the curve' % case)
        ctx.explore({'F': FieldInfo('F')}, run)

def obligations(crates, tier):
    obs = [Ob('lemma: chord and tangent stay on the curve', closed)]
    for k1, k2 in (('P', 'P'), ('P', 'A'), ('A', 'A')):
        for c, t in CASES.items():
            add = lambda I, u, v, k1=k1, k2=k2: I.dispatch(TY[k1], 'Add', [TY[k2]], 'add', [], [u, v])
            obs.append(Ob('%s + %s, %s' % (k1, k2, t), lambda ctx, c=c, add=add, k1=k1, k2=k2, t=t: run_ob(ctx, c, add, k1 + k2, '%s + %s, %s' % (k1, k2, t))))
    for k in 'AP':
        nm = {'A': 'AffinePoint', 'P': 'ProjectivePoint'}[k]
        for c, t in (('eq', 'ordinary point'), ('tor', 'point of order two'), ('dblz', 'identity')):
            dbl = lambda I, u, k=k: I.inherent(TY[k], 'double', [], [Ref([u], 0)])[0]
            obs.append(Ob('%s::double, %s' % (nm, t), lambda ctx, c=c, k=k, dbl=dbl, nm=nm: run_ob(ctx, c, dbl, k, nm + '::double')))
        for c, t in (('eq', 'ordinary point'), ('dblz', 'identity')):
            ng = lambda I, u, k=k: I.dispatch(TY[k], 'Neg', [], 'neg', [], [u])
            w = lambda pp: pp[0] and (pp[0][0], P.neg(pp[0][1]))
            obs.append(Ob('-%s, %s' % (nm, t), lambda ctx, c=c, k=k, ng=ng, nm=nm, w=w: run_ob(ctx, c, ng, k, '-' + nm, w)))
            if k == 'P':
                ng2 = lambda I, u: I.inherent(PPT, 'neg', [], [Ref([u], 0)])[0]
                obs.append(Ob('ProjectivePoint::neg, %s' % t, lambda ctx, c=c, ng2=ng2, w=w: run_ob(ctx, c, ng2, 'P', 'ProjectivePoint::neg', w)))
    def slices(ctx):
        # add_slices is elementwise addition, for every pair of lists up to length 3 over uninterpreted points
        for n in range(4):
            def run(st):
                pl = Opaque
                over = {'Add::add': lambda I, T, a: tup('+', m.dr(a[0]), m.dr(a[1]))}
                I = ctx.interp(st, over=over, **curve_cfg(st.fe('F', 'A'), st.fe('F', 'B')))
                us = [Opaque('u%d' % i) for i in range(n)]; vs = [Opaque('v%d' % i) for i in range(n)]
                return I.inherent(PPT, 'add_slices', [], [SliceRef(us, 0, n), SliceRef(vs, 0, n)])[0]
            for st, res in ctx.explore({'F': FieldInfo('F')}, run):
                ctx.no_panic(st, res, 'add_slices')
                ctx.concrete([(x.f[0], x.f[1].what, x.f[2].what) for x in lst(res[1])] == [('+', 'u%d' % i, 'v%d' % i) for i in range(n)], 'add_slices adds elementwise')
    obs.append(Ob('ProjectivePoint::add_slices', slices, bounded='lists up to length 3'))
    return obs
