from contracts.formal import *
import itertools
FUNCTIONS = ['affine_summation_best', 'affine_multisummation_best', 'affine_multisummation_pairwise', 'affine_summation_pairwise', 'affine_summation_batch_inversion', 'affine_multisummation_batch_inversion', 'Sum<AffinePoint> for ProjectivePoint', 'Sum for ProjectivePoint']
EXPLAIN = ('pairwise, best and the Sum impls: interpreted over formal points (a free module), so the result is an identity for all points. batch inversion: points have indeterminate coordinates; every pattern of '
           '(identity, opposite, equal, distinct) pairs is enumerated, each pair sum is compared with the chord-tangent formulas and the recursive call with its contract.')
ASSUMPTIONS = ['group operations meet their contracts (C07, C08)', 'batch_multiplicative_inverse meets its contract (C02)', 'distinct abscissae unless equal or opposite: points are on the curve', 'termination of the halving recursion is not proved (replayed)']
CS = 'curve-curve_summations-'
def fn(I, name, args): return I.call_path(('p', [(x, [CURVE] if i == 2 else []) for i, x in enumerate(('curve', 'curve_summations', name))]), {}, args, None)

def formal_ob(ctx, name, shapes, multi):
    for shape in shapes:
        def run(st):
            over = drop(group_over(), CS + name)
            if name == 'affine_multisummation_best': pass
            I = ctx.interp(st, over=over, **curve_cfg(Opaque('A'), Opaque('B')))
            k = 0; ls = []
            for n in shape:
                ls.append(VecV([gbasis('P%d' % (k+i), 'A') for i in range(n)])); k += n
            st.ls = ls
            args = [VecV([VecV(list(l.l)) for l in ls])] if multi else [VecV(list(ls[0].l))]
            return own_body(I, CS + name, {'C': CURVE}, args)
        for st, res in ctx.explore({'F': FieldInfo('F')}, run):
            ctx.no_panic(st, res, name)
            out = lst(res[1]) if multi else [res[1]]
            ctx.concrete(len(out) == len(shape), '%s: one sum per list' % name, {'shape': list(shape)})
            for l, r in zip(st.ls, out):
                w = GPt({})
                for x in l.l: w = gadd(w, x)
                ctx.concrete(geq(pt(r), w), '%s on lists of lengths %s' % (name, list(shape)), {'lengths': list(shape), 'got': repr(pt(r)), 'want': repr(w)})

def sum_impl(ctx):
    for kind in 'AP':
        for n in range(6):
            def run(st):
                I = ctx.interp(st, over=drop(group_over(), 'Sum::sum'), **curve_cfg(Opaque('A'), Opaque('B')))
                l = [gbasis('P%d' % i, kind) for i in range(n)]
                T = APT if kind == 'A' else PPT
                return I.dispatch(PPT, 'Sum', [T] if kind == 'A' else [], 'sum', [('adt', 'Iter', [])], [ItV(m.ListIt(l))])
            for st, res in ctx.explore({'F': FieldInfo('F')}, run):
                ctx.no_panic(st, res, 'sum'); r = pt(res[1])
                ctx.concrete(r.d == {'P%d' % i: P.const(1) for i in range(n)}, 'sum of %d points' % n, {'n': n, 'got': repr(r)})

CASES = ('z1', 'z2', 'opp', 'eq', 'gen')
def pair(st, c, n):
    """two points and the expected sum (coordinates or None for the identity); a is the curve coefficient"""
    x, y = st.fe('F', 'x'+n).p, st.fe('F', 'y'+n).p
    E = lambda p: FE('F', p); fs = st.fs('F')
    if c == 'z1':
        x2, y2 = st.fe('F', 'u'+n).p, st.fe('F', 'v'+n).p
        return aff(E(x), E(y), True), aff(E(x2), E(y2)), (x2, y2)
    if c == 'z2':
        x2, y2 = st.fe('F', 'u'+n).p, st.fe('F', 'v'+n).p
        return aff(E(x2), E(y2)), aff(E(x), E(y), True), (x2, y2)
    if c == 'zz': return aff(E(x), E(y), True), aff(E(x), E(y), True), None
    if c == 'tor': return aff(E(x), E({})), aff(E(x), E({})), None
    if c == 'opp':
        st.assume(SB('fz', 'F', y), False)
        return aff(E(x), E(y)), aff(E(x), E(P.neg(y))), None
    if c == 'eq':
        st.assume(SB('fz', 'F', y), False)
        l = P.mul(P.add(P.scale(P.mul(x, x), 3), st.a.p), fs.inverse(P.scale(y, 2)))
        x3 = fs.norm(P.sub(P.mul(l, l), P.scale(x, 2)))
        return aff(E(x), E(y)), aff(E(x), E(y)), (x3, P.sub(P.mul(l, P.sub(x, x3)), y))
    x2, y2 = st.fe('F', 'u'+n).p, st.fe('F', 'v'+n).p
    st.assume(SB('fz', 'F', P.sub(x, x2)), False)
    l = P.mul(P.sub(y, y2), fs.inverse(P.sub(x, x2)))
    x3 = fs.norm(P.sub(P.sub(P.mul(l, l), x), x2))
    return aff(E(x), E(y)), aff(E(x2), E(y2)), (x3, P.sub(P.mul(l, P.sub(x, x3)), y))

def binv(I, T, a):
    out = []
    for v in lst(a[0]):
        v = m.dr(v)
        if I.st.fs('F').status(v.p) != 'nonzero':
            if I.st.decide(I.st.fz('F', v.p)): raise Panic('No inverse')
        out.append(FE('F', I.st.fs('F').inverse(v.p)))
    return VecV(out)

def batch_ob(ctx, shape, cases):
    """shape: list lengths; cases: one case per pair"""
    def run(st):
        st.a = st.fe('F', 'A'); st.want = []; st.tails = []; st.got = None
        ls = []; ci = iter(cases); k = 0
        for n in shape:
            l = []; w = []
            for j in range(n // 2):
                p, q, r = pair(st, next(ci), str(k)); k += 1; l += [p, q]; w.append(r)
            if n % 2:
                x, y = st.fe('F', 't%d' % k), st.fe('F', 's%d' % k); k += 1
                l.append(aff(x, y)); w.append((x.p, y.p))
            ls.append(VecV(l)); st.want.append(w)
        def best(I, T, a):
            st.got = [list(lst(x)) for x in lst(a[0])]
            return VecV([A('ProjectivePoint', None, [Opaque('sum', i)] * 4) for i in range(len(st.got))])
        I = ctx.interp(st, over={'Field::batch_multiplicative_inverse': binv, CS + 'affine_multisummation_best': best, CS + 'affine_multisummation_pairwise': best,
                                 'AffinePoint::nonzero': lambda I, T, x: aff(x[0], x[1])}, **curve_cfg(st.a, Opaque('B')))
        return own_body(I, CS + 'affine_multisummation_batch_inversion', {'C': CURVE}, [VecV(ls)])
    for st, res in ctx.explore({'F': FieldInfo('F')}, run):
        ctx.no_panic(st, res, 'affine_multisummation_batch_inversion')
        if st.got is None: raise Unsupported('no recursive call')
        ctx.concrete(len(st.got) == len(shape) and [x.f[0].d for x in lst(res[1])] == list(range(len(shape))), 'one sum per list, in order', {'shape': list(shape)})
        for w, g in zip(st.want, st.got):
            g = [x for x in g]
            if len(g) != len(w): raise Unsupported('another reduction')
            for r, x in zip(w, g):
                z = x.f[2]
                z = st.decide(z) if isinstance(z, SB) else z
                ctx.concrete(z == (r is None), 'identity flag of a pair sum', {'shape': list(shape), 'cases': list(cases)})
                if r is None: continue
                ctx.zero(st, 'F', P.sub(x.f[0].p, r[0]), 'x of a pair sum (%s)' % (cases,)); ctx.zero(st, 'F', P.sub(x.f[1].p, r[1]), 'y of a pair sum (%s)' % (cases,))

def obligations(crates, tier):
    N = 9 if tier == 'quick' else 16
    obs = [Ob('affine_summation_pairwise', lambda ctx: formal_ob(ctx, 'affine_summation_pairwise', [(n,) for n in range(N)], False), bounded='list lengths below %d' % N),
           Ob('affine_summation_best', lambda ctx: formal_ob(ctx, 'affine_summation_best', [(n,) for n in range(N)], False), bounded='list lengths below %d' % N),
           Ob('affine_summation_batch_inversion', lambda ctx: formal_ob(ctx, 'affine_summation_batch_inversion', [(n,) for n in range(N)], False), bounded='list lengths below %d' % N),
           Ob('affine_multisummation_pairwise', lambda ctx: formal_ob(ctx, 'affine_multisummation_pairwise', [(), (0,), (1, 0), (3, 2), (2, 0, 5), (1, 1, 1, 4)], True), bounded='six shapes'),
           Ob('affine_multisummation_best', lambda ctx: formal_ob(ctx, 'affine_multisummation_best', [(), (0,), (1, 0), (3, 2), (2, 0, 5), (139, 1), (140, 3), (71, 70), (200,)], True), bounded='nine shapes on both sides of the threshold'),
           Ob('Sum impls', sum_impl, bounded='lengths below 6')]
    ALL = CASES + ('zz', 'tor')
    for c in ALL: obs.append(Ob('batch inversion, one pair: %s' % c, lambda ctx, c=c: [batch_ob(ctx, s, (c,)) for s in ((2,), (3,))]))
    for c in itertools.product(CASES, repeat=2):
        obs.append(Ob('batch inversion, two pairs: %s' % (c,), lambda ctx, c=c: [batch_ob(ctx, s, c) for s in ((4,), (5,), (2, 2), (3, 2), (0, 3, 1, 2))]))
    obs.append(Ob('batch inversion, no pair', lambda ctx: [batch_ob(ctx, s, ()) for s in ((), (0,), (1,), (1, 0), (0, 1, 1))]))
    if tier != 'quick':
        for c in itertools.product(CASES, repeat=3):
            obs.append(Ob('batch inversion, three pairs: %s' % (c,), lambda ctx, c=c: [batch_ob(ctx, s, c) for s in ((6,), (7,), (3, 5))]))
    for o in obs[6:]: o.bounded = 'up to %d pairs' % (2 if tier == 'quick' else 3)
    return obs
