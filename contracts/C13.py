from contracts.polys import *
from engine.state import FieldInfo
FUNCTIONS = ['Polynomial::{eval, eval_from_power, add, neg, scalar_mul, mul, trim, pad, padded, degree, degree_plus_one, lead, rev, is_zero, eq, inv_mod_xn, polynomial_long_division, polynomial_division, eval_domain, from_evaluations}',
             'plonk_util::{eval_poly, eval_polys, scale_polynomials, polynomial_degree_plus_1, pad_to_8n, values_to_polynomials, polynomials_to_values_padded}']
EXPLAIN = ('Every operation runs on coefficient lists of indeterminates, for every length up to the bound and every pattern of trailing zeros; paths split on which coefficients are zero, so all polynomials of those lengths over every field are covered. '
           'Results are compared with the schoolbook algebra coefficient by coefficient (division: a = b q + r as an identity of rational functions and deg r < deg b on every path).')
ASSUMPTIONS = ['field operations meet their contracts (C01, C02)', 'the transforms called by mul, eval_domain and from_evaluations are interpreted from source with a symbolic root (C12); divisions use the contract of mul, itself an obligation here',
               'lists longer than the stated bound are not covered by an obligation (the replay contracts run longer ones)']
LEVEL = 'other'
FI = lambda: {'F': FieldInfo('F')}
B = 'lengths up to 8'

def meth(I, name, *args): return I.inherent(POLY, name, [], list(args))[0]
def ref(p): return Ref([p], 0)
def mkp(st, name, n, z): return coefs(st, name, n) + [st.fconst('F', 0) for _ in range(z)]
def samepoly(ctx, st, got, want, what):
    g = [x.p for x in pl(got)] if isinstance(got, A) or isinstance(got, Ref) else [x.p for x in got]; w = list(want)
    for i in range(max(len(g), len(w))):
        ctx.zero(st, 'F', P.sub(g[i] if i < len(g) else {}, w[i] if i < len(w) else {}), '%s: coefficient %d' % (what, i))
def shapes(top): return [(n, z) for n in range(0, top+1) for z in (0, 1, 2) if n + z <= top + 1]
def lead(st, l):
    """index + 1 of the leading nonzero coefficient on this path (decides)"""
    for i in reversed(range(len(l))):
        r = st.fz('F', l[i].p)
        if not (r if isinstance(r, bool) else st.decide(r)): return i + 1
    return 0

def binary_ob(ctx, fn, want, top):
    for n1, z1 in shapes(top):
        for n2, z2 in shapes(top):
            if (z1 or z2) and n1 + n2 > top + 2: continue
            def run(st):
                st.a, st.b = mkp(st, 'a', n1, z1), mkp(st, 'b', n2, z2)
                return meth(ctx.interp(st), fn, ref(poly(st.a)), ref(poly(st.b)))
            for st, res in ctx.explore(FI(), run):
                w = '%s of lengths %d+%d, %d+%d' % (fn, n1, z1, n2, z2)
                ctx.no_panic(st, res, w); samepoly(ctx, st, res[1], want(st.a, st.b), w)

def padd(a, b): return [P.add(a[i].p if i < len(a) else {}, b[i].p if i < len(b) else {}) for i in range(max(len(a), len(b)))]

def mul_ob(ctx, pairs):
    for n1, z1, n2, z2 in pairs:
        k = (max(1, n1 + n2 - 1) - 1).bit_length()
        def run(st):
            setup, over = roots(k); setup(st)
            base = dict(over)
            # lower products can need smaller domains: the same root serves all of them
            st.a, st.b = mkp(st, 'a', n1, z1), mkp(st, 'b', n2, z2)
            return meth(ctx.interp(st, over=base), 'mul', ref(poly(st.a)), ref(poly(st.b)))
        for st, res in ctx.explore(FI(), run):
            w = 'mul of lengths %d+%d, %d+%d' % (n1, z1, n2, z2)
            ctx.no_panic(st, res, w); samepoly(ctx, st, [FE('F', st.fs('F').norm(x.p)) for x in pl(res[1])], conv(st.a, st.b), w)

def unary_ob(ctx, top):
    for n, z in shapes(top):
        l0 = n + z
        w = 'length %d+%d' % (n, z)
        def each(name, args, chk, f=None):
            def run(st):
                st.a = mkp(st, 'a', n, z); st.c = st.fe('F', 'c'); st.x = st.fe('F', 'x')
                I = ctx.interp(st); p = [poly(st.a)]; st.pp = p
                st.lead = lead(st, st.a)
                return (f or (lambda I, *aa: meth(I, name, *aa)))(I, Ref(p, 0), *args(st))
            for st, res in ctx.explore(FI(), run): chk(st, res, name + ' at ' + w)
        def ev(st, res, what):
            ctx.no_panic(st, res, what); e = {}
            for i, c in enumerate(st.a): e = P.add(e, P.mul(c.p, P.pw(st.x.p, i) if i else P.const(1)))
            ctx.zero(st, 'F', P.sub(res[1].p, e), what)
        each('eval', lambda st: [st.x], ev)
        each('eval_from_power', lambda st: [sl([FE('F', P.pw(st.x.p, i) if i else P.const(1)) for i in range(l0)])], ev)
        each('eval_poly', lambda st: [st.x], ev, lambda I, r, x: own_body(I, 'plonk_util-eval_poly', {'F': F}, [sl(pl(r)), x]))
        def neg(st, res, what): ctx.no_panic(st, res, what); samepoly(ctx, st, res[1], [P.neg(c.p) for c in st.a], what)
        each('neg', lambda st: [], neg)
        def sc(st, res, what): ctx.no_panic(st, res, what); samepoly(ctx, st, res[1], [P.mul(st.c.p, c.p) for c in st.a], what)
        each('scalar_mul', lambda st: [st.c], sc)
        def deg(st, res, what):
            if st_lead(st) == 0: ctx.concrete(res[0] == 'panic', what + ': degree of zero')
            else: ctx.no_panic(st, res, what); ctx.concrete(res[1] == st_lead(st) - 1, what + ': degree', {'got': str(res[1]), 'leading index': str(st_lead(st) - 1)})
        def st_lead(st): return st.lead
        each('degree', lambda st: [], deg)
        def deg1(st, res, what): ctx.no_panic(st, res, what); ctx.concrete(res[1] == st_lead(st), what, {'got': str(res[1])})
        each('degree_plus_one', lambda st: [], deg1)
        def isz_(st, res, what): ctx.no_panic(st, res, what); r = res[1]; ctx.concrete((r if isinstance(r, bool) else st.decide(r)) == (st_lead(st) == 0), what)
        each('is_zero', lambda st: [], isz_)
        def ld(st, res, what): ctx.no_panic(st, res, what); k = st_lead(st); ctx.zero(st, 'F', P.sub(res[1].p, st.a[k-1].p if k else {}), what)
        each('lead', lambda st: [], ld)
        def rev(st, res, what):
            k = st_lead(st)
            if not k: return
            ctx.no_panic(st, res, what); g = pl(res[1])
            ctx.concrete(len(g) == k, what + ': length')
            for i in range(k): ctx.zero(st, 'F', P.sub(g[i].p, st.a[k-1-i].p), what)
        each('rev', lambda st: [], rev)
        def trim(st, res, what):
            ctx.no_panic(st, res, what); ctx.concrete(len(pl(st.pp[0])) == st_lead(st), what + ': length'); samepoly(ctx, st, st.pp[0], [c.p for c in st.a], what)
        each('trim', lambda st: [], trim)
        for m_ in (0, 1, l0, l0 + 3):
            def pad(st, res, what, m_=m_):
                k = st_lead(st)
                if k > m_: return ctx.concrete(res[0] == 'panic', what + ': does not fit')
                ctx.no_panic(st, res, what); g = res[1] if isinstance(res[1], A) and res[1].tag == 'Polynomial' else st.pp[0]
                ctx.concrete(len(pl(g)) == m_, what + ': length'); samepoly(ctx, st, g, [c.p for c in st.a], what)
            each('pad', lambda st, m_=m_: [m_], pad); each('padded', lambda st, m_=m_: [m_], pad)

def eq_ob(ctx, top):
    for n1 in range(top+1):
        for n2 in range(top+1):
            def run(st):
                st.a, st.b = coefs(st, 'a', n1), coefs(st, 'b', n2)
                I = ctx.interp(st)
                r = I.dispatch(POLY, 'PartialEq', [POLY], 'eq', [], [ref(poly(st.a)), ref(poly(st.b))])
                return r if isinstance(r, bool) else st.decide(r)
            for st, res in ctx.explore(FI(), run):
                w = '== of lengths %d, %d' % (n1, n2); ctx.no_panic(st, res, w)
                d = padd(st.a, [FE('F', P.neg(x.p)) for x in st.b])
                if res[1]:
                    for x in d: ctx.zero(st, 'F', x, w + ': equal only when the coefficients agree')
                else: ctx.concrete(any(st.fs('F').status(x) == 'nonzero' for x in d), w + ': different only when a coefficient differs')

def mul_contract(I, T, a):
    """postcondition of mul: the product; its length is a power of two (one when a factor is zero)"""
    x, y = pl(a[0]), pl(a[1]); f = I.st.fs('F')
    r = [FE('F', f.norm(c)) for c in conv(x, y)]
    while r and f.status(r[-1].p) == 'zero': r.pop()
    return poly(r + [I.st.fconst('F', 0)] * (npow2(max(1, len(r))) - len(r)))
MULC = {'Polynomial::mul': mul_contract}

def div_ob(ctx, fn, n1, z1, n2, z2):
    def run(st):
        st.a, st.b = mkp(st, 'a', n1, z1), mkp(st, 'b', n2, z2)
        st.kb = lead(st, st.b)
        I = ctx.interp(st, over=dict(MULC))
        return meth(I, fn, ref(poly(st.a)), ref(poly(st.b)))
    for st, res in ctx.explore(FI(), run, max_paths=4000):
        w = '%s of lengths %d+%d by %d+%d' % (fn, n1, z1, n2, z2)
        kb = st.kb
        if kb == 0: ctx.concrete(res[0] == 'panic', w + ': the zero divisor is rejected'); continue
        ctx.no_panic(st, res, w)
        q, r = pl(res[1].f[0]), pl(res[1].f[1])
        prod = conv(q, st.b)
        for i in range(max(len(prod), len(r), len(st.a))):
            g = lambda l: l[i].p if i < len(l) else {}
            ctx.zero(st, 'F', P.sub(P.add(prod[i] if i < len(prod) else {}, g(r)), g(st.a)), '%s: coefficient %d of b q + r - a' % (w, i))
        for i in range(kb - 1, len(r)): ctx.zero(st, 'F', r[i].p, '%s: the remainder has degree below the divisor (coefficient %d)' % (w, i))

def inv_ob(ctx, n1, n):
    def run(st):
        st.a = coefs(st, 'a', n1); st.assume(SB('fz', 'F', st.a[0].p), False)
        return meth(ctx.interp(st, over=dict(MULC)), 'inv_mod_xn', ref(poly(st.a)), n)
    for st, res in ctx.explore(FI(), run, max_paths=4000):
        w = 'inv_mod_xn(%d) of length %d' % (n, n1); ctx.no_panic(st, res, w)
        c = conv(pl(res[1]), st.a)
        ctx.concrete(len(pl(res[1])) <= n, w + ': length')
        for i in range(n): ctx.zero(st, 'F', P.sub(c[i] if i < len(c) else {}, P.const(1) if i == 0 else {}), '%s: coefficient %d of the product' % (w, i))

def scale_ob(ctx):
    for k in range(0, 5):
        for d in range(0, 4):
            def run(st):
                st.ps = [coefs(st, 'p%d.' % j, d) for j in range(k)]; st.al = st.fe('F', 'alpha')
                return own_body(ctx.interp(st), 'plonk_util-scale_polynomials', {'F': F}, [VecV([poly(x) for x in st.ps]), st.al, d])
            for st, res in ctx.explore(FI(), run):
                w = 'scale_polynomials of %d polynomials of length %d' % (k, d); ctx.no_panic(st, res, w); want = []
                for i in range(d):
                    e = {}
                    for j in range(k): e = P.add(e, P.mul(st.ps[j][i].p, P.pw(st.al.p, j) if j else P.const(1)))
                    want.append(e)
                samepoly(ctx, st, res[1], want, w)

def domain_ob(ctx, k, n):
    from contracts.C12 import ev
    setup, over = roots(k)
    def run(st):
        setup(st); st.a = coefs(st, 'a', n); I = ctx.interp(st, over=over)
        pre = own_body(I, 'fft-fft_precompute', {'F': F}, [1 << k])
        v = meth(I, 'eval_domain', ref(poly(st.a)), Ref([pre], 0))
        return v, meth(I, 'from_evaluations', sl(lst(v)), Ref([pre], 0))
    for st, res in ctx.explore(FI(), run):
        w = 'eval_domain of length %d on 2^%d' % (n, k); ctx.no_panic(st, res, w); o = lst(res[1][0])
        ctx.concrete(len(o) == 1 << k, w + ': number of values')
        for j, x in enumerate(o): ctx.zero(st, 'F', P.sub(st.fs('F').norm(x.p), ev(st, st.a, j, k)), '%s: value %d' % (w, j))
        samepoly(ctx, st, res[1][1], [c.p for c in st.a], 'from_evaluations after ' + w)

def degp_ob(ctx, k):
    def run(st):
        st.a = coefs(st, 'a', 1 << k); st.lead = lead(st, st.a)
        I = ctx.interp(st, over={'fft-ifft_with_precomputation_power_of_2': lambda I, T, a: VecV(list(st.a))})
        return own_body(I, 'plonk_util-polynomial_degree_plus_1', {'F': F}, [sl(coefs(st, 'v', 1 << k)), Ref([Opaque('pre')], 0)])
    for st, res in ctx.explore(FI(), run):
        ctx.no_panic(st, res, 'polynomial_degree_plus_1'); ctx.concrete(res[1] == st.lead, 'polynomial_degree_plus_1', {'got': str(res[1])})

def obligations(crates, tier):
    t = tier != 'quick'; top = 4 if not t else 5
    obs = [Ob('Polynomial::add', lambda ctx: binary_ob(ctx, 'add', padd, 3), bounded='lengths up to 4'),
           Ob('unary operations', lambda ctx: unary_ob(ctx, top), bounded='lengths up to %d' % (top+1)),
           Ob('Polynomial ==', lambda ctx: eq_ob(ctx, top), bounded='lengths up to %d' % top),
           Ob('scale_polynomials', scale_ob, bounded='up to 4 polynomials of length up to 3'),
           Ob('polynomial_degree_plus_1', lambda ctx: degp_ob(ctx, 2), bounded='size 4')]
    pairs = [(n1, z1, n2, z2) for n1 in range(0, 5) for n2 in range(0, 5) for z1 in (0, 1) for z2 in (0, 2) if n1 + n2 <= 6]
    for i in range(6): obs.append(Ob('Polynomial::mul (%d)' % i, lambda ctx, i=i: mul_ob(ctx, pairs[i::6]), bounded='factors of total length up to 6', timeout=240))
    for k in range(0, 4):
        for n in range(0, (1 << k) + 1): obs.append(Ob('eval_domain, from_evaluations: length %d on 2^%d' % (n, k), lambda ctx, k=k, n=n: domain_ob(ctx, k, n), bounded='domains up to 2^3'))
    lim = 5 if not t else 6
    for fn in ('polynomial_long_division', 'polynomial_division'):
        for n1 in range(0, lim + 1):
            for n2 in range(0, 4 if not t else 5):
                for z1, z2 in ((0, 0), (1, 0), (0, 1), (2, 1)):
                    if (z1 or z2) and n1 > 3: continue
                    obs.append(Ob('%s: %d+%d by %d+%d coefficients' % (fn, n1, z1, n2, z2), lambda ctx, fn=fn, n1=n1, z1=z1, n2=n2, z2=z2: div_ob(ctx, fn, n1, z1, n2, z2), bounded='dividends up to %d, divisors up to %d coefficients' % (lim, 3 if not t else 4), timeout=200))
    for n1 in range(1, 5):
        for n in range(1, 6): obs.append(Ob('inv_mod_xn(%d) of %d coefficients' % (n, n1), lambda ctx, n1=n1, n=n: inv_ob(ctx, n1, n), bounded='n up to 5', timeout=200))
    return obs
