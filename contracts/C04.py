from contracts.common import *
FUNCTIONS = ['constants ORDER, ORDER_X2, R, R2, R3, MU, BITS, BYTES, ZERO..FIVE, NEG_ONE, MULTIPLICATIVE_SUBGROUP_GENERATOR, ALPHA, TWO_ADICITY, T of the six fields', 'Field::primitive_root_of_unity', 'Curve constants A, B, GENERATOR_AFFINE, GENERATOR_PROJECTIVE of the five curves', 'HaloCurve::{ZETA, ZETA_SCALAR}', 'Curve::is_safe_curve']
EXPLAIN = 'The constant bodies are interpreted (the compiler\'s own MIR of each constant) and the values are checked against independent integer arithmetic: primality, primitive generator (using the factorisation of p-1 up to the declared two-adic part and small factors), group order by scalar multiplication of the generator, endomorphism eigenvalue.'
CURVES = {
    'Tweedledee': ('curve::tweedledee_curve::Tweedledee', 'TweedledeeBase', 'TweedledumBase', True),
    'Tweedledum': ('curve::tweedledum_curve::Tweedledum', 'TweedledumBase', 'TweedledeeBase', True),
    'Pallas': ('curve::pallas_curve::Pallas', 'PallasBase', 'VestaBase', True),
    'Vesta': ('curve::vesta_curve::Vesta', 'VestaBase', 'PallasBase', True),
    'Bls12377': ('curve::bls12_377_curve::Bls12377', 'Bls12377Base', 'Bls12377Scalar', False),
}
def cty(n): return ('adt', CURVES[n][0], [])

def mont(v, f):
    """integer denoted by a concrete element"""
    path, n, p = FIELDS[f]; x = ival_of(v.f[0].l)
    return x * pow(pow(2, 64*n, p), -1, p) % p

def ecadd(P1, P2, a, p):
    if P1 is None: return P2
    if P2 is None: return P1
    (x1, y1), (x2, y2) = P1, P2
    if x1 == x2:
        if (y1 + y2) % p == 0: return None
        l = (3*x1*x1 + a) * pow(2*y1, -1, p) % p
    else: l = (y2 - y1) * pow(x2 - x1, -1, p) % p
    x = (l*l - x1 - x2) % p
    return x, (l*(x1 - x) - y1) % p
def ecmul(k, Q, a, p):
    R = None
    while k:
        if k & 1: R = ecadd(R, Q, a, p)
        Q = ecadd(Q, Q, a, p); k >>= 1
    return R

def consts(ctx, f, fn):
    (st, res), = ctx.explore({}, fn)
    ctx.no_panic(st, res, f)
    return res[1]

def field_ob(ctx, f):
    from sympy import isprime, factorint
    path, n, p = FIELDS[f]; T = fty(f); R = 1 << (64*n)
    def run(st):
        I = ctx.interp(st); d = {}
        for k in ('BITS', 'BYTES', 'TWO_ADICITY'): d[k] = I.trait_const('Field', k, [T])
        for k in ('MULTIPLICATIVE_SUBGROUP_GENERATOR', 'ALPHA', 'T', 'ONE', 'NEG_ONE', 'ZERO', 'TWO', 'THREE', 'FOUR', 'FIVE'):
            d[k] = mont(I.trait_const('Field', k, [T]), f); d['raw' + k] = ival_of(I.trait_const('Field', k, [T]).f[0].l)
        for k in ('ORDER', 'ORDER_X2', 'R', 'R2', 'R3', 'MU'):
            for get in (lambda: I.trait_const('MontyRepr', k, [T]), lambda: I.const_by_path(path.rsplit('::', 1)[0] + '::<impl ' + path + '>::' + k, [])):
                try: v = get()
                except Unsupported: continue
                d[k] = v if isinstance(v, int) else ival_of(v.l); break
            else:
                for im in I.c.inherent.get(f, []):
                    b = I.c.body(im.key + '-' + k) if k in im.items else None
                    if b is not None:
                        v = I.run(I.c, b, {}, []); d[k] = v if isinstance(v, int) else ival_of(v.l)
        return d
    d = consts(ctx, f, run)
    def c(cond, what): ctx.concrete(bool(cond), '%s: %s' % (f, what), {k: (hex(v) if isinstance(v, int) else v) for k, v in d.items()})
    if 'ORDER' not in d: raise Unsupported('lost anchor: ORDER')
    q = d['ORDER']
    c(isprime(q), 'order is prime'); c(q == p, 'order is the published one')
    if 'ORDER_X2' in d: c(d['ORDER_X2'] == 2*q, 'ORDER_X2')
    if 'R' in d: c(d['R'] == R % q, 'R')
    if 'R2' in d: c(d['R2'] == R*R % q, 'R2')
    if 'R3' in d: c(d['R3'] == R*R*R % q, 'R3')
    if 'MU' in d: c(d['MU'] * q % 2**64 == 2**64 - 1, 'MU')
    c(d['BITS'] == q.bit_length(), 'BITS'); c(d['BYTES'] == 8*n, 'BYTES')
    for k, w in (('ZERO', 0), ('ONE', 1), ('TWO', 2), ('THREE', 3), ('FOUR', 4), ('FIVE', 5), ('NEG_ONE', q-1)): c(d[k] == w and d['raw' + k] < q, k)
    s = d['TWO_ADICITY']
    c((q-1) % (1 << s) == 0 and (q-1 >> s) & 1, 'TWO_ADICITY'); c(d['T'] == (q-1) >> s, 'T = (p-1)/2^TWO_ADICITY')
    g = d['MULTIPLICATIVE_SUBGROUP_GENERATOR']
    c(pow(g, (q-1)//2, q) == q-1, 'generator is a non-residue')
    fs = factorint(q-1, limit=2**16)
    for r in fs:
        if isprime(r): c(pow(g, (q-1)//r, q) != 1, 'generator to the (p-1)/%d is not one' % r)
    import math
    c(math.gcd(d['ALPHA'], q-1) == 1 and d['ALPHA'] > 1, 'x^ALPHA is a permutation')
    c(all(math.gcd(k, q-1) != 1 for k in range(2, d['ALPHA'])), 'ALPHA is the smallest permutation exponent')

def root_ob(ctx, f):
    """primitive_root_of_unity(k) has order exactly 2^k, for every k up to the two-adicity"""
    path, n, p = FIELDS[f]; T = fty(f)
    def run(st):
        I = ctx.interp(st)
        S = I.trait_const('Field', 'TWO_ADICITY', [T]); g = mont(I.trait_const('Field', 'MULTIPLICATIVE_SUBGROUP_GENERATOR', [T]), f); t = mont(I.trait_const('Field', 'T', [T]), f)
        st.finfo['F'].consts.update({'TWO_ADICITY': S, 'MULTIPLICATIVE_SUBGROUP_GENERATOR': st.fconst('F', g), 'T': st.fconst('F', t)})
        out = []
        J = ctx.interp(st, consts={('F', 'TWO_ADICITY'): S})
        for k in range(S+1):
            r = trait_default(J, 'Field', 'primitive_root_of_unity', F, [k]); out.append(m.fconstval(J, r))
        return out
    (st, res), = ctx.explore({'F': FieldInfo('F', p, {})}, run)
    ctx.no_panic(st, res, 'primitive_root_of_unity')
    for k, r in enumerate(res[1]):
        ctx.concrete(pow(r, 1 << k, p) == 1 and (k == 0 or pow(r, 1 << (k-1), p) == p-1), '%s root of order 2^%d' % (f, k), {'k': k, 'root': hex(r)})
        if k: ctx.concrete(res[1][k-1] == r*r % p, '%s roots of consecutive orders are compatible' % f, {'k': k})

def curve_ob(ctx, cn):
    path, bf, sf, halo = CURVES[cn]; p = FIELDS[bf][2]; q = FIELDS[sf][2]; T = cty(cn)
    def run(st):
        I = ctx.interp(st); d = {}
        for k in ('A', 'B'): d[k] = mont(I.trait_const('Curve', k, [T]), bf)
        g = I.trait_const('Curve', 'GENERATOR_AFFINE', [T]); d['gx'], d['gy'], d['gz'] = mont(g.f[0], bf), mont(g.f[1], bf), bool(g.f[2])
        d['raw'] = [ival_of(g.f[i].f[0].l) for i in range(2)]
        pr = I.trait_const('Curve', 'GENERATOR_PROJECTIVE', [T]); d['proj'] = [mont(pr.f[i], bf) for i in range(3)] + [bool(pr.f[3])]
        if halo:
            d['ZETA'] = mont(I.trait_const('HaloCurve', 'ZETA', [T]), bf); d['ZS'] = mont(I.trait_const('HaloCurve', 'ZETA_SCALAR', [T]), sf)
        return d
    d = consts(ctx, cn, run)
    def c(cond, what): ctx.concrete(bool(cond), '%s: %s' % (cn, what), {k: str(v) for k, v in d.items()})
    g = (d['gx'], d['gy'])
    c(not d['gz'], 'generator is not the identity'); c((g[1]**2 - g[0]**3 - d['A']*g[0] - d['B']) % p == 0, 'generator is on the curve')
    c(all(r < p for r in d['raw']), 'generator coordinates are canonical')
    c((4*d['A']**3 + 27*d['B']**2) % p != 0, 'nonsingular')
    c(ecmul(q, g, d['A'], p) is None, 'generator has the order of the scalar field')
    c(d['proj'] == [g[0], g[1], 1, False], 'projective generator')
    if halo:
        z, s = d['ZETA'], d['ZS']
        c(z != 1 and pow(z, 3, p) == 1, 'ZETA has order three'); c(s != 1 and pow(s, 3, q) == 1, 'ZETA_SCALAR has order three')
        c(ecmul(s, g, d['A'], p) == (z*g[0] % p, g[1]), 'ZETA_SCALAR * G = (ZETA x, y)'); c(d['A'] == 0, 'j-invariant zero')

def safe_ob(ctx):
    """is_safe_curve is the discriminant test"""
    from engine.state import FieldInfo
    def run(st):
        a, b = st.fe('F', 'A'), st.fe('F', 'B'); st.ab = a, b
        I = ctx.interp(st, consts={('C', 'A'): a, ('C', 'B'): b}, assoc={('C', 'BaseField'): F, ('C', 'ScalarField'): ('absfield', 'S')})
        return st.decide(trait_default(I, 'Curve', 'is_safe_curve', ('abscurve', 'C'), []))
    for st, res in ctx.explore({'F': FieldInfo('F'), 'S': FieldInfo('S')}, run):
        ctx.no_panic(st, res, 'is_safe_curve'); a, b = st.ab
        d = P.add(P.scale(P.pw(a.p, 3), 4), P.scale(P.pw(b.p, 2), 27)); f = st.fs('F')
        if res[1]: ctx.fnonzero(st, 'F', d, 'discriminant')
        else: ctx.zero(st, 'F', d, 'discriminant')

def obligations(crates, tier):
    obs = [Ob('%s constants' % f, lambda ctx, f=f: field_ob(ctx, f)) for f in FIELDS]
    obs += [Ob('%s::primitive_root_of_unity' % f, lambda ctx, f=f: root_ob(ctx, f)) for f in FIELDS]
    obs += [Ob('%s constants' % c, lambda ctx, c=c: curve_ob(ctx, c)) for c in CURVES]
    obs.append(Ob('Curve::is_safe_curve', safe_ob))
    return obs
