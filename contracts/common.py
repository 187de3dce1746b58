"""Shared pieces of the contracts: the six fields, symbolic limbs, call-site contracts of the limb helpers."""
from engine.verify import Ob, Refuted, Undischarged
from engine.values import *
from engine.state import FieldInfo
from engine import poly as P, models as m

FIELDS = {
    'TweedledeeBase': ('field::tweedledee_base::TweedledeeBase', 4, 0x40000000000000000000000000000000038aa127696286c9842cafd400000001),
    'TweedledumBase': ('field::tweedledum_base::TweedledumBase', 4, 0x40000000000000000000000000000000038aa1276c3f59b9a14064e200000001),
    'PallasBase': ('field::pallas_base::PallasBase', 4, 0x40000000000000000000000000000000224698fc094cf91b992d30ed00000001),
    'VestaBase': ('field::vesta_base::VestaBase', 4, 0x40000000000000000000000000000000224698fc0994a8dd8c46eb2100000001),
    'Bls12377Scalar': ('field::bls12_377_scalar::Bls12377Scalar', 4, 0x12ab655e9a2ca55660b44d1e5c37b00159aa76fed00000010a11800000000001),
    'Bls12377Base': ('field::bls12_377_base::Bls12377Base', 6, 0x1ae3a4617c510eac63b05c06ca1493b1a22d9f300f5138f1ef3622fba094800170b5d44300000008508c00000000001),
}
def fty(name): return ('adt', FIELDS[name][0], [])

def val(l, w=64):
    r = {}
    for i, x in enumerate(l): r = P.add(r, P.scale(m.ip(x), 1 << (w*i)))
    return r
def ival_of(l, w=64): return sum(int(x) << (w*i) for i, x in enumerate(l))
def limbs(st, name, n):
    return [st.int_atom('%s%d' % (name, i), 0, 2**64-1) for i in range(n)]
def lst(v):
    x = m.items(v)
    if x is None: raise Unsupported('expected a list, got %r' % (v,))
    return x

def c_cmp(I, targs, args):
    """contract of bigint_arithmetic::cmp: the ordering of the two integers"""
    d = P.sub(val(lst(args[0])), val(lst(args[1])))
    if P.isconst(d):
        x = P.cval(d); return ordering((x > 0) - (x < 0))
    if I.st.decide(m.ige(I.st, m.mk(d), 0)):
        return ordering(1) if not I.st.decide(m.ieq(I.st, m.mk(d), 0)) else ordering(0)
    return ordering(-1)
LIMB_CONTRACTS = {'bigint-bigint_arithmetic-cmp': c_cmp}

def pin(st, p):
    """substitute the integer atoms that the path forces to one value"""
    p = st.expand(p)
    for rel, q in st.cons:
        if rel == 'eq0':
            q2 = st.expand(q)
            ats = P.atoms(q2)
            if len(ats) == 1 and P.degree_in(q2, next(iter(ats))) == 1:
                a = next(iter(ats)); cs = P.coeffs_in(q2, a)
                c, k = P.cval(cs[1]), P.cval(cs.get(0, {}))
                if k % c == 0: p = P.subst(p, a, P.const(-k // c))
    return st.resolve(p)

def congruent(ctx, st, a, b, p, what):
    """a == b modulo p, coefficientwise after definitions are expanded"""
    ctx.checks += 1
    d = pin(st, P.sub(a, b))
    bad = {k: c for k, c in d.items() if c % p}
    if bad: raise Undischarged('%s: %d terms of the difference are not multiples of the order' % (what, len(bad)))

def symelem(st, I, name, fname):
    """a symbolic canonical element: limbs with 0 <= value < p"""
    path, n, p = FIELDS[fname]
    l = limbs(st, name, n)
    st.add_con('ge0', P.sub(P.const(p-1), val(l)))
    return A(fname, None, [Arr(l)])

# ------------------------------------------------------------------ abstract field / curve
def absfield(crates, consts=None, p=None):
    return {'F': FieldInfo('F', p, consts or {})}
F = ('absfield', 'F')

def own_body(I, key, env, args):
    for c in I.crates:
        if key in c.files: return I.run(c, c.body(key), env, args)
    raise Unsupported('lost anchor: no body ' + key)
def trait_default(I, trait, name, T, args, env=None):
    """the default body of a trait method, with Self = T"""
    for c in I.crates:
        k = c.trait_keys.get(trait, {}).get(name)
        if k:
            g = c.generics(k); e = dict(zip(g, [T])); e['Self'] = T; e.update(env or {})
            return I.run(c, c.body(k), e, args)
    raise Unsupported('lost anchor: no default body %s::%s' % (trait, name))

# ------------------------------------------------------------------ abstract curve
CURVE = ('abscurve', 'C')
SF = ('absfield', 'S')
APT = ('adt', 'curve::curve::AffinePoint', [CURVE]); PPT = ('adt', 'curve::curve::ProjectivePoint', [CURVE])
def aff(x, y, zero=False): return A('AffinePoint', None, [x, y, zero], (CURVE,))
def prj(x, y, z, zero=False): return A('ProjectivePoint', None, [x, y, z, zero], (CURVE,))
def curve_cfg(a, b, **kw):
    cfg = dict(assoc={('C', 'BaseField'): F, ('C', 'ScalarField'): SF}, consts={('C', 'A'): a, ('C', 'B'): b})
    cfg['consts'].update(kw.pop('consts', {})); cfg.update(kw)
    return cfg
def need_true(ctx, st, b, what):
    """b must be decided true on this path"""
    ctx.true(st, b, what)
def isz(ctx, st, v, want, what):
    """the zero flag of a point equals want (a bool)"""
    z = v.f[-1]
    if isinstance(z, SB): z = st.decide(z)
    ctx.concrete(z == want, what + (': result is not the identity' if want else ': result is the identity'), {})
