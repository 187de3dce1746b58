from contracts.circ import *
from contracts.C29 import bits_over
import contracts.C29 as C29
LEVEL = 'other'
NOTE = 'single gadgets: for all points; curve_mul / curve_msm: for all scalars and points, 1 to 3 parts enumerated; the endomorphism MSM is a recorded finding (it does not compute what it names)'
FUNCTIONS = ['CircuitBuilder::{constant_affine_point, copy_curve, curve_assert_valid, curve_neg, curve_add, curve_double, curve_sub, curve_mul, curve_msm}', 'CircuitBuilder::{split_binary, split_binary_and_base_4} and SplitGenerator', 'WitnessGenerator and evaluate_unfiltered of CurveAddGate, CurveDblGate (through C18, C19 for curve_msm)', 'AffinePoint::double (by contract, C07)']
EXPLAIN = ('The real gadget runs on the real builder. curve_add, curve_sub, curve_double, curve_neg, copy_curve and curve_assert_valid: all real gate constraints are assumed on indeterminate wires and the outputs proved equal to the chord and tangent formulas (soundness); the real generators must satisfy every constraint (completeness). '
           'curve_msm / curve_mul: every row is replaced by the relation proved for its gate in C18 over formal points (integer polynomials in the scalar bits times basis points); the output must be the sum of canonical scalar times point, for all 2^254 values of every scalar; the real dependencies and copies must let the generators (C19) fill every row.')
ASSUMPTIONS = ['gate constraints imply and generators satisfy their relations (C18, C19)', 'copy constraints are enforced (C21, C34)', 'the filler point is not the identity (C33) and no exceptional addition occurs (documented; unsatisfiable otherwise)', 'canonical scalars have the documented most significant bit unset', 'affine doubling is the group doubling (C07)']
sub, mul, add, scale, const = P.sub, P.mul, P.add, P.scale, P.const
F255 = lambda n=255: FLD(consts={'BITS': n})

def mkpt(I, x, y): return A('AffinePointTarget', None, [x, y], (INN,), ('x', 'y'))
def ptof(v): v = m.dr(v); return v.f[v.names.index('x')] if v.names else v.f[0], v.f[v.names.index('y')] if v.names else v.f[1]
def chord(st, x1, y1, x2, y2):
    lam = mul(sub(y1, y2), st.fs('S').inverse(sub(x1, x2))); x3 = sub(sub(mul(lam, lam), x1), x2); return x3, sub(mul(lam, sub(x1, x3)), y1)
def tangent(st, x, y):
    a = st.I.trait_const('Curve', 'A', [INN]).p; lam = mul(add(scale(mul(x, x), 3), a), st.fs('S').inverse(scale(y, 2))); x3 = sub(mul(lam, lam), scale(x, 2)); return x3, sub(mul(lam, sub(x, x3)), y)
def weier(st, x, y):
    a = st.I.trait_const('Curve', 'A', [INN]).p; b = st.I.trait_const('Curve', 'B', [INN]).p
    return sub(mul(y, y), add(add(P.pw(x, 3), mul(a, x)), b))
OPS = {'curve_add': (2, lambda st, v: chord(st, *v)), 'curve_sub': (2, lambda st, v: chord(st, v[0], v[1], v[2], P.neg(v[3]))), 'curve_double': (1, lambda st, v: tangent(st, *v)), 'curve_neg': (1, lambda st, v: (v[0], P.neg(v[1])))}
def build(ctx, st, fn, n, alias):
    I = st.I = ctx.interp(st, **circ_cfg(st)); c = Circ(ctx, st, I); st.c = c
    if alias == 'const': ps = [A('AffinePoint', None, [st.fe('S', 'kx%d' % i), st.fe('S', 'ky%d' % i), False], (INN,), ('x', 'y', 'zero')) for i in range(n)]; st.kv = [x.p for k in ps for x in k.f[:2]]; ps = [c.call('constant_affine_point', k, margs=[INN]) for k in ps]; st.ts = []
    else:
        t = c.inputs(2*n); ps = [mkpt(I, t[2*i], t[2*i+1]) for i in range(n)]; st.ts = t
    if alias == 'after': c.call('curve_double', ps[0], margs=[INN])       # other rows before the gadget
    st.in_ = [x for p in ps for x in ptof(p)]; st.o = c.call(fn, *ps, margs=[INN])
def linear_first(c):
    """assumes every constraint, the linear ones first"""
    st = c.st; f = st.fs('S'); find = c.classes(); nr = kconst(c.I, 'NUM_ROUTED_WIRES')
    def val(j, w):
        k = find(('w', j, w)) if w < nr else ('w', j, w)
        if k not in c.vals: c.vals[k] = st.fe('S', '%s%s' % (k[0], '.'.join(map(str, k[1:]))))
        return c.vals[k]
    cs = [x[3] for x in c.constraints(val)]; go = True
    while go:
        go = False; rest = []
        for p in cs:
            q = f.norm(p)
            if not q: continue
            if all(len(mo) <= 1 and all(e == 1 for _, e in mo) for mo in q): st.assume(SB('fz', 'S', q), True); go = True
            else: rest.append(p)
        cs = rest
    assume_constraints(st, cs)
def op_ob(ctx, fn, alias=''):
    n, spec = OPS[fn]; k = [0, 0]
    def nonexc(st, v):
        f = st.fs('S')
        if n == 2: f.assume_nonzero(f.norm(sub(v[0], v[2])))
        elif fn == 'curve_double' : f.assume_nonzero(v[1])
        if alias == 'after': f.assume_nonzero(v[1])
    def sound(st):
        build(ctx, st, fn, n, alias); c = st.c; c.vals = {}; c.find = c.classes(); [c.value(t) for t in st.in_]; linear_first(c)
    for st, res in ctx.explore(FLD(), sound):
        ctx.no_panic(st, res, fn); k[0] += 1; c = st.c; v = [c.value(t).p for t in st.in_]
        if n == 2: ctx.fnonzero(st, 'S', sub(v[0], v[2]), fn + ': equal x coordinates are unsatisfiable')
        if fn == 'curve_double': ctx.fnonzero(st, 'S', v[1], fn + ': y = 0 is unsatisfiable')
        for g, w, nm in zip(ptof(st.o), spec(st, v), 'xy'): ctx.zero(st, 'S', sub(c.value(g).p, w), '%s: %s coordinate is forced' % (fn, nm))
    ctx.concrete(k[0] > 0, fn + ': satisfiable')
    def comp(st):
        build(ctx, st, fn, n, alias); vals = [st.fe('S', 'v%d' % i) for i in range(len(st.ts))]
        if alias == 'const': v = st.kv
        else: v = [x.p for x in vals]
        nonexc(st, v); st.v = v; st.c.generate(list(zip(st.ts, vals)))
    for st, res in ctx.explore(FLD(), comp):
        ctx.no_panic(st, res, fn + ': witness generation'); k[1] += 1; c = st.c
        ctx.concrete(not c.left, fn + ': every generator runs', {'waiting': str([g.tag for _, g in c.left])}); c.check_complete(fn)
        for g, w, nm in zip(ptof(st.o), spec(st, st.v), 'xy'): ctx.zero(st, 'S', sub(c.gval(g).p, w), '%s: generated %s coordinate' % (fn, nm))
    ctx.concrete(k[1] > 0, fn + ': a witness is generated')
def valid_ob(ctx):
    for mode in 'sc':
        def run(st):
            I = st.I = ctx.interp(st, **circ_cfg(st)); c = st.c = Circ(ctx, st, I); t = st.t = c.inputs(2); c.call('curve_assert_valid', mkpt(I, *t), margs=[INN])
            if mode == 's': c.vals = {}; c.find = c.classes(); st.v = [c.value(x).p for x in t]; c.assume_all_keep()
            else:
                v = [st.fe('S', 'x'), st.fe('S', 'y')]; st.assume(SB('fz', 'S', weier(st, v[0].p, v[1].p)), True); c.generate(list(zip(t, v)))
        n = 0
        for st, res in ctx.explore(FLD(), run):
            ctx.no_panic(st, res, 'curve_assert_valid'); n += 1
            if mode == 's': ctx.zero(st, 'S', weier(st, *st.v), 'curve_assert_valid forces the curve equation')
            else: ctx.concrete(not st.c.left, 'curve_assert_valid: every generator runs'); st.c.check_complete('curve_assert_valid on a curve point')
        ctx.concrete(n > 0, 'curve_assert_valid: reached')
def copy_ob(ctx):
    def run(st):
        I = st.I = ctx.interp(st, **circ_cfg(st)); c = st.c = Circ(ctx, st, I); t = st.t = c.inputs(4); c.call('copy_curve', mkpt(I, *t[:2]), mkpt(I, *t[2:]), margs=[INN]); st.f = c.classes()
    for st, res in ctx.explore(FLD(), run):
        ctx.no_panic(st, res, 'copy_curve'); f = st.f; k = [tkey(t) for t in st.t]
        ctx.concrete(f(k[0]) == f(k[2]) and f(k[1]) == f(k[3]) and f(k[0]) != f(k[1]), 'copy_curve joins the x and the y coordinates'); ctx.concrete(not st.c.rows(), 'copy_curve adds no gate')
def const_ob(ctx):
    def run(st):
        I = st.I = ctx.interp(st, **circ_cfg(st)); c = st.c = Circ(ctx, st, I); z = st.zz = st.choose(2) == 1
        st.k = [st.fe('S', 'kx'), st.fe('S', 'ky')]; st.o = c.call('constant_affine_point', A('AffinePoint', None, st.k + [z], (INN,), ('x', 'y', 'zero')), margs=[INN]); c.assume_all()
    for st, res in ctx.explore(FLD(), run):
        if st.zz: ctx.concrete(res[0] == 'panic', 'constant_affine_point rejects the identity'); continue
        ctx.no_panic(st, res, 'constant_affine_point')
        for g, w in zip(ptof(st.o), st.k): ctx.zero(st, 'S', sub(st.c.value(g).p, w.p), 'constant_affine_point: coordinates')

# ------------------------------------------------------------------ multi-scalar multiplication over formal points
class Formal:
    """points as {basis: integer polynomial}; every point owns a pair of coordinate atoms"""
    def __init__(s, st): s.st = st; s.reg = {}; s.bypt = {}; s.n = 0
    def key(s, d): return tuple(sorted((b, P.key(p)) for b, p in d.items() if p))
    def coords(s, d):
        d = {b: p for b, p in d.items() if p}; k = s.key(d)
        if k in s.bypt: return s.bypt[k]
        nk = s.key({b: P.neg(p) for b, p in d.items()})
        if nk in s.bypt: x, y = s.bypt[nk]; return x, P.neg(y)
        s.n += 1; x, y = s.st.fe('S', 'X%d' % s.n).p, s.st.fe('S', 'Y%d' % s.n).p; s.bypt[k] = (x, y); s.reg[P.key(x)] = (y, d); return x, y
    def point(s, x, y):
        e = s.reg.get(P.key(x))
        if e is None: raise Refuted('a curve gate is fed with coordinates that are no point of the computation', {'x': P.show(x, s.st.aname)[:80]})
        if not sub(e[0], y): return e[1]
        if not add(e[0], y): return {b: P.neg(p) for b, p in e[1].items()}
        raise Refuted('a curve gate is fed with the x coordinate of one point and the y coordinate of another')
    def plus(s, a, b, t=None):
        r = dict(a)
        for k, p in b.items(): r[k] = add(r.get(k, {}), mul(p, t) if t is not None else p)
        return r
def msm_cfg(st, extra=None):
    F = st.F = Formal(st); H = {'H': const(1)}
    def ap(d): x, y = F.coords(d); return A('AffinePoint', None, [FE('S', x), FE('S', y), False], (INN,), ('x', 'y', 'zero'))
    def dbl(I, T, a):
        p = m.dr(a[0]); x, y = p.f[p.names.index('x')].p, p.f[p.names.index('y')].p; d = F.point(x, y); return ap({b: scale(q, 2) for b, q in d.items()})
    o = {'hash_to_curve-blake_hash_base_field_to_curve': lambda I, T, a: ap(H), 'AffinePoint::double': dbl}
    o.update(extra or {}); return o
class Missing(Exception): pass
def rows_sound(c, F, known):
    """values of all copy classes, row by row, from the gate relations"""
    st = c.st; find = c.classes(); nr = kconst(c.I, 'NUM_ROUTED_WIRES'); vals = {}; R = c.rows(); npre = {}; st.bits = []
    def key(j, w): return find(('w', j, w)) if w < nr else ('w', j, w)
    def get(j, w):
        k = key(j, w)
        if k not in vals: raise Missing()
        return vals[k]
    def put(j, w, p):
        k = key(j, w)
        if k in vals: return False
        vals[k] = p; return True
    for t, p in known: vals[find(tkey(t))] = p
    todo = list(range(len(R))); go = True; bit = {}
    gates = []
    for i in todo:
        g = c.row_gate(R[i])
        if len(g) != 1: raise Undischarged('row %d selects %r' % (i, g))
        gates.append(g[0]); npre.setdefault(g[0], len(prefix(c.I, g[0])))
    free = False
    while todo and (go or not free):
        free = not go; go = False; rest = []
        for i in todo:
            g = gates[i]; n = npre[g]; k = R[i]
            try:
                if g == 'ConstantGate': put(i, 0, st.fs('S').norm(k[n].p))
                elif g == 'ArithmeticGate': put(i, 3, st.fs('S').norm(add(mul(mul(k[n].p, get(i, 0)), get(i, 1)), mul(k[n+1].p, get(i, 2)))))
                elif g == 'CurveDblGate': d = F.point(get(i, 0), get(i, 1)); x, y = F.coords({b: scale(p, 2) for b, p in d.items()}); put(i, 2, x); put(i, 3, y)
                elif g == 'CurveAddGate':
                    if i not in bit:
                        kb = key(i, 6)
                        if kb not in vals:
                            try: vals[kb] = sub(get(i, 3), scale(get(i, 2), 2))       # the accumulator fixes the bit
                            except Missing:
                                if not free: raise
                                b = st.fe('S', 'bit%d' % i).p; vals[kb] = b; st.bits.append(next(iter(P.atoms(b)))); free = False
                        bit[i] = vals[kb]; go = True
                    try: go |= put(i, 3, add(scale(get(i, 2), 2), bit[i]))
                    except Missing: pass
                    if P.isconst(bit[i]) and P.cval(bit[i]) == 0: x, y = get(i, 0), get(i, 1)
                    else: x, y = F.coords(F.plus(F.point(get(i, 0), get(i, 1)), F.point(get(i, 4), get(i, 5)), bit[i]))
                    put(i+1, 0, x); put(i+1, 1, y); get(i, 3)
                elif g == 'BufferGate': pass
                else: raise Undischarged('unexpected %s' % g)
                go = True
            except Missing: rest.append(i)
        todo = rest
    c.vals = vals; c.find = find; return todo
def msm_build(ctx, st, k, fn, over, alias=False):
    I = st.I = ctx.interp(st, **circ_cfg(st, over=over)); c = st.c = Circ(ctx, st, I); F = st.F
    st.s = c.inputs(k); st.xy = c.inputs(2*k)
    def tgt(p): return mkpt(I, st.xy[2*p], st.xy[2*p+1])
    parts = [A('CurveMulOp', None, [st.s[j], tgt(j)], (OUT, INN), ('scalar', 'point')) for j in range(k)]
    st.o = c.call('curve_mul', parts[0], margs=[INN]) if fn == 'curve_mul' else c.call('curve_msm', sl(parts), margs=[INN])
    st.pts = [F.coords({'P%d' % j: const(1)}) for j in range(k)]
def msm_sound(ctx, k, fn, bits):
    what = '%s of %d' % (fn, k)
    def run(st):
        msm_build(ctx, st, k, fn, msm_cfg(st)); known = [(t, st.pts[i//2][i % 2]) for i, t in enumerate(st.xy)]; st.left = rows_sound(st.c, st.F, known)
    for st, res in ctx.explore(F255(bits), run):
        ctx.no_panic(st, res, what); c = st.c; F = st.F
        ctx.concrete(not st.left, what + ': every row is determined by the inputs and the bits', {'rows': str(st.left[:5])})
        v = lambda t: c.vals.get(c.find(tkey(t)))
        want = {}; seen = set()
        for j in range(k):
            p = v(st.s[j]); ctx.concrete(p is not None, what + ': the bits are tied to scalar %d' % j)
            ok = all(len(mo) == 1 and mo[0][1] == 1 and mo[0][0] in st.bits and cf > 0 for mo, cf in p.items()); tot = sum(p.values())
            ctx.concrete(ok and tot < 1 << 254, what + ': scalar %d is a weighted sum of bits below the field order' % j, {'sum': hex(int(tot)) if ok else P.show(p, st.aname)[:200]})
            ctx.concrete(sorted(p.values()) == [1 << i for i in range(bits-1)], what + ': every scalar below 2^%d has a decomposition' % (bits-1))
            want['P%d' % j] = p
        x, y = (v(t) for t in ptof(st.o)); ctx.concrete(x is not None and y is not None, what + ': the output is determined'); d = F.point(x, y)
        for b in set(d) | set(want): ctx.zero(st, 'S', sub(d.get(b, {}), want.get(b, {})), '%s: coefficient of %s in the output' % (what, b))
def msm_comp(ctx, k, fn, bits):
    what = '%s of %d' % (fn, k)
    def run(st):
        n = bits - 1; bs = st.bs = [[st.fe('S', 'b%d.%d' % (j, i)).p for i in range(n)] for j in range(k)]; s = []
        for j in range(k):
            p = {}
            for i in range(n): p = add(p, scale(bs[j][i], 1 << i))
            s.append(p)
        F_ = {}
        def canon(I, T, a):
            p = m.dr(a[0]).p
            for j in range(k):
                if not sub(p, s[j]): return VecV([SB('bit', 'S', b) for b in bs[j]] + [False])
            raise Unsupported('canonical bits of another value')
        def frombool(I, T, a):
            x = m.dr(a[-1])
            if isinstance(x, SB): return FE('S', x.a[1])
            return I.st.fconst('S', int(x))
        def genadd(I, T, a):
            F = st.F; g = m.dr(a[0]); i = int(g.f[0]); pw = m.dr(a[2])
            get = lambda w, r=0: pw.f[0].d[m.hkey(I, twire(i+r, w))][1].p if m.hkey(I, twire(i+r, w)) in pw.f[0].d else (_ for _ in ()).throw(Refuted('CurveAddGate reads a wire it does not depend on'))
            b = get(6); d = F.plus(F.point(get(0), get(1)), F.point(get(4), get(5)), b); x, y = F.coords(d)
            return pwit(I, {(i, 3): add(scale(get(2), 2), b), (i+1, 0): x, (i+1, 1): y})
        def gendbl(I, T, a):
            F = st.F; g = m.dr(a[0]); i = int(g.f[0]); pw = m.dr(a[2]); get = lambda w: pw.f[0].d[m.hkey(I, twire(i, w))][1].p
            d = F.point(get(0), get(1)); x, y = F.coords({b: scale(p, 2) for b, p in d.items()}); return pwit(I, {(i, 2): x, (i, 3): y})
        def pwit(I, d):
            mv = MapV()
            for (g, w), p in d.items(): t = twire(g, w); mv.d[m.hkey(I, t)] = [t, FE('S', p)]
            return A('PartialWitness', None, [mv], (SF,))
        over = msm_cfg(st, {'Field::to_canonical_bool_vec': canon, 'Field::from_canonical_bool': frombool, '<CurveAddGate as WitnessGenerator>::generate': genadd, '<CurveDblGate as WitnessGenerator>::generate': gendbl})
        msm_build(ctx, st, k, fn, over); c = st.c
        c.generate([(t, FE('S', s[j])) for j, t in enumerate(st.s)] + [(t, FE('S', st.pts[i//2][i % 2])) for i, t in enumerate(st.xy)])
    for st, res in ctx.explore(F255(bits), run):
        ctx.no_panic(st, res, what + ': witness generation'); c = st.c
        ctx.concrete(not c.left, what + ': every generator runs', {'waiting': str([g.tag for _, g in c.left][:5])})
        x, y = (c.gval(t).p for t in ptof(st.o)); d = st.F.point(x, y); n = bits - 1
        for j in range(k):
            w = {}
            for i in range(n): w = add(w, scale(st.bs[j][i], 1 << i))
            ctx.zero(st, 'S', sub(d.get('P%d' % j, {}), w), '%s: generated coefficient of point %d' % (what, j))
        ctx.concrete(not d.get('H'), what + ': the filler cancels in the generated output')

def obligations(crates, tier):
    obs = []
    for fn in OPS:
        for al in ('', 'const', 'after'): obs.append(Ob('%s%s' % (fn, {'': '', 'const': ' of constants', 'after': ' after another gate'}[al]), lambda ctx, fn=fn, al=al: op_ob(ctx, fn, al)))
    obs += [Ob('curve_assert_valid', valid_ob), Ob('copy_curve', copy_ob), Ob('constant_affine_point', const_ob)]
    for fn, k in (('curve_mul', 1), ('curve_msm', 1), ('curve_msm', 2), ('curve_msm', 3)):
        obs.append(Ob('%s of %d parts: constraints force the result' % (fn, k), lambda ctx, fn=fn, k=k: msm_sound(ctx, k, fn, 255), bounded='%d parts' % k if fn == 'curve_msm' else None, timeout=300))
        obs.append(Ob('%s of %d parts: witness generation' % (fn, k), lambda ctx, fn=fn, k=k: msm_comp(ctx, k, fn, 255), bounded='%d parts' % k if fn == 'curve_msm' else None, timeout=300))
    for b in (3, 9): obs.append(Ob('curve_msm over a %d-bit field' % b, lambda ctx, b=b: [msm_sound(ctx, 2, 'curve_msm', b), msm_comp(ctx, 2, 'curve_msm', b)], bounded='2 parts'))
    return obs
