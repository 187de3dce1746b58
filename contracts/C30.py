from contracts.C26 import mkstruct
from contracts.circ import *
from engine.state import Infeasible
LEVEL = 'other'
NOTE = 'every obligation holds for all operand values; the number of limbs (up to 4) and the declared bounds are enumerated'
FUNCTIONS = ['CircuitBuilder::{bigint_add, bigint_add_many, bigint_mul, bigint_cmp, bigint_div, bigint_rem, bigint_div_rem, copy_bigint, constant_bigint, add_virtual_bigint_target, bounded_mul_add}',
             'circuit_bigint::{sum_limbs, limb_cmp, target_to_bigint, bigint_to_target, bigint_pad_limbs, biguint_to_limbs}, BigIntTarget::{get_bounded_limb, split_smallest_limb, new_unbounded, ...}, SplitGenerator, DivRemGenerator',
             'CircuitBuilder::{foreign_field_add_many, foreign_field_add, foreign_field_mul, constant_foreign_field, reduce}', 'CircuitBuilder::{constant_ordering, ordering_assert_valid, add_virtual_ordering_target}, OrderingGenerator',
             'PartialWitness::{get_bigint_target, set_bigint_target, get_ordering_target, set_ordering_target, get_foreign_field_target, set_foreign_field_target}']
EXPLAIN = ('The real gadgets run with a target standing for the field polynomial of its value over free virtual targets (builder arithmetic by its contract, C28); copies become equations, range assertions (C29) ranges. '
           'Soundness: every equation is lifted to the integers, which needs both of its sides to stay below 2^254 for all values admitted by the range checks; over the integers the outputs are then forced to the stated result by exact elimination. '
           'Completeness: the real generators run on operands with symbolic limbs, every value they set must satisfy every equation and range check, and every result is at most its declared bound.')
ASSUMPTIONS = ['builder arithmetic, is_equal, select and assertions meet their contracts (C28)', 'assert_dibit_length(x, n) forces and admits exactly 0 <= x < 4^n (C29)', 'field moduli above 2^254', 'canonical encodings are the integer value (C03)', 'operands come with range-checked limbs and respect their declared bound', 'num::BigUint implements the integers']
TRUSTED = ['num::BigUint']
PMIN = 1 << 254; LB = 86; B = 1 << LB
add, sub, mul, scale, const = P.add, P.sub, P.mul, P.scale, P.const

class Sem:
    """meaning of the targets in one run; mode 's' (soundness) or 'c' (completeness)"""
    def __init__(s, ctx, st, mode, over=None):
        s.ctx = ctx; s.st = st; s.mode = mode; s.eqs = []; s.rng = {}; s.dib = []; s.gens = []; s.val = {}; s.back = {}; s.kr = {}; s.cmp = []; s.n = 0; s.groups = []; s.rel = []
        B_ = 'CircuitBuilder::'; f = lambda: st.fs('S')
        def v(x):
            x = m.dr(x)
            if not isinstance(x, FE): raise Unsupported('target %r' % (x,))
            return x.p
        s.v = v
        def eq(p): s.eqs.append(f().norm(p)); return unit()
        def iseq(I, T, a):
            d = f().norm(sub(v(a[1]), v(a[2]))); return st.fconst('S', 1 if st.decide(SB('fz', 'S', d)) else 0)
        o = fe_builder()
        o.update({B_+'new': None, B_+'add_virtual_target': lambda I, T, a: s.fresh(), B_+'add_virtual_targets': lambda I, T, a: VecV([s.fresh() for _ in range(int(a[1]))]),
                  B_+'copy': lambda I, T, a: eq(sub(v(a[1]), v(a[2]))), B_+'assert_zero': lambda I, T, a: eq(v(a[1])), B_+'assert_one': lambda I, T, a: eq(sub(v(a[1]), const(1))),
                  B_+'assert_binary': lambda I, T, a: eq(sub(mul(v(a[1]), v(a[1])), v(a[1]))), B_+'assert_dibit_length': lambda I, T, a: s.dibits(v(a[1]), int(a[2])), B_+'is_equal': iseq,
                  B_+'select': lambda I, T, a: FE('S', f().norm(add(mul(v(a[1]), v(a[2])), mul(sub(const(1), v(a[1])), v(a[3]))))), B_+'add_generator': lambda I, T, a: s.gens.append(m.dr(a[1])) or unit(),
                  'PartialWitness::new': lambda I, T, a: Opaque('pw'), 'PartialWitness::get_target': lambda I, T, a: FE('S', s.ev(v(a[1]))), 'PartialWitness::set_target': lambda I, T, a: s.set(v(a[1]), v(a[2])),
                  'PartialWitness::set_targets': lambda I, T, a: [s.set(v(t), v(x)) for t, x in zip(lst(a[1]), lst(a[2]))] and unit() or unit(), 'PartialWitness::get_targets': lambda I, T, a: VecV([FE('S', s.ev(v(t))) for t in lst(a[1])]),
                  'PartialWitness::set_bigint_target': lambda I, T, a: s.setbig(a[1], m.bigv(a[2])), 'conversions-field_to_biguint': lambda I, T, a: BigV(s.toint(v(a[0]))), 'Integer::div_rem': s.divrem, 'Ord::cmp': s.order})
        del o[B_+'new']; o.update(over or {})
        s.I = ctx.interp(st, **circ_cfg(st, over=o)); s.b = [s.I.inherent(BUILDER, 'new', [], [128])[0]]
        s.inputs = []
    def call(s, fn, *args, margs=()):
        r = s.I.inherent(BUILDER, fn, list(margs), [Ref(s.b, 0)] + list(args))
        if r is None: raise Unsupported('lost anchor: CircuitBuilder::' + fn)
        return r[0]
    def fresh(s):
        s.n += 1; return s.st.fe('S', 't%d' % s.n)
    # ---- operands: limbs as atoms with ranges
    def big(s, nm, nlimbs, mx):
        l = []
        for i in range(nlimbs):
            hi = min(B-1, mx >> (LB*i)) if s.mode == 'c' else B - 1
            x = s.st.int_atom('%s%d' % (nm, i), 0, max(hi, 2)); l.append(FE('S', m.lift(s.I, 'S', SI(m.ip(x)))))
            a = next(iter(P.atoms(l[-1].p))); s.rng[a] = (0, hi); s.back[a] = m.ip(x)
        t = mkstruct(s.I, 'BigIntTarget', (SF,), limbs=VecV(l), max=BigV(mx))
        if s.mode == 'c': s.known(s.tot(t), 0, mx)
        return t
    def limbs(s, t): t = m.dr(t); return [s.v(x) for x in lst(t.f[t.names.index('limbs')])]
    def max(s, t): t = m.dr(t); return int(m.bigv(t.f[t.names.index('max')]))
    def tot(s, t):
        r = {}
        for i, p in enumerate(s.limbs(t)): r = add(r, scale(p, 1 << (LB*i)))
        return r
    # ---- ranges
    def known(s, p, lo, hi): s.kr[P.key(p)] = (lo, hi); s.groups.append((p, lo, hi))
    def bound(s, p):
        k = s.kr.get(P.key(p))
        if k: return k
        lo = hi = 0
        for g, l, h in s.groups:
            if len(g) < 2 or len(g) > len(p): continue
            mo = next(iter(g))
            if mo not in p or p[mo] % g[mo]: continue
            c = p[mo] // g[mo]
            if all(p.get(x) == c*y for x, y in g.items()):
                p = sub(p, scale(g, c)); lo += c*(l if c > 0 else h); hi += c*(h if c > 0 else l)
        for mono, c in p.items():
            a, b = 1, 1
            for x, e in mono:
                if x not in s.rng: raise Undischarged('no range for %s' % s.st.aname(x))
                l, h = s.rng[x]; a *= l**e; b *= h**e
            if c != int(c): raise Undischarged('fractional coefficient')
            lo += c*(a if c > 0 else b); hi += c*(b if c > 0 else a)
        return int(lo), int(hi)
    def dibits(s, p, n):
        if s.mode == 'c': s.dib.append((p, n)); return unit()
        if len(p) == 1 and list(p.values()) == [1] and len(next(iter(p))) == 1 and next(iter(p))[0][1] == 1:
            a = next(iter(p))[0][0]
        else:
            w = s.fresh(); a = next(iter(P.atoms(w.p))); s.eqs.append(sub(p, w.p))
        lo, hi = s.rng.get(a, (0, 4**n-1)); s.rng[a] = (0, min(hi, 4**n - 1)); return unit()
    # ---- soundness: the equations over the integers
    def lift(s, what, eqs=None):
        """field equation -> integer equation, when both sides stay below the modulus"""
        out = []
        for p in (s.eqs if eqs is None else eqs):
            p = s.st.fs('S').norm(p)
            if not p: continue
            lo, hi = s.bound(p)
            if not (-PMIN < lo and hi < PMIN): raise Refuted('%s: the range checks admit another solution modulo the field order' % what, {'equation': P.show(p, s.st.aname)[:300], 'range': '%#x .. %#x' % (lo, hi)})
            out.append(p)
        return out
    def solve(s, what, eqs=None):
        """eliminates a unit-coefficient unknown from every lifted equation"""
        f = s.st.fs('S')
        for p in s.lift(what, eqs):
            p = f.norm(p)
            if p: f.orient(p)
    # ---- completeness
    def ev(s, p):
        r = {}
        for mono, c in p.items():
            t = const(c)
            for a, e in mono:
                if s.rng.get(a) == (0, 0) and a in s.back: q = {}
                elif a in s.back or s.st.fs('S').rules and any(x[0] == a for x in s.st.fs('S').rules) or a in s.rng and a not in s.val: q = P.atom(a)
                elif a in s.val: q = s.val[a]
                else: raise Wait()
                t = mul(t, P.pw(q, e))
            r = add(r, t)
        return s.st.fs('S').norm(r)
    def set(s, p, v):
        if len(p) != 1 or list(p.values()) != [1]: raise Unsupported('assignment to a derived target')
        a = next(iter(p))[0][0]; v = s.st.fs('S').norm(v)
        if a in s.val: s.ctx.zero(s.st, 'S', sub(s.val[a], v), 'a target receives two values')
        s.val[a] = v; return unit()
    def toint(s, p):
        lo, hi = s.bound(p)
        if lo < 0 or hi >= PMIN: raise Refuted('a witness value is not the canonical integer it stands for', {'range': '%#x .. %#x' % (lo, hi)})
        r = {}
        for mono, c in p.items():
            t = const(c)
            for a, e in mono: t = mul(t, P.pw(s.back[a], e))
            r = add(r, t)
        return m.mk(r)
    def fromint(s, x): return m.lift(s.I, 'S', x if isinstance(x, (int, SI)) else SI(x))
    def natom(s, nm, lo, hi):
        if lo == hi: return const(lo)
        x = s.st.int_atom(nm, lo, max(hi, 2)); p = m.lift(s.I, 'S', SI(m.ip(x))); a = next(iter(P.atoms(p))); s.rng[a] = (lo, hi); s.back[a] = m.ip(x); return p
    def setbig(s, t, v):
        """contract of set_bigint_target: the base-2^86 digits of the value (its own obligation below)"""
        ls = s.limbs(t); n = len(ls)
        p = s.fromint(v); lo, hi = s.bound(p)
        if lo < 0 or hi >= 1 << (LB*n): raise Refuted('a generated value does not fit its limbs', {'largest value': hex(hi), 'limbs': str(n)})
        if P.isconst(p):
            c = int(P.cval(p)); d = [const((c >> (LB*i)) % B) for i in range(n)]
        else:
            d = [s.natom('d%d.%d' % (len(s.back), i), 0, min(B-1, hi >> (LB*i))) for i in range(n)]; t = {}
            for i in reversed(range(n)):
                t = add(scale(t, B), d[i]); s.known(t, 0, hi >> (LB*i))
            s.rel.append(sub(p, t))
        for x, y in zip(ls, d): s.set(x, y)
        return unit()
    def divrem(s, I, T, a):
        x, y = m.bigv(a[0]), m.bigv(a[1])
        if m.conc(x) and m.conc(y): return NotImplemented
        px, py = s.fromint(x), s.fromint(y); xh, yh = s.bound(px)[1], s.bound(py)[1]
        q = s.natom('div', 0, xh); r = s.natom('rem', 0, max(yh-1, 0)); s.ctxdiv = (px, py, q, r)
        s.known(mul(q, py), 0, xh)
        return tup(BigV(SI(s.toint_raw(q))), BigV(SI(s.toint_raw(r))))
    def toint_raw(s, p):
        r = {}
        for mono, c in p.items():
            t = const(c)
            for a, e in mono: t = mul(t, P.pw(s.back[a], e))
            r = add(r, t)
        return r
    def order(s, I, T, a):
        x, y = m.dr(a[0]), m.dr(a[1])
        if not (isinstance(x, FE) and isinstance(y, FE)): return NotImplemented
        st = s.st; d = sub(y.p, x.p)
        if st.decide(SB('fz', 'S', st.fs('S').norm(d))): o = 'Equal'
        else:
            lx, hx = s.bound(x.p); ly, hy = s.bound(y.p)
            if lx < 0 or ly < 0 or hx >= PMIN or hy >= PMIN: raise Refuted('ordering of values that are not canonical integers')
            if st.choose(2): o = 'Less'; s.known(d, 1, max(hy, 1))
            else: o = 'Greater'; s.known(P.neg(d), 1, max(hx, 1))
        s.cmp.append((x.p, y.p, o)); return A('Ordering', o, [])
    def generate(s, what):
        todo = list(s.gens); go = True
        while todo and go:
            go = False; rest = []
            for g in todo:
                ty = ('adt', g.tag, list(g.targs)); pw = [Opaque('pw')]
                try:
                    for d in lst(s.I.dispatch(ty, 'WitnessGenerator', [SF], 'dependencies', [], [Ref([g], 0)])): s.ev(s.v(d))
                except Wait: rest.append(g); continue
                s.I.dispatch(ty, 'WitnessGenerator', [SF], 'generate', [], [Ref([g], 0), SliceRef([], 0, 0), Ref(pw, 0)]); go = True
            todo = rest
        s.ctx.concrete(not todo, what + ': every generator runs', {'waiting': str([g.tag for g in todo])})
    def order_of(s, p, a, ylimbs):
        """smallest coefficient with which an atom occurs"""
        return min([abs(c) for mo, c in p.items() if any(x == a for x, _ in mo)] or [0])
    def range_(s, p):
        """range of an integer combination of integer atoms; None when it is not one"""
        if any(c != int(c) for c in p.values()): return None
        try: return s.bound(p)
        except Undischarged: return None
    def vanishes(s, q, raw):
        """an integer strictly between -1 and 1 is zero: raw is its range before, q its form after the digit relations were used"""
        if raw is None: return False
        from fractions import Fraction as Fr; import math
        d = math.lcm(*[Fr(c).denominator for c in q.values()])
        r = s.range_({k: int(c*d) for k, c in q.items()})
        return r is not None and max(raw[0]*d, r[0]) > -d and min(raw[1]*d, r[1]) < d
    def check(s, what):
        try:
            s.dibv = [s.bound(s.ev(p)) for p, n in s.dib]; raw = [s.range_(s.ev(p)) for p in s.eqs]
            f = s.st.fs('S')
            for p in s.rel:
                p = f.norm(p)
                if p: f.orient(p)
            for p, r0 in zip(s.eqs, raw):
                q = s.ev(p)
                if q and s.vanishes(q, r0): s.ctx.checks += 1; f.orient(q); continue
                s.ctx.zero(s.st, 'S', q, what + ': equation under the generated witness')
            for (p, n), (lo, hi) in zip(s.dib, s.dibv):
                s.ctx.concrete(lo >= 0 and hi < 4**n, what + ': range check under the generated witness', {'range': '%#x .. %#x' % (lo, hi), 'dibits': str(n), 'value': P.show(s.ev(p), s.st.aname)[:200]})
        except Wait: s.ctx.concrete(False, what + ': a target is never generated')
class Wait(Exception): pass

F_ = lambda: FLD(consts={'BITS': 255})
def both(ctx, what, build, post, maxes):
    """build(s) -> outputs; post(s, out) -> [(integer polynomial that must be zero, text)]"""
    n = 0
    def sound(st): st.s = Sem(ctx, st, 's'); st.o = build(st.s)
    for st, res in ctx.explore(F_(), sound):
        ctx.no_panic(st, res, what); n += 1; s = st.s
        s.solve(what)
        for p, t in post(s, st.o): ctx.zero(st, 'S', p, '%s: %s is forced' % (what, t))
        for t, mx in maxes(s, st.o):
            ctx.concrete(s.max(t) >= mx, what + ': declared bound covers every result', {'declared': hex(s.max(t)), 'needed': hex(mx)})

    ctx.concrete(n > 0, what + ': reached')
    def comp(st):
        st.s = Sem(ctx, st, 'c'); st.o = build(st.s); st.s.generate(what)
    k = 0
    for st, res in ctx.explore(F_(), comp):
        ctx.no_panic(st, res, what + ': witness generation'); k += 1; st.s.check(what)
    ctx.concrete(k > 0, what + ': a witness exists')
def rng_ok(ctx, s, t, what):
    if s.mode != "s": return
    """every limb of an output is range checked"""
    for i, p in enumerate(s.limbs(t)):
        p0 = p
        if P.isconst(p): ctx.concrete(0 <= P.cval(p) < B, what + ': constant limb in range'); continue
        a = list(p); ok = len(p) == 1 and p[a[0]] == 1 and len(a[0]) == 1 and a[0][0][0] in s.rng and s.rng[a[0][0][0]][1] < B
        ctx.concrete(ok, what + ': limb %d of the output is range checked' % i, {'limb': P.show(p, s.st.aname)[:200]})

SHAPES = [0, 1, 3, 200, B-2, B-1, B, B+1, (B << 3) - 1, B*B - 1, B*B, (1 << 254) - 1, (1 << 255) + 12345, B**3 - 1, (1 << 300) - 1]
def nl(mx): return -(-mx.bit_length() // LB)
def ops(s, mxs): return [s.big('x%d.' % i, nl(x), x) for i, x in enumerate(mxs)]
def tname(mxs): return ', '.join('%d limbs (%d bits)' % (nl(x), x.bit_length()) for x in mxs)

def add_ob(ctx, mxs, fn='bigint_add_many'):
    what = '%s of %s' % (fn, tname(mxs))
    def build(s):
        s.x = ops(s, mxs); r = s.call('bigint_add_many', sl(list(s.x))) if fn == 'bigint_add_many' else s.call(fn, *[Ref([t], 0) for t in s.x])
        rng_ok(ctx, s, r, what); return r
    def post(s, o):
        d = s.tot(o)
        for t in s.x: d = sub(d, s.tot(t))
        return [(d, 'the sum')]
    both(ctx, what, build, post, lambda s, o: [(o, sum(mxs))])
def mul_ob(ctx, mxs):
    what = 'bigint_mul of %s' % tname(mxs)
    def build(s):
        s.x = ops(s, mxs); r = s.call('bigint_mul', Ref([s.x[0]], 0), Ref([s.x[1]], 0)); rng_ok(ctx, s, r, what); return r
    both(ctx, what, build, lambda s, o: [(sub(s.tot(o), mul(s.tot(s.x[0]), s.tot(s.x[1]))), 'the product')], lambda s, o: [(o, mxs[0]*mxs[1])])

def split_ob(ctx, mx):
    """target_to_bigint: limbs are the digits of the input, for every input up to its declared bound"""
    what = 'target_to_bigint, bound of %d bits' % mx.bit_length()
    def build(s):
        p = s.natom('in', 0, mx); s.x = p; t = mkstruct(s.I, 'BoundedTarget', (SF,), target=FE('S', p), max=BigV(mx)); r = s.call('target_to_bigint', Ref([t], 0)); rng_ok(ctx, s, r, what); return r
    both(ctx, what, build, lambda s, o: [(sub(s.tot(o), s.x), 'the input')], lambda s, o: [(o, mx)])
def join_ob(ctx, mx):
    what = 'bigint_to_target of %s' % tname([mx])
    def build(s): s.x = ops(s, [mx]); return s.call('bigint_to_target', Ref([s.x[0]], 0))
    def post(s, o):
        o = m.dr(o); ctx.concrete(int(m.bigv(o.f[o.names.index('max')])) >= mx, what + ': bound'); return [(sub(s.v(o.f[o.names.index('target')]), s.tot(s.x[0])), 'the joined value')]
    both(ctx, what, build, post, lambda s, o: [])
def virt_ob(ctx, mx, validate):
    what = 'add_virtual_bigint_target, bound of %d bits' % mx.bit_length()
    n = 0
    for mode in 'sc':
        def run(st): st.s = Sem(ctx, st, mode); st.o = st.s.call('add_virtual_bigint_target', Ref([BigV(mx)], 0), validate)
        for st, res in ctx.explore(F_(), run):
            ctx.no_panic(st, res, what); s = st.s; l = s.limbs(st.o); ctx.concrete(s.max(st.o) == mx, what + ': declared bound'); ctx.concrete(len(l) == nl(mx), what + ': number of limbs')
            ats = [tuple(p) for p in l]; ctx.concrete(len(set(ats)) == len(l) and all(len(p) == 1 for p in l), what + ': limbs are distinct free targets'); ctx.concrete(not s.gens and not s.eqs, what + ': no other constraint')
            if validate and mode == 's': rng_ok(ctx, s, st.o, what)
            if mode == 'c':
                hi = {P.key(p): min(B-1, mx >> (LB*i)) for i, p in enumerate(l)}
                for p, k in s.dib: ctx.concrete(P.key(p) in hi and hi[P.key(p)] < 4**k, what + ': every value up to the bound is admitted')
def const_ob(ctx, v):
    what = 'constant_bigint(%#x)' % v
    def build(s): return s.call('constant_bigint', Ref([BigV(v)], 0))
    both(ctx, what, build, lambda s, o: [(sub(s.tot(o), const(v)), 'the constant')], lambda s, o: [(o, v)])
def limb_ob(ctx, mx, n):
    """get_bounded_limb / split_smallest_limb / new_unbounded: bounds follow from the bound on the whole"""
    def run(st):
        s = st.s = Sem(ctx, st, 's'); t = s.big('x', n, mx); T = ('adt', 'circuit_bigint::BigIntTarget', [SF])
        st.t = t; st.l = [s.I.inherent(T, 'get_bounded_limb', [], [Ref([t], 0), i])[0] for i in range(n)]; st.g = [s.I.inherent(T, 'get_limb', [], [Ref([t], 0), i])[0] for i in range(n)]
        st.un = s.I.inherent(T, 'new_unbounded', [], [VecV([FE('S', p) for p in s.limbs(t)])])[0]; st.nb = s.I.inherent(T, 'new_bounded', [], [VecV([FE('S', p) for p in s.limbs(t)]), BigV(mx)])[0]; st.z = s.I.inherent(T, 'zero', [], [])[0]
        st.sp = s.I.inherent(T, 'split_smallest_limb', [], [Ref([t], 0)])[0] if n else None; st.nn = s.I.inherent(T, 'num_limbs', [], [Ref([t], 0)])[0]
    for st, res in ctx.explore(F_(), run):
        w = 'bounds of %s' % tname([mx]); ctx.no_panic(st, res, w); s = st.s; l = s.limbs(st.t)
        for i in range(n):
            b = m.dr(st.l[i]); ctx.zero(st, 'S', sub(s.v(b.f[b.names.index('target')]), l[i]), w + ': limb'); ctx.concrete(int(m.bigv(b.f[b.names.index('max')])) >= min(B-1, mx >> (LB*i)), w + ': bound of limb %d' % i)
            ctx.zero(st, 'S', sub(s.v(st.g[i]), l[i]), w + ': get_limb')
        ctx.concrete(s.max(st.un) >= B**n - 1 and s.limbs(st.un) == l and s.max(st.nb) >= mx and s.limbs(st.nb) == l and s.limbs(st.z) == [] and int(st.nn) == n, w + ': constructors')
        if n:
            f, r = st.sp.f; ctx.zero(st, 'S', sub(s.v(f), l[0]), w + ': first limb'); ctx.concrete(s.limbs(r) == l[1:] and s.max(r) >= mx >> LB, w + ': rest')
def copyb_ob(ctx, a, b):
    what = 'copy_bigint of %d and %d limbs' % (a, b)
    def build(s): s.x = [s.big('x', a, B**a - 1), s.big('y', b, B**b - 1)]; s.call('copy_bigint', Ref([s.x[0]], 0), Ref([s.x[1]], 0))
    def sound(st): st.s = Sem(ctx, st, 's'); build(st.s)
    for st, res in ctx.explore(F_(), sound):
        ctx.no_panic(st, res, what); s = st.s; s.solve(what); ctx.zero(st, 'S', sub(s.tot(s.x[0]), s.tot(s.x[1])), what + ': equality of the integers')
    # two digit vectors of one integer are equal digit by digit, with zeros above
    def comp(st):
        s = st.s = Sem(ctx, st, 'c'); build(s); x, y = s.limbs(s.x[0]), s.limbs(s.x[1]); f = st.fs('S')
        for i in range(max(a, b)):
            d = sub(x[i] if i < a else {}, y[i] if i < b else {}); f.orient(f.norm(d))
    for st, res in ctx.explore(F_(), comp):
        ctx.no_panic(st, res, what); s = st.s
        for p in s.eqs: ctx.zero(st, 'S', p, what + ': holds for equal integers')
        ctx.concrete(not s.dib and not s.gens, what + ': nothing else is asserted')

def solve_bits(st, eqs):
    """cases over the unknowns that an equation forces to be 0 or 1; the other equations must then hold"""
    f = st.fs('S'); rest = []
    for p in eqs:
        ab = special(f.norm(p))
        if ab and ab[1] == 2: f.orient(sub(P.atom(ab[0]), const(ab[3][st.choose(2)])))
        else: rest.append(p)
    for p in rest:
        p = f.norm(p)
        if not p: continue
        if P.isconst(p): raise Infeasible()
        f.orient(p)
def cmp_ob(ctx, mxs, fn='bigint_cmp'):
    what = '%s of %s' % (fn, tname(mxs)); seen = set()
    def build(s):
        s.x = ops(s, mxs)
        o = s.call('bigint_cmp', Ref([s.x[0]], 0), Ref([s.x[1]], 0)) if fn == 'bigint_cmp' else s.call(fn, FE('S', s.limbs(s.x[0])[0]), FE('S', s.limbs(s.x[1])[0]))
        o = m.dr(o); s.o = {k: s.v(o.f[o.names.index(k)]) for k in ('lt', 'eq', 'gt')}
    def sound(st):
        s = st.s = Sem(ctx, st, 's'); build(s); s.diff = None
        # the outputs are binary with sum one
        ranged = [p for p in s.eqs if any(a in s.rng for a in P.atoms(p))]; rest = [p for p in s.eqs if not any(a in s.rng for a in P.atoms(p))]
        solve_bits(st, rest); s.main = ranged
    for st, res in ctx.explore(F_(), sound):
        ctx.no_panic(st, res, what); s = st.s; f = st.fs('S')
        v = {k: f.norm(p) for k, p in s.o.items()}
        ctx.concrete(all(P.isconst(p) and P.cval(p) in (0, 1) for p in v.values()) and sum(P.cval(p) for p in v.values()) == 1, what + ': exactly one outcome'); out = [k for k in v if P.cval(v[k]) == 1][0]
        # decided differences of the operand limbs on this path; the most significant differing pair
        X, Y = s.limbs(s.x[0]), s.limbs(s.x[1]); top = None
        for i in reversed(range(max(len(X), len(Y)))):
            d = f.norm(sub(Y[i] if i < len(Y) else {}, X[i] if i < len(X) else {})); stt = f.status(d) if d else 'zero'
            if stt != 'zero': top = i, d, stt; break
        if top is None:
            seen.add('eq'); ctx.concrete(out == 'eq', what + ': equal operands compare equal', {'outcome': out}); continue
        i, d, stt = top
        if stt != 'nonzero': raise Undischarged(what + ': a pair of limbs is never compared')
        ctx.concrete(out != 'eq', what + ': different operands do not compare equal'); seen.add(out)
        # the range check on this path: r = +-d with 0 <= r, over the integers; d is nonzero
        rs = s.lift(what, [f.norm(p) for p in s.main]); good = False; sg = 1 if out == 'lt' else -1
        for p in rs:
            for mono, c in p.items():
                if abs(c) == 1 and len(mono) == 1 and mono[0][1] == 1 and mono[0][0] in s.rng:
                    e = {k: x for k, x in p.items() if k != mono}; e = scale(e, -c)      # atom = e, so e >= 0
                    if e == scale(d, sg) and not any(mono[0][0] in P.atoms(q) for q in X + Y): good = True
        ctx.concrete(good, what + ': the outcome %s forces the sign of the difference' % out, {'difference': P.show(d, st.aname)[:200]})
        # the digits below cannot change the order: (Y - X) sign = sign of the top difference
        low = 0
        for j in range(i): low += (B - 1) << (LB*j)
        ctx.concrete(low < 1 << (LB*i), what + ': lower limbs cannot outweigh the top difference')
    def comp(st):
        s = st.s = Sem(ctx, st, 'c'); build(s); s.generate(what)
    k = set()
    for st, res in ctx.explore(F_(), comp):
        ctx.no_panic(st, res, what + ': witness generation'); s = st.s; s.check(what)
        for a, b, o in s.cmp:
            k.add(o); w = {'Less': 'lt', 'Equal': 'eq', 'Greater': 'gt'}[o]
            for nm, p in s.o.items(): ctx.zero(st, 'S', sub(s.ev(p), const(int(nm == w))), what + ': generated ' + nm)
    m0, m1 = mxs
    ctx.concrete('eq' in seen and (not m0 or not m1 or seen == {'eq', 'lt', 'gt'}), what + ': every outcome is reached', {'reached': str(sorted(seen))})

def div_ob(ctx, mxs, fn='bigint_div_rem', yconst=False):
    what = '%s of %s' % (fn, tname(mxs))
    def over(s):
        def copyb(I, T, a):
            x, y = (s[0].tot(m.dr(t)) for t in a[1:3]); s[0].cb.append((a[1], a[2])); s[0].ceq.append(s[0].st.fs('S').norm(sub(x, y))); return unit()
        def cmpb(I, T, a):
            z = s[0]; o = {k: z.fresh() for k in ('lt', 'eq', 'gt')}; z.cmps.append((a[1], a[2], o)); return mkstruct(z.I, 'OrderingTarget', (SF,), **o)
        return {'CircuitBuilder::copy_bigint': copyb, 'CircuitBuilder::bigint_cmp': cmpb}
    def build(s):
        s.cb = []; s.ceq = []; s.cmps = []; s.x = [s.big('x', nl(mxs[0]), mxs[0])]
        if yconst: s.x.append(s.call('constant_bigint', Ref([BigV(mxs[1])], 0)))
        else: s.x.append(s.big('y', nl(mxs[1]), mxs[1]))
        r = s.call(fn, Ref([s.x[0]], 0), Ref([s.x[1]], 0)); return list(r.f) if fn == 'bigint_div_rem' else [r]
    def prep(st, mode):
        box = []; o = over(box); s = Sem.__new__(Sem); box.append(s); Sem.__init__(s, ctx, st, mode, o); st.s = s; st.o = build(s)
    n = 0
    for st, res in ctx.explore(F_(), lambda st: prep(st, 's')):
        ctx.no_panic(st, res, what); n += 1; s = st.s; f = st.fs('S')
        ctx.concrete(len(s.cb) == 1 and len(s.cmps) == 1, what + ': one equality and one comparison')
        for o in st.o: rng_ok(ctx, s, o, what)
        rem, y, o = s.cmps[0]; ctx.concrete(s.limbs(y) == s.limbs(s.x[1]), what + ': the remainder is compared with the divisor')
        lt = o['lt'].p; used = [p for p in s.eqs if P.key(sub(p, sub(lt, const(1)))) == P.key({}) or P.key(add(p, sub(lt, const(1)))) == P.key({})]
        ctx.concrete(bool(used), what + ': the remainder is asserted to be smaller than the divisor')
        s.solve(what, [p for p in s.eqs if p not in used])
        # the product's and sum's digits are integers; the equality gives x = div*y + rem over the integers
        ctx.concrete(bool(s.ceq), what); e = f.norm(s.ceq[0])
        if fn == 'bigint_div_rem': div, rm = st.o; ctx.concrete(s.limbs(rm) == s.limbs(rem), what + ': the remainder is the compared one')
        elif fn == 'bigint_rem': rm = st.o[0]; div = None; ctx.concrete(s.limbs(rm) == s.limbs(rem), what + ': the remainder is the compared one')
        else: div = st.o[0]; rm = rem
        if div is None:
            # the equation must read x = q*y + rem with q a combination of range-checked limbs that are fresh in this gadget
            y1 = s.limbs(s.x[1]); used_ = {a for t in s.x + [rm] for p in s.limbs(t) for a in P.atoms(p)}
            q = {}; rest = f.norm(sub(s.tot(s.x[0]), s.tot(rm)))
            fresh_ = [a for a in P.atoms(e) if a not in used_]
            ctx.concrete((bool(fresh_) or not mxs[0]) and all(a in s.rng and s.rng[a][1] < B for a in fresh_), what + ': quotient digits are range checked')
            ok = False
            for sg in (1, -1):
                qy = f.norm(sub(scale(e, sg), rest)) if True else None       # +-(q*y)
                for i, a in enumerate(sorted(fresh_, key=lambda a: s.order_of(qy, a, y1))): q = add(q, scale(P.atom(a), 1 << (LB*i)))
                ok |= any(not f.norm(sub(qy, scale(mul(q, s.tot(s.x[1])), k))) for k in (1, -1)); q = {}
            ctx.concrete(ok, what + ': x = quotient * y + remainder is forced for range-checked quotient limbs', {'equation': P.show(e, st.aname)[:300]})
        else:
            t = sub(s.tot(s.x[0]), add(mul(s.tot(div), s.tot(s.x[1])), s.tot(rm)))
            ctx.concrete(not f.norm(sub(t, e)) or not f.norm(add(t, e)), what + ': x = quotient * y + remainder is forced', {'equation': P.show(e, st.aname)[:300]})
            ctx.concrete(s.max(div) >= mxs[0], what + ': bound of the quotient')
        ctx.concrete(s.max(rm) >= min(mxs[0], mxs[1]-1), what + ': bound of the remainder')
    ctx.concrete(n > 0, what + ': reached')
    def comp(st):
        prep(st, 'c'); st.s.generate(what)
    k = 0
    for st, res in ctx.explore(F_(), comp):
        ctx.no_panic(st, res, what + ': witness generation'); k += 1; s = st.s
        s.eqs = [p for p in s.eqs if not any(a in P.atoms(o['lt'].p) for _, _, o in s.cmps for a in P.atoms(p))]
        s.check(what); f = st.fs('S')
        if hasattr(s, 'ctxdiv'):
            px, py, q, r = s.ctxdiv; f.orient(f.norm(sub(px, add(mul(q, py), r))))
        for p in s.ceq: ctx.zero(st, 'S', s.ev(p), what + ': generated quotient and remainder satisfy the equation')
    ctx.concrete(k > 0, what + ': a witness exists')

# ------------------------------------------------------------------ foreign field
FQ = (1 << 255) - 19    # stands for the (arbitrary) order of the foreign field
def foreign_ob(ctx, fn, q, k=2):
    what = '%s, %d operands' % (fn, k)
    def run(st):
        st.calls = []
        def rem(I, T, a): st.calls.append((m.dr(a[1]), m.dr(a[2]))); return Opaque('remainder')
        def addm(I, T, a): st.ops = [m.dr(x) for x in lst(a[1])]; return Opaque('sum')
        def mulb(I, T, a): st.ops = [m.dr(x) for x in a[1:3]]; return Opaque('product')
        over = {'CircuitBuilder::bigint_rem': rem, 'CircuitBuilder::bigint_add_many': addm, 'CircuitBuilder::bigint_mul': mulb, 'CircuitBuilder::constant_bigint': lambda I, T, a: Opaque('constant', int(m.bigv(a[1]))),
                'conversions-field_to_biguint': lambda I, T, a: BigV(int(P.cval(I.st.fs('B').norm(m.dr(a[0]).p))) % q), 'Clone::clone': lambda I, T, a: m.dr(a[0]) if isinstance(m.dr(a[0]), Opaque) else NotImplemented}
        s = st.s = Sem(ctx, st, 's', over); st.t = [Opaque('value%d' % i) for i in range(k)]; st.I = s.I; FF = ('absfield', 'B')
        fs = [mkstruct(s.I, 'ForeignFieldTarget', (SF, FF), value=t, _foreign_field=unit()) for t in st.t]
        if fn == 'foreign_field_add_many': r = s.call(fn, sl(fs), margs=[FF])
        elif fn == 'constant_foreign_field': r = s.call(fn, st.fconst('B', 5), margs=[FF])
        else: r = s.call(fn, *[Ref([x], 0) for x in fs], margs=[FF])
        st.r = m.dr(r)
    for st, res in ctx.explore({'S': FieldInfo('S', None, {'BITS': 255}), 'B': FieldInfo('B', None, {}), 'T': FieldInfo('T')}, run):
        ctx.no_panic(st, res, what); v = m.dr(st.r.f[st.r.names.index('value')])
        if fn == 'constant_foreign_field': ctx.concrete(v.what == 'constant' and v.d == 5, what + ': constant encodes the element'); continue
        ctx.concrete(v.what == 'remainder' and len(st.calls) == 1, what + ': the result is reduced'); x, y = st.calls[0]
        ctx.concrete(x.what == ('product' if 'mul' in fn else 'sum') and [o.what for o in st.ops] == ['value%d' % i for i in range(k)], what + ': operands'); ctx.concrete(y.what == 'constant' and y.d == q, what + ': reduction modulo the order of the foreign field', {'modulus': hex(y.d) if y.d else '?'})

def fwit_ob(ctx):
    def run(st):
        log = st.log = []
        def setb(I, T, a): log.append((m.dr(a[1]), m.dr(a[2]))); return unit()
        over = {'PartialWitness::set_bigint_target': setb, 'PartialWitness::get_bigint_target': lambda I, T, a: Opaque('integer of', m.dr(a[1])), 'conversions-field_to_biguint': lambda I, T, a: Opaque('integer', m.dr(a[0])), 'conversions-biguint_to_field': lambda I, T, a: Opaque('element', m.dr(a[0]))}
        s = Sem(ctx, st, 's', over); FF = ('absfield', 'B'); t = mkstruct(s.I, 'ForeignFieldTarget', (SF, FF), value=Opaque('value'), _foreign_field=unit()); x = st.fe('B', 'x'); PW = ('adt', 'witness::PartialWitness', [SF]); pw = [Opaque('pw')]; st.x = x
        s.I.inherent(PW, 'set_foreign_field_target', [FF], [Ref(pw, 0), Ref([t], 0), x]); st.r = s.I.inherent(PW, 'get_foreign_field_target', [FF], [Ref(pw, 0), Ref([t], 0)])[0]
    for st, res in ctx.explore({'S': FieldInfo('S', None, {'BITS': 255}), 'B': FieldInfo('B', None, {}), 'T': FieldInfo('T')}, run):
        ctx.no_panic(st, res, 'foreign field targets'); ctx.concrete(len(st.log) == 1 and st.log[0][0].what == 'value' and st.log[0][1].what == 'integer' and st.log[0][1].d is st.x, 'set_foreign_field_target writes the integer of the element')
        r = m.dr(st.r); ctx.concrete(r.what == 'element' and r.d.what == 'integer of' and r.d.d.what == 'value', 'get_foreign_field_target reads the element of the integer')

# ------------------------------------------------------------------ orderings and witness access
def ordering_ob(ctx):
    for i, nm in enumerate(('Less', 'Equal', 'Greater')):
        def run(st): s = st.s = Sem(ctx, st, 's'); st.o = m.dr(s.call('constant_ordering', A('Ordering', nm, []))); st.w = {k: m.dr(s.call('ordering_' + k)) for k in ('lt', 'eq', 'gt')}
        for st, res in ctx.explore(F_(), run):
            ctx.no_panic(st, res, 'constant_ordering'); g = lambda o: [P.cval(st.s.v(o.f[o.names.index(k)])) for k in ('lt', 'eq', 'gt')]
            ctx.concrete(g(st.o) == [int(j == i) for j in range(3)], 'constant_ordering(%s)' % nm)
            for j, k in enumerate(('lt', 'eq', 'gt')): ctx.concrete(g(st.w[k]) == [int(j == x) for x in range(3)], 'ordering_' + k)
    for mode in 'sc':
        def run(st):
            s = st.s = Sem(ctx, st, mode); st.o = m.dr(s.call('add_virtual_ordering_target', True)); st.v = [st.o.f[st.o.names.index(k)] for k in ('lt', 'eq', 'gt')]
            if mode == 's': solve_bits(st, s.eqs)
            else:
                k = st.choose(3)
                for j in range(3): s.val[next(iter(P.atoms(st.v[j].p)))] = const(int(j == k))
        n = 0
        for st, res in ctx.explore(F_(), run):
            ctx.no_panic(st, res, 'ordering_assert_valid'); n += 1; s = st.s
            if mode == 's':
                x = [st.fs('S').norm(v.p) for v in st.v]; ctx.concrete(all(P.isconst(p) for p in x) and sorted(P.cval(p) for p in x) == [0, 0, 1], 'ordering_assert_valid forces exactly one of lt, eq, gt')
            else: s.check('ordering_assert_valid admits every ordering')
        ctx.concrete(n >= 3, 'every ordering is admitted')
    # witness access
    def run(st):
        s = st.s = Sem(ctx, st, 'c'); PW = ('adt', 'witness::PartialWitness', [SF]); t = m.dr(s.call('add_virtual_ordering_target', False)); k = st.choose(3); st.k = k; pw = [Opaque('pw')]
        s.I.inherent(PW, 'set_ordering_target', [], [Ref(pw, 0), t, A('Ordering', ('Less', 'Equal', 'Greater')[k], [])])
        st.val = [s.ev(t.f[t.names.index(x)].p) for x in ('lt', 'eq', 'gt')]; st.r = s.I.inherent(PW, 'get_ordering_target', [], [Ref(pw, 0), t])[0]
    for st, res in ctx.explore(F_(), run):
        ctx.no_panic(st, res, 'ordering targets in the witness'); ctx.concrete([P.cval(p) for p in st.val] == [int(j == st.k) for j in range(3)], 'set_ordering_target'); ctx.concrete(st.r.var == ('Less', 'Equal', 'Greater')[st.k], 'get_ordering_target')
def setget_ob(ctx, v, n):
    """set_bigint_target writes the base-2^86 digits; get_bigint_target reads the integer back"""
    def run(st):
        s = st.s = Sem(ctx, st, 'c', {'PartialWitness::set_bigint_target': lambda I, T, a: NotImplemented, 'conversions-biguint_to_field': lambda I, T, a: I.st.fconst('S', int(m.bigv(a[0])))})
        PW = ('adt', 'witness::PartialWitness', [SF]); t = s.call('add_virtual_bigint_target', Ref([BigV(B**n - 1)], 0), False); pw = [Opaque('pw')]
        s.I.inherent(PW, 'set_bigint_target', [], [Ref(pw, 0), Ref([t], 0), Ref([BigV(v)], 0)]); st.t = t; st.d = [s.ev(p) for p in s.limbs(t)]; st.r = s.I.inherent(PW, 'get_bigint_target', [], [Ref(pw, 0), Ref([t], 0)])[0]
    for st, res in ctx.explore(F_(), run):
        if v >= B**n: ctx.concrete(res[0] == 'panic', 'set_bigint_target: value that does not fit is rejected'); continue
        ctx.no_panic(st, res, 'set_bigint_target'); ctx.concrete([int(P.cval(p)) for p in st.d] == [(v >> (LB*i)) % B for i in range(n)], 'set_bigint_target(%#x) with %d limbs' % (v, n)); ctx.concrete(int(m.bigv(st.r)) == v, 'get_bigint_target reads %#x' % v)
def get_ob(ctx, n):
    def run(st):
        s = st.s = Sem(ctx, st, 'c'); t = s.big('x', n, B**n - 1); st.t = t; pw = [Opaque('pw')]; st.r = s.I.inherent(('adt', 'witness::PartialWitness', [SF]), 'get_bigint_target', [], [Ref(pw, 0), Ref([t], 0)])[0]
    for st, res in ctx.explore(F_(), run):
        ctx.no_panic(st, res, 'get_bigint_target'); ctx.zero(st, 'S', sub(st.s.fromint(m.bigv(st.r)), st.s.tot(st.t)), 'get_bigint_target of %d limbs, every value' % n)

def obligations(crates, tier):
    obs = []
    S = 'up to 4 limbs, enumerated bounds'; q = tier == 'quick'; SH = SHAPES
    pairs = [(a, b) for a in SH for b in SH if (not q) or (SH.index(a)*7 + SH.index(b)*3) % 5 < 2 or a == b]
    def ob(nm, f, *a, **k): obs.append(Ob(nm, lambda ctx: f(ctx, *a, **k), bounded=S, timeout=120))
    hx = lambda l: ' '.join('%#x' % x for x in l)
    for mx in SH + [B**2 * 8 - 1, 173 * B**2, (1 << 253) - 1]: 
        if mx.bit_length() <= 254: ob('target_to_bigint, maximum %#x' % mx, split_ob, mx)
    for mx in SH:
        ob('bigint_to_target, maximum %#x' % mx, join_ob, mx)
        for v in (True, False): ob('add_virtual_bigint_target, maximum %#x, validate %s' % (mx, v), virt_ob, mx, v)
        ob('constant_bigint %#x' % mx, const_ob, mx); ob('bounds of limbs, maximum %#x' % mx, limb_ob, mx, nl(mx))
        for n in range(5): ob('set_bigint_target %#x in %d limbs' % (mx, n), setget_ob, mx, n)
    for n in range(5): ob('get_bigint_target of %d limbs' % n, get_ob, n)
    for a, b in pairs: ob('bigint_add, maxima %s' % hx([a, b]), add_ob, [a, b], 'bigint_add'); ob('bigint_mul, maxima %s' % hx([a, b]), mul_ob, [a, b])
    for l in ([B-1], [B*B-1]*3, [B-1]*4, [0, B, 3], [3]*7, [B**3-1, B-1, B*B], [0], [0, 0], [B-1]*20): ob('bigint_add_many, maxima %s' % hx(l), add_ob, l)
    for a in range(5):
        for b in range(5): ob('copy_bigint of %d and %d limbs' % (a, b), copyb_ob, a, b)
    ob('limb_cmp', cmp_ob, [B-1, B-1], 'limb_cmp')
    for a in range(4):
        for b in range(4):
            if a + b < 6 or not q: ob('bigint_cmp of %d and %d limbs' % (a, b), cmp_ob, [B**a - 1, B**b - 1])
    for a, b in ((3, 200), (B-1, 3), (B*B, B-1), (B**3-1, B**2), (1 << 254, (1 << 254) - 1), (3, B+1), (0, 5), (B-1, 1), ((1 << 508) - 1, (1 << 254) - 3)):
        for fn in ('bigint_div_rem', 'bigint_rem', 'bigint_div'):
            for c in (False, True): ob('%s, maxima %s%s' % (fn, hx([a, b]), ', constant divisor' if c else ''), div_ob, [a, b], fn, c)
    for k in (1, 2, 3, 7): ob('foreign_field_add_many of %d' % k, foreign_ob, 'foreign_field_add_many', FQ, k)
    for fn in ('foreign_field_add', 'foreign_field_mul'): ob(fn, foreign_ob, fn, FQ)
    ob('constant_foreign_field', foreign_ob, 'constant_foreign_field', FQ, 0); ob('foreign field targets in the witness', fwit_ob)
    ob('orderings', ordering_ob)
    return obs
