from contracts.circ import *
FUNCTIONS = ['CircuitBuilder::{split_binary, split_base_4, split_binary_and_base_4, assert_all_base_4, assert_dibit_length, deterministic_square_root, assert_binary, generate_constant}',
             'SplitGenerator, SqrtGenerator, ConstantGenerator, the base-4 accumulator generator', 'Base4SumGate, ArithmeticGate, ConstantGate: evaluate_unfiltered and generators']
EXPLAIN = ('As in C28 the real gadget is run on a real builder. Soundness: under the real gate constraints the input normalises to a non-negative integer combination of routed limbs whose range constraints are known, '
           'whose maximum fits the asserted length; for the square root additionally output^2 = input and the output is even and below 2^254. Completeness: the input is the symbolic sum of its canonical bits (contract of to_canonical_bool_vec, C03), '
           'the real generators are run with both sides of each bit test joined, and every constraint must vanish.')
ASSUMPTIONS = ['to_canonical_bool_vec gives the canonical bits (C03)', 'square_root contract (C05)', 'copy constraints are enforced (C21, C34)', 'fields of 255 bits with modulus above 2^254 (Tweedledee/dum, Pallas/Vesta)',
               'lengths are enumerated: every length up to the bound, all input values']
NBITS = 255
sub, mul, add, scale, const = P.sub, P.mul, P.add, P.scale, P.const

def cmerge(I, bit, t, f):
    if m.isint(t) and m.isint(f) and not isinstance(t, bool) and not isinstance(f, bool):
        if m.conc(t) and m.conc(f) and t == f: return t
        a, b = m.ip(t), m.ip(f); return m.mk(add(b, mul(bit, sub(a, b))))
    return gmerge(I, bit, t, f)
from contracts.formal import gmerge

def bits_over(st):
    """symbolic inputs with known canonical bits"""
    st.bitsof = {}
    def tobool(I, T, a):
        k = P.key(st.fs('S').norm(m.dr(a[0]).p))
        if k not in st.bitsof:
            c = m.fconstval(I, m.dr(a[0]))
            if c is not None: return VecV([bool((int(c) >> i) & 1) for i in range(256)])
            raise Unsupported('canonical bits of another value')
        return VecV(list(st.bitsof[k]))
    def frombool(I, T, a):
        if isinstance(a[0], bool): return st.fconst('S', int(a[0]))
        from engine.interp import asbit
        return FE('S', m.lift(I, 'S', SI(asbit(st, a[0]))))
    return {'Field::to_canonical_bool_vec': tobool, 'Field::from_canonical_bool': frombool}

def bitval(st, I, name, n, lo=0):
    """a field element given by bits lo..n-1"""
    bs = [False]*lo + [st.bool_atom('%s%d' % (name, i)) for i in range(lo, n)] + [False]*(256-n)
    p = {}
    for i in range(lo, n): p = add(p, scale(m.lift(I, 'S', SI(bs[i].a[0])), 1 << i))
    x = FE('S', st.fs('S').norm(p)); st.bitsof[P.key(x.p)] = bs
    return x, bs

def mk(ctx, st, over=None):
    o = bits_over(st); o.update(over or {})
    I = ctx.interp(st, merge=cmerge, **circ_cfg(st, over=o)); st.I = I
    return I, Circ(ctx, st, I)
F_ = lambda: FLD(consts={'BITS': NBITS})

def intrange(ctx, st, p, what, lim):
    """p is a sum of range-checked limbs with non-negative integer weights; returns the weights"""
    p = st.fs('S').norm(p); rg = getattr(st, 'ranged', {}); tot = 0; w = {}
    for mono, c in p.items():
        ok = len(mono) == 1 and mono[0][1] == 1 and mono[0][0] in rg
        ctx.concrete(ok and c == int(c) and c > 0, '%s: the input is a weighted sum of range-checked limbs' % what, {'term': '%s * %s' % (c, [st.aname(a) for a, _ in mono]), 'value': P.show(p, st.aname)[:300]})
        tot += int(c) * max(rg[mono[0][0]]); w[mono[0][0]] = int(c)
    ctx.concrete(tot < lim, '%s: admitted values stay below the bound' % what, {'largest admitted value': hex(tot), 'bound': hex(lim)})
    return w

# ---------------------------------------------------------------- splitting (generator only)
def split_ob(ctx, fn, nb, nd):
    def run(st):
        I, c = mk(ctx, st); x = c.inputs(1)[0]; st.c = c
        args = [x, nb, nd] if fn == 'split_binary_and_base_4' else [x, nb or nd]
        r = c.call(fn, *args)
        st.bs, st.ds = [lst(y) for y in r.f] if fn == 'split_binary_and_base_4' else (lst(r), []) if fn == 'split_binary' else ([], lst(r))
        v, bs = bitval(st, I, 'b', max(nb + 2*nd, 1)); st.bits = bs
        c.generate([(x, v)])
    for st, res in ctx.explore(F_(), run, max_paths=3):
        ctx.no_panic(st, res, fn); c = st.c; I = st.I
        ctx.concrete(not c.left, fn + ': generator runs'); ctx.concrete(len(st.bs) == nb and len(st.ds) == nd, fn + ': number of limbs', {'bits': str(len(st.bs)), 'dibits': str(len(st.ds))})
        L = lambda b: m.lift(I, 'S', SI(b.a[0])) if isinstance(b, SB) else const(int(b))
        for i, t in enumerate(st.bs): ctx.zero(st, 'S', sub(c.gval(t).p, L(st.bits[i])), '%s: bit %d' % (fn, i))
        for i, t in enumerate(st.ds): ctx.zero(st, 'S', sub(c.gval(t).p, add(L(st.bits[nb+2*i]), scale(L(st.bits[nb+2*i+1]), 2))), '%s: dibit %d' % (fn, i))

# ---------------------------------------------------------------- assert_dibit_length
def dibit_ob(ctx, n):
    what = 'assert_dibit_length(x, %d)' % n
    def sound(st):
        I, c = mk(ctx, st); x = c.inputs(1)[0]; c.call('assert_dibit_length', x, n); st.c, st.x = c, x
        c.assume_all()
    k = 0
    for st, res in ctx.explore(F_(), sound, max_paths=3):
        ctx.no_panic(st, res, what); k += 1
        w = intrange(ctx, st, st.c.value(st.x).p, what, 4**n)
    ctx.concrete(k > 0, what + ' is satisfiable')
    def comp(st):
        I, c = mk(ctx, st); x = c.inputs(1)[0]; c.call('assert_dibit_length', x, n); st.c, st.x = c, x
        v, bs = bitval(st, I, 'b', 2*n); c.generate([(x, v)])
    for st, res in ctx.explore(F_(), comp, max_paths=3):
        ctx.no_panic(st, res, what + ': witness generation')
        ctx.concrete(not st.c.left, what + ': every generator runs', {'waiting': str([g.tag for _, g in st.c.left])})
        st.c.check_complete(what)

def all4_ob(ctx, n):
    what = 'assert_all_base_4 of %d limbs' % n
    def sound(st):
        I, c = mk(ctx, st); xs = c.inputs(n); c.call('assert_all_base_4', sl(xs)); st.c, st.xs = c, xs
        c.assume_all()
    for st, res in ctx.explore(F_(), sound, max_paths=3):
        ctx.no_panic(st, res, what)
        for x in st.xs: intrange(ctx, st, st.c.value(x).p, what, 4)
    def comp(st):
        I, c = mk(ctx, st); xs = c.inputs(n); c.call('assert_all_base_4', sl(xs)); st.c = c
        c.generate([(x, bitval(st, I, 'b%d.' % i, 2)[0]) for i, x in enumerate(xs)])
    for st, res in ctx.explore(F_(), comp, max_paths=3):
        ctx.no_panic(st, res, what + ': witness generation')
        ctx.concrete(not st.c.left, what + ': every generator runs', {'waiting': str([g.tag for _, g in st.c.left])})
        st.c.check_complete(what)

# ---------------------------------------------------------------- deterministic square root
def sqrt_sound(ctx):
    what = 'deterministic_square_root'
    def run(st):
        I, c = mk(ctx, st); x = c.inputs(1)[0]; st.r = c.call(what, x); st.c, st.x = c, x
        c.assume_all()
    k = 0
    for st, res in ctx.explore(F_(), run, max_paths=3):
        ctx.no_panic(st, res, what); k += 1; c = st.c
        r, x = c.value(st.r).p, c.value(st.x).p
        ctx.zero(st, 'S', sub(mul(r, r), x), what + ': output squared is the input')
        w = intrange(ctx, st, r, what, 1 << 254)
        ctx.concrete(all(v % 2 == 0 for v in w.values()), what + ': the root is even', {'weights': str(sorted(w.values())[:4])})
    ctx.concrete(k > 0, what + ' is satisfiable')

def sqrt_comp(ctx, zero=False):
    what = 'deterministic_square_root'
    def run(st):
        def sqrt(I, T, a):
            ctx.concrete(not st.fs('S').norm(sub(m.dr(a[0]).p, st.xv.p)), 'square root of the input')
            return some(FE('S', st.fs('S').norm(scale(st.rv.p, -1 if st.choose(2) else 1))))
        I, c = mk(ctx, st, {'Field::square_root': sqrt, '*::square_root': sqrt, 'S::square_root': sqrt})
        st.rv, bs = bitval(st, I, 'b', 2 if zero else 254, 2 if zero else 1)
        if not zero: st.bitsof[P.key(st.fs('S').norm(P.neg(st.rv.p)))] = [True] + [SB('u', 'odd root bit %d' % i) for i in range(1, 256)]
        st.xv = FE('S', st.fs('S').norm(mul(st.rv.p, st.rv.p))); st.c = c
        x = c.inputs(1)[0]; st.r = c.call(what, x)
        c.generate([(x, st.xv)])
    k = 0
    for st, res in ctx.explore(F_(), run, max_paths=6):
        ctx.no_panic(st, res, what + ': witness generation'); k += 1; c = st.c
        ctx.concrete(not c.left, what + ': every generator runs', {'waiting': str([g.tag for _, g in c.left])})
        c.check_complete(what)
        ctx.zero(st, 'S', sub(c.gval(st.r).p, st.rv.p), what + ': the even root is generated')

def obligations(crates, tier):
    obs = []
    nd = 36 if tier == 'quick' else 127
    for n in range(0, nd + 1): obs.append(Ob('assert_dibit_length, %d dibits' % n, lambda ctx, n=n: dibit_ob(ctx, n)))
    if tier == 'quick':
        for n in (63, 64, 70, 126, 127): obs.append(Ob('assert_dibit_length, %d dibits' % n, lambda ctx, n=n: dibit_ob(ctx, n), timeout=120))
    for n in range(0, 15 if tier == 'quick' else 40): obs.append(Ob('assert_all_base_4, %d limbs' % n, lambda ctx, n=n: all4_ob(ctx, n)))
    for nb in (0, 1, 2, 7, 64, 65, 127, 128, 254, 255): obs.append(Ob('split_binary, %d bits' % nb, lambda ctx, n=nb: split_ob(ctx, 'split_binary', n, 0)))
    for n in (0, 1, 2, 31, 32, 33, 126, 127): obs.append(Ob('split_base_4, %d dibits' % n, lambda ctx, n=n: split_ob(ctx, 'split_base_4', 0, n)))
    for nb, n in ((0, 0), (1, 0), (0, 1), (1, 1), (2, 126), (3, 100), (253, 1), (1, 127)): obs.append(Ob('split_binary_and_base_4, %d bits and %d dibits' % (nb, n), lambda ctx, nb=nb, n=n: split_ob(ctx, 'split_binary_and_base_4', nb, n)))
    obs.append(Ob('deterministic_square_root: constraints', sqrt_sound, timeout=120))
    obs.append(Ob('deterministic_square_root: witness for nonzero squares', sqrt_comp, timeout=200))
    obs.append(Ob('deterministic_square_root: witness for zero', lambda ctx: sqrt_comp(ctx, True), timeout=120))
    return obs
