from contracts.circ import *
FUNCTIONS = ['CircuitBuilder::{add, sub, mul, mul_add, mul_sub, neg, double, square, add_many, mul_many, inv, div, exp_constant, exp_constant_usize, not, select, is_zero, is_nonzero, is_equal, is_not_equal}',
             'CircuitBuilder::{assert_zero, assert_one, assert_binary, assert_nonzero, copy, conditional_copy, constant_wire(s), constant_wire_u32, zero_wire, one_wire, two_wire, neg_one_wire, create_constant_wire, add_gate}',
             'WitnessGenerator of ArithmeticGate, ConstantGate, IsZeroGenerator, InverseGenerator, ConstantGenerator', 'Gate::evaluate_unfiltered of ArithmeticGate and ConstantGate']
EXPLAIN = ('The real gadget is interpreted on a real CircuitBuilder; the rows, copy constraints and generators it leaves are the circuit. Soundness: every class of routable targets gets an indeterminate value, all real gate constraints '
           'are assumed, and the output is proved equal to the stated function of the inputs, for all field elements. Completeness: the real generators run on indeterminate inputs until nothing changes and every constraint and copy must hold on what they produced. '
           'Argument aliasing (same target twice, zero/one wires, constants) is enumerated.')
ASSUMPTIONS = ['copy constraints are enforced by the permutation argument (C21, C34)', 'field operations meet their contracts (C01, C02, C05, C06)', 'list lengths and constant exponents are enumerated up to the stated bound; each is proved for all field values']
sub, mul, add, scale, const = P.sub, P.mul, P.add, P.scale, P.const

def argset(c, kinds):
    """x = fresh input, x0/x1.. = the same fresh input, 0/1/2/-1 = the cached constant wire"""
    out = []; shared = {}
    for k in kinds:
        if k == 'x': out.append(c.inputs(1)[0])
        elif k[0] == 's': out.append(shared.setdefault(k, None) or shared.update({k: c.inputs(1)[0]}) or shared[k])
        elif k == '0': out.append(c.call('zero_wire'))
        elif k == '1': out.append(c.call('one_wire'))
        elif k == '2': out.append(c.call('two_wire'))
        elif k == '-1': out.append(c.call('neg_one_wire'))
    return out

def build(ctx, st, fn, kinds, conv=None, cfg=None):
    I = ctx.interp(st, **circ_cfg(st, **(cfg or {}))); c = Circ(ctx, st, I); st.I = I
    xs = argset(c, kinds)
    out = c.call(fn, *(conv(xs, st) if conv else xs))
    return c, xs, out

def outs(o):
    o = m.dr(o)
    if isinstance(o, (VecV, SliceRef)): return lst(o)
    if isinstance(o, A) and o.tag == '()' : return list(o.f)
    return [o]

def gadget(ctx, fn, kinds, spec, pre=None, conv=None, asserts=None, sat=None, cfg=None, fld=None, what=None):
    """spec(st, inputs as polynomials) -> list of output polynomials; pre(st, inputs): assumptions on the inputs (both directions);
    asserts(ctx, st, inputs): what the constraints must imply; sat(st, inputs): extra assumption under which a witness must exist"""
    what = what or '%s(%s)' % (fn, ', '.join(kinds)); n = [0, 0]
    def sound(st):
        st.c, st.xs, st.o = build(ctx, st, fn, kinds, conv, cfg)
        c = st.c; c.classes(); c.vals = {}
        c.find = c.classes()
        st.pre = pre
        # the inputs are assigned first so that preconditions can be assumed on them
        for t in st.xs: c.value(t)
        if pre: pre(st, [c.value(t).p for t in st.xs])
        c.assume_all_keep()
    for st, res in ctx.explore(fld() if fld else FLD(), sound):
        ctx.no_panic(st, res, what + ': building and evaluating'); n[0] += 1
        iv = [st.c.value(t).p for t in st.xs]
        if spec:
            want = spec(st, iv); got = outs(st.o)
            ctx.concrete(len(got) == len(want), what + ': number of outputs')
            for i, (g, w) in enumerate(zip(got, want)): ctx.zero(st, 'S', sub(st.c.value(g).p, w), '%s: output %d is forced to the stated function' % (what, i))
        if asserts: asserts(ctx, st, iv)
    ctx.concrete(n[0] > 0, what + ': constraints are satisfiable')
    def comp(st):
        st.c, st.xs, st.o = build(ctx, st, fn, kinds, conv, cfg)
        c = st.c; iv = []; given = []; st.given = {}
        known = {}
        for t, k in zip(st.xs, kinds):
            if k in ('0', '1', '2', '-1'): iv.append(const(int(k)))
            else:
                kk = tkey(t)
                if kk not in known: known[kk] = st.fe('S', 'in%d' % len(known)); given.append((t, known[kk]))
                iv.append(known[kk].p)
        if pre: pre(st, iv)
        if sat: sat(st, iv)
        st.iv = iv
        c.generate(given)
    for st, res in ctx.explore(fld() if fld else FLD(), comp):
        ctx.no_panic(st, res, what + ': witness generation'); n[1] += 1
        c = st.c
        ctx.concrete(not c.left, what + ': every generator runs', {'waiting': str([g.tag for _, g in c.left])})
        c.check_complete(what)
        if spec:
            iv = [st.fs('S').norm(p) for p in st.iv]
            for i, (g, w) in enumerate(zip(outs(st.o), spec(st, iv))): ctx.zero(st, 'S', sub(c.gval(g).p, w), '%s: generated output %d' % (what, i))
    ctx.concrete(n[1] > 0, what + ': some witness is generated')

def inv_(st, p): return st.fs('S').inverse(p)
def iszero(st, p):
    s = st.fs('S').status(p)
    if s == 'zero': return const(1)
    if s == 'nonzero': return {}
    raise Undischarged('is_zero of undecided %s' % P.show(p, st.aname))
def decide(*idx):
    def pre(st, iv):
        for f in idx: st.decide(SB('fz', 'S', f(iv)))
    return pre
def nz(f): return lambda st, iv: st.fs('S').assume_nonzero(f(iv))
def bit(i):
    def pre(st, iv): st.assume(SB('fz', 'S', sub(mul(iv[i], iv[i]), iv[i])), True)
    return pre
def pz(f): return lambda st, iv: st.assume(SB('fz', 'S', f(iv)), True)

E0 = lambda iv: iv[0]
def obligations(crates, tier):
    obs = []
    def ob(fn, kinds, spec, note='', **kw):
        if isinstance(kinds, str): kinds = kinds.split()
        nm = '%s(%s)%s' % (fn, ', '.join(kinds), note)
        obs.append(Ob(nm, lambda ctx: gadget(ctx, fn, kinds, spec, what=nm, **kw)))
    s1 = lambda f: lambda st, iv: [f(*iv)]
    pairs = ['x x', 's s', 'x 0', '0 x', 'x 1', '1 x', '0 0', '1 1', '0 1', '1 0', '2 -1']
    for p in pairs:
        ob('add', p, s1(add)); ob('sub', p, s1(sub)); ob('mul', p, s1(mul))
    for f, g in (('mul_add', lambda x, y, z: add(mul(x, y), z)), ('mul_sub', lambda x, y, z: sub(mul(x, y), z))):
        for p in ('x x x', 's s s', 's s x', 'x s s', 's x s', 'x 1 0', '0 x 1', '1 1 1', '2 2 -1'): ob(f, p, s1(g))
    for p in ('x', '0', '1', '-1'):
        ob('neg', p, s1(P.neg)); ob('double', p, s1(lambda x: scale(x, 2))); ob('square', p, s1(lambda x: mul(x, x))); ob('not', p, s1(lambda x: sub(const(1), x)))
    for p in ('x', '1', '-1', '2'): ob('inv', p, lambda st, iv: [inv_(st, iv[0])], sat=nz(E0), asserts=lambda ctx, st, iv: ctx.fnonzero(st, 'S', iv[0], 'inv: the constraints force an invertible input'))
    for p in ('x x', 's s', 'x 1', '1 x', '0 x', 'x 2'):
        ob('div', p, lambda st, iv: [mul(iv[0], inv_(st, iv[1]))], sat=nz(lambda iv: iv[1]), asserts=lambda ctx, st, iv: ctx.fnonzero(st, 'S', iv[1], 'div: the constraints force an invertible divisor'))
    ob('assert_nonzero', 'x', None, sat=nz(E0), asserts=lambda ctx, st, iv: ctx.fnonzero(st, 'S', iv[0], 'assert_nonzero'))
    ob('assert_zero', 'x', None, sat=pz(E0), asserts=lambda ctx, st, iv: ctx.zero(st, 'S', iv[0], 'assert_zero'))
    ob('assert_one', 'x', None, sat=pz(lambda iv: sub(iv[0], const(1))), asserts=lambda ctx, st, iv: ctx.zero(st, 'S', sub(iv[0], const(1)), 'assert_one'))
    ob('assert_binary', 'x', None, sat=bit(0), asserts=lambda ctx, st, iv: ctx.zero(st, 'S', sub(mul(iv[0], iv[0]), iv[0]), 'assert_binary'))
    ob('copy', 'x x', None, sat=pz(lambda iv: sub(iv[0], iv[1])), asserts=lambda ctx, st, iv: ctx.zero(st, 'S', sub(iv[0], iv[1]), 'copy'))
    ob('conditional_copy', 'x x x', None, sat=lambda st, iv: st.assume(SB('fz', 'S', sub(iv[1], iv[2])), True) if not st.decide(SB('fz', 'S', iv[0])) else None,
       asserts=lambda ctx, st, iv: ctx.zero(st, 'S', mul(iv[0], sub(iv[1], iv[2])), 'conditional_copy: equal unless the condition is zero'))
    for p in ('x', '0', '1'):
        ob('is_zero', p, lambda st, iv: [iszero(st, iv[0])], pre=decide(E0))
        ob('is_nonzero', p, lambda st, iv: [sub(const(1), iszero(st, iv[0]))], pre=decide(E0))
    for p in ('x x', 's s', 'x 0', '0 x', 'x 1'):
        d = lambda iv: sub(iv[0], iv[1])
        ob('is_equal', p, lambda st, iv: [iszero(st, d(iv))], pre=decide(d))
        ob('is_not_equal', p, lambda st, iv: [sub(const(1), iszero(st, d(iv)))], pre=decide(d))
    for p in ('x x x', 'x s s', 's s x', 's x s', 'x 0 1', 'x x 0', '0 x x', '1 x x'):
        ob('select', p, lambda st, iv: [add(mul(iv[0], iv[1]), mul(sub(const(1), iv[0]), iv[2]))], pre=bit(0))
    nmax = 6 if tier == 'quick' else 16
    vec = lambda xs, st: [sl(xs)]
    def tot(st, iv):
        r = {}
        for p in iv: r = add(r, p)
        return [r]
    def prod(st, iv):
        r = const(1)
        for p in iv: r = mul(r, p)
        return [r]
    for n in range(nmax+1):
        for f, g in (('add_many', tot), ('mul_many', prod)): ob(f, ['x']*n, g, conv=vec)
    for ks in (['s']*3, ['x', '0', 'x'], ['x', '1', 'x'], ['0', '0'], ['1', '1', 'x']):
        for f, g in (('add_many', tot), ('mul_many', prod)): ob(f, ks, g, conv=vec)
    ks = list(range(0, 20)) + [31, 32, 33, 63, 64, 255] if tier == 'quick' else list(range(0, 130)) + [255, 256, 1023]
    for k in ks:
        if k <= 64 or tier == 'thorough':
            ob('exp_constant', 'x', (lambda k: lambda st, iv: [P.pw(iv[0], k)])(k), note=' power %d' % k, conv=(lambda k: lambda xs, st: [xs[0], st.fconst('S', k)])(k), cfg=powcfg(k))
            ob('exp_constant_usize', 'x', (lambda k: lambda st, iv: [P.pw(iv[0], k)])(k), note=' power %d' % k, conv=(lambda k: lambda xs, st: [xs[0], k])(k), cfg=powcfg(k))
    # long exponents: every bit position of every limb
    for k in ([(1 << 64) + 1, (1 << 128) - 1, 1 << 254, (1 << 255) - 19]):
        obs.append(Ob('exp_constant power %#x' % k, lambda ctx, k=k: bigexp(ctx, k)))
    for c in (0, 1, 2, 7, -1):
        obs.append(Ob('constant_wire(%d)' % c, lambda ctx, c=c: constw(ctx, c)))
    obs.append(Ob('constant_wires are shared exactly for equal constants', constshare))
    return obs

def powcfg(k):
    """contracts of the canonical encoding of the constant exponent (C03, C06)"""
    def limbs_(I, T, a):
        c = m.fconstval(I, m.dr(a[0])); c = int(c)
        return VecV([(c >> (64*i)) & (2**64-1) for i in range(4)])
    return dict(over={'Field::to_canonical_u64_vec': limbs_, 'Field::num_bits': lambda I, T, a: int(m.fconstval(I, m.dr(a[0]))).bit_length()})

def bigexp(ctx, k):
    """the value of every wire is tracked as an exponent of the input: the multiplications are replaced by their contract"""
    def run(st):
        over = dict(powcfg(k)['over'])
        B = 'CircuitBuilder::'
        ex = lambda t: m.dr(t).d
        over[B+'mul'] = lambda I, T, a: Opaque('pow', ex(a[1]) + ex(a[2]))
        over[B+'square'] = lambda I, T, a: Opaque('pow', 2*ex(a[1]))
        over[B+'one_wire'] = lambda I, T, a: Opaque('pow', 0)
        I = ctx.interp(st, **circ_cfg(st, over=over)); c = Circ(ctx, st, I)
        return c.call('exp_constant', Opaque('pow', 1), st.fconst('S', k))
    for st, res in ctx.explore(FLD(), run):
        ctx.no_panic(st, res, 'exp_constant')
        ctx.concrete(m.dr(res[1]).d == k, 'exp_constant(x, %#x) is x to that power' % k, {'exponent computed': hex(m.dr(res[1]).d)})

def constw(ctx, c):
    def run(st):
        I = ctx.interp(st, **circ_cfg(st)); b = Circ(ctx, st, I)
        outs_ = [b.call('constant_wire', st.fconst('S', c))]
        if c >= 0: outs_.append(b.call('constant_wire_u32', c))
        nm = {0: 'zero_wire', 1: 'one_wire', 2: 'two_wire', -1: 'neg_one_wire'}.get(c)
        if nm: outs_.append(b.call(nm))
        outs_ += lst(b.call('constant_wires', sl([st.fconst('S', 5), st.fconst('S', c)])))[1:]
        g = Circ(ctx, st, I); g.b = b.b; g.generate([]); st.g = g
        b.assume_all(); st.b = b
        return outs_
    for st, res in ctx.explore(FLD(), run):
        ctx.no_panic(st, res, 'constant_wire')
        for t in res[1]:
            ctx.zero(st, 'S', sub(st.b.value(t).p, const(c)), 'constant wire is forced to %d' % c)
            ctx.zero(st, 'S', sub(st.g.gval(t).p, const(c)), 'constant wire is generated as %d' % c)

def constshare(ctx):
    def run(st):
        I = ctx.interp(st, **circ_cfg(st)); b = Circ(ctx, st, I)
        cs = [3, 5, 3, 0, 1, 5, 0]; ts = [b.call('constant_wire', st.fconst('S', c)) for c in cs]
        b.assume_all(); st.b = b; st.cs = cs
        return ts
    for st, res in ctx.explore(FLD(), run):
        ctx.no_panic(st, res, 'constant_wire')
        for t, c in zip(res[1], st.cs): ctx.zero(st, 'S', sub(st.b.value(t).p, const(c)), 'constant wire is forced to %d' % c)
