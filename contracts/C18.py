from contracts.circ import *
FUNCTIONS = ['Gate::evaluate_unfiltered of the ten gates', 'mds_matrix (by contract, C16)']
EXPLAIN = ('The real evaluate_unfiltered is interpreted on indeterminate constants and wires; assuming that all its constraints vanish, the relation the gate stands for is derived on every path (binary wires are split, '
           'inverse wires give invertibility). The relation is stated from the property, not from the list of constraints.')
ASSUMPTIONS = ['field operations meet their contracts (C01)', 'x -> x^5 is injective on the field (C04: gcd(5, p - 1) = 1)', 'the field has characteristic larger than the small constants that occur']

def rel(ctx, st, p, what): ctx.zero(st, 'S', p, what)
sub, mul, add, scale, const = P.sub, P.mul, P.add, P.scale, P.const

def harness(ctx, g, relation, split=()):
    """split: wires to be settled first through the constraints that mention only them"""
    def run(st):
        I = ctx.interp(st, **circ_cfg(st))
        k, l, r, b = wires(st, 'c', NC), wires(st, 'l', NW), wires(st, 'r', NW), wires(st, 'b', NW)
        st.w = [[x.p for x in y] for y in (k, l, r, b)]; st.I = I; st.pl = len(prefix(I, g))
        st.i = lambda n: int(I.const_by_path(GATES[g][0] + '::' + n, []))
        st.cs = [x.p for x in gate_native(I, g, k, l, r, b)]
        st.z = I.trait_const('HaloCurve', 'ZETA', [INN]).p; st.A = I.trait_const('Curve', 'A', [INN]).p
        for at in split:
            a = next(iter(P.atoms(st.w[1][at])))
            for c in st.cs:
                if P.atoms(st.fs('S').norm(c)) == {a}: st.assume(SB('fz', 'S', c), True)
        assume_constraints(st, st.cs)
        st.n = lambda p: st.fs('S').norm(p)
    n = 0
    for st, res in ctx.explore(FLD(), run):
        ctx.no_panic(st, res, g); relation(ctx, st, *st.w); n += 1
    ctx.concrete(n > 0, 'the constraints of %s are satisfiable' % g)

def arithmetic(ctx, st, k, l, r, b):
    n = st.pl
    rel(ctx, st, sub(l[3], add(mul(mul(k[n], l[0]), l[1]), mul(k[n+1], l[2]))), 'output = c0*m0*m1 + c1*addend')
def constant(ctx, st, k, l, r, b): rel(ctx, st, sub(l[0], k[st.pl]), 'output = constant')
def public_input(ctx, st, k, l, r, b):
    for i in range(3): rel(ctx, st, sub(l[6+i], r[i]), 'advice wire %d is copied to the buffer row' % i)
def binary(ctx, st, p, what):
    q = st.n(p); ctx.concrete(P.isconst(q) and P.cval(q) in (0, 1), what + ' is binary', {'wire value': P.show(q, st.aname)})
    return P.cval(q)
def inverse(st, ctx, p, what):
    ctx.fnonzero(st, 'S', p, what); return st.fs('S').inverse(p)
def curve_add(ctx, st, k, l, r, b):
    x1, y1, so, sn, x2, y2, bit = l[:7]; x4, y4 = r[:2]
    t = binary(ctx, st, bit, 'the scalar bit')
    rel(ctx, st, sub(sn, add(scale(so, 2), const(t))), 'new accumulator = 2*old + bit')
    if not t: rel(ctx, st, sub(x4, x1), 'bit 0 keeps x'); rel(ctx, st, sub(y4, y1), 'bit 0 keeps y'); return
    lam = mul(sub(y1, y2), inverse(st, ctx, sub(x1, x2), 'distinct x coordinates'))
    rel(ctx, st, sub(x4, sub(sub(mul(lam, lam), x1), x2)), 'x of the sum'); rel(ctx, st, sub(y4, sub(mul(lam, sub(x1, x4)), y1)), 'y of the sum')
def curve_dbl(ctx, st, k, l, r, b):
    x, y, xn, yn = l[:4]
    lam = mul(add(scale(mul(x, x), 3), st.A), inverse(st, ctx, scale(y, 2), 'y is not zero'))
    rel(ctx, st, sub(xn, sub(mul(lam, lam), scale(x, 2))), 'x of the double'); rel(ctx, st, sub(yn, sub(mul(lam, sub(x, xn)), y)), 'y of the double')
def curve_endo(ctx, st, k, l, r, b):
    x1, y1, uo, so, xi, yi, b0, b1 = l[:8]; x3, y3 = r[:2]; un, sn = b[2], b[3]
    t0 = binary(ctx, st, b0, 'bit 0'); t1 = binary(ctx, st, b1, 'bit 1')
    x2 = mul(st.z, xi) if t1 else xi; y2 = yi if t0 else P.neg(yi)
    lam = mul(sub(y1, y2), inverse(st, ctx, sub(x1, x2), 'distinct x coordinates'))
    rel(ctx, st, sub(x3, sub(sub(mul(lam, lam), x1), x2)), 'x of the sum'); rel(ctx, st, sub(y3, sub(mul(lam, sub(x1, x3)), y1)), 'y of the sum')
    rel(ctx, st, sub(un, add(scale(uo, 4), const(2*t1 + t0))), 'unsigned accumulator = 4*old + 2*bit1 + bit0')
    limb = scale(st.z if t1 else const(1), 1 if t0 else -1)
    rel(ctx, st, sub(sn, add(scale(so, 2), limb)), 'signed accumulator = 2*old + signed limb')
def base4_sum(ctx, st, k, l, r, b):
    acc = l[0]
    for i in range(2, NW): acc = add(scale(acc, 4), l[i])
    rel(ctx, st, sub(l[1], acc), 'acc_new = weighted sum of acc_old and the limbs')
def base4_limb(i):
    def f(ctx, st, k, l, r, b):
        q = st.n(l[i]); ctx.concrete(P.isconst(q) and P.cval(q) in (0, 1, 2, 3), 'limb %d is in {0,1,2,3}' % (i-2), {'limb': P.show(q, st.aname)})
    return f
def base4_lin(ctx):
    """only the linear constraint is assumed"""
    def run(st):
        I = ctx.interp(st, **circ_cfg(st)); l = wires(st, 'l', NW); st.l = [x.p for x in l]
        cs = gate_native(I, 'Base4SumGate', wires(st, 'c', NC), l, wires(st, 'r', NW), wires(st, 'b', NW))
        assume_constraints(st, [c.p for c in cs if any(P.degree_in(c.p, next(iter(P.atoms(x.p)))) == 1 for x in l[:2])])
    for st, res in ctx.explore(FLD(), run): ctx.no_panic(st, res, 'Base4SumGate'); base4_sum(ctx, st, None, st.l, None, None)
def base4_limb_ob(ctx, i):
    """the constraints on one limb leave exactly 0, 1, 2, 3"""
    seen = set()
    def run(st):
        I = ctx.interp(st, **circ_cfg(st)); l = wires(st, 'l', NW); st.l = [x.p for x in l]
        a = next(iter(P.atoms(l[i].p)))
        for c in gate_native(I, 'Base4SumGate', wires(st, 'c', NC), l, wires(st, 'r', NW), wires(st, 'b', NW)):
            if P.atoms(c.p) == {a}: st.assume(SB('fz', 'S', c.p), True)
        return st.fs('S').norm(l[i].p)
    for st, res in ctx.explore(FLD(), run):
        ctx.no_panic(st, res, 'Base4SumGate'); q = res[1]
        ctx.concrete(P.isconst(q) and P.cval(q) in (0, 1, 2, 3), 'limb %d is in {0,1,2,3}' % (i-2), {'limb': P.show(q, st.aname)}); seen.add(P.cval(q))
    ctx.concrete(seen == {0, 1, 2, 3}, 'every base-4 digit is admitted', {'admitted': str(sorted(seen))})
def mdsrow(st, i, v):
    f = st.fs('S'); r = {}
    for j in range(4): r = add(r, mul(f.inverse(const(4 + i - j)), v[j]))
    return r
def pw5(st, p): return st.n(P.pw(p, 5))
def rescue_a(ctx, st, k, l, r, b):
    for i in range(4):
        rel(ctx, st, sub(pw5(st, l[4+i]), l[i]), 'root %d is the fifth root of its input' % i)
        rel(ctx, st, sub(r[i], add(k[st.pl+i], mdsrow(st, i, l[4:8]))), 'output %d = constant + MDS row * roots' % i)
def rescue_b(ctx, st, k, l, r, b):
    f5 = [pw5(st, x) for x in l[:4]]
    for i in range(4): rel(ctx, st, sub(r[i], add(k[st.pl+i], mdsrow(st, i, f5))), 'output %d = constant + MDS row * fifth powers' % i)
def buffer_ob(ctx):
    def run(st):
        I = ctx.interp(st, **circ_cfg(st))
        return gate_native(I, 'BufferGate', *[wires(st, c, n) for c, n in (('c', NC), ('l', NW), ('r', NW), ('b', NW))])
    for st, res in ctx.explore(FLD(), run):
        ctx.no_panic(st, res, 'BufferGate')
        for c in res[1]: ctx.zero(st, 'S', c.p, 'a buffer gate constrains nothing')
        ctx.checks += 1
def wire_layout(ctx):
    """the wire numbers used in the relations are those of the code"""
    def run(st):
        I = ctx.interp(st, **circ_cfg(st)); c = lambda g, n: int(I.const_by_path(GATES[g][0] + '::' + n, []))
        return c
    # numbers are read through the observable behaviour above; only the global widths matter here
    def run2(st):
        I = ctx.interp(st, **circ_cfg(st)); return [kconst(I, n) for n in ('NUM_WIRES', 'NUM_ROUTED_WIRES', 'NUM_ADVICE_WIRES', 'NUM_CONSTANTS', 'GRID_WIDTH')]
    for st, res in ctx.explore(FLD(), run2):
        nw, nr, na, nc, gw = res[1]
        ctx.concrete(nw == NW and nr == 6 and na == nw - nr and nc == NC, 'grid constants: 9 wires, 6 routed, 6 constants', {'NUM_WIRES': nw, 'NUM_ROUTED_WIRES': nr, 'NUM_CONSTANTS': nc})

def obligations(crates, tier):
    obs = [Ob('%s: constraints imply the relation' % g, lambda ctx, g=g, f=f, sp=sp: harness(ctx, g, f, sp)) for g, f, sp in (
        ('ArithmeticGate', arithmetic, ()), ('ConstantGate', constant, ()), ('PublicInputGate', public_input, ()), ('CurveAddGate', curve_add, (6,)), ('CurveDblGate', curve_dbl, ()),
        ('CurveEndoGate', curve_endo, (6, 7)), ('RescueStepAGate', rescue_a, ()), ('RescueStepBGate', rescue_b, ()))]
    obs.append(Ob('Base4SumGate: weighted sum', base4_lin))
    for i in range(2, NW): obs.append(Ob('Base4SumGate: limb %d is a base-4 digit' % (i-2), lambda ctx, i=i: base4_limb_ob(ctx, i)))
    obs.append(Ob('BufferGate: no constraint', buffer_ob)); obs.append(Ob('grid constants', wire_layout))
    return obs
