from contracts.circ import *
FUNCTIONS = ['WitnessGenerator::generate and dependencies of the gates', 'Gate::evaluate_unfiltered of the gates', 'PartialWitness::{new, set_wire, set_target, get_wire, get_target, contains_target}']
EXPLAIN = ('The generator is interpreted on a witness that holds exactly its declared dependencies, with indeterminate values (bits split into 0 and 1); the produced values are put into the local, right and below rows and every real '
           'constraint of the gate must vanish. Reading an undeclared wire shows as a panic of the witness lookup. The only admitted panics are the documented preconditions (equal x coordinates, y = 0).')
ASSUMPTIONS = ['field operations meet their contracts (C01, C02)', 'kth_root_u32(5) is the fifth root (C05)', 'affine addition of points with distinct x coordinates is the chord formula (its own real code is inlined)']
IDX = 7

def harness(ctx, g, bits=(), pre=None, okpanic=None, extra=(), empty_ok=False):
    """pre(st, w): assumptions on the inputs; okpanic(st, msg): panic allowed on this path"""
    n = [0]
    def run(st):
        I = ctx.interp(st, **circ_cfg(st)); st.I = I
        names = gty(g)
        self_ = A(g, None, [IDX, unit(), unit()][:1+GATES[g][1]], tuple(gty(g)[2]))
        deps = [tkey(x) for x in lst(I.dispatch(gty(g), 'WitnessGenerator', [SF], 'dependencies', [], [Ref([self_], 0)]))]
        W = kconst(I, 'GRID_WIDTH'); grid = {}; st.grid = grid; st.W = W
        for d in list(deps) + [('w', IDX, i) for i in extra]:
            if d[0] != 'w': raise Undischarged('dependency is not a wire: %r' % (d,))
            if d in grid: continue
            if d[1] == IDX and d[2] in bits: grid[d] = st.fconst('S', st.choose(2))
            else: grid[d] = st.fe('S', 'w%d.%d' % (d[1] - IDX, d[2]))
        st.w = lambda i, row=0: grid[('w', IDX+row, i)]
        if pre: pre(st)
        consts = wires(st, 'c', NC)
        rows = [VecV(wires(st, 'k%d' % i, NC)) for i in range(IDX)] + [VecV(consts)]
        mv = MapV()
        for k, v in grid.items(): t = twire(*k[1:]); mv.d[m.hkey(I, t)] = [t, v]
        pw = [A('PartialWitness', None, [mv], (SF,))]
        r = I.dispatch(gty(g), 'WitnessGenerator', [SF], 'generate', [], [Ref([self_], 0), sl(rows), Ref(pw, 0)])
        st.out = {}
        for e in r.f[0].d.values():
            k = tkey(e[0]); st.out[k] = e[1]
        full = dict(grid)
        for k, v in st.out.items():
            if k in full: st.conf = (k, full[k], v)
            full[k] = v
        def row(d): return [full.get(('w', IDX+d, i)) or st.fe('S', 'u%d.%d' % (d, i)) for i in range(NW)]
        return gate_native(I, g, consts, row(0), row(1), row(W))
    for st, res in ctx.explore(FLD(), run):
        if res[0] == 'panic' and okpanic and okpanic(st, res[1]): continue
        ctx.no_panic(st, res, '%s::generate on exactly its dependencies' % g); n[0] += 1
        if hasattr(st, 'conf'): ctx.zero(st, 'S', P.sub(st.conf[1].p, st.conf[2].p), '%s::generate overwrites an input wire' % g)
        if empty_ok and not st.out: ctx.concrete(True, 'the gate-level generator is documented to write nothing'); continue
        for i, c in enumerate(res[1]): ctx.zero(st, 'S', c.p, '%s: constraint %d under the generated witness' % (g, i))
    ctx.concrete(n[0] > 0, '%s::generate returns' % g)

def eqzero(f): 
    def g(st, msg): return st.fs('S').status(f(st)) == 'zero'
    return g
def dx_endo(st):
    z = st.I.trait_const('HaloCurve', 'ZETA', [INN]).p
    x = st.w(4).p
    if P.cval(st.w(7).p) == 1: x = P.mul(z, x)
    return P.sub(st.w(0).p, x)
def on_curve(st, ax, ay):
    """the wire pairs are points of the inner curve"""
    I = st.I; a = I.trait_const('Curve', 'A', [INN]).p; b = I.trait_const('Curve', 'B', [INN]).p
    x, y = st.w(ax).p, st.w(ay).p
    st.assume(SB('fz', 'S', P.sub(P.mul(y, y), P.add(P.add(P.pw(x, 3), P.mul(a, x)), b))), True)
def endo_pre(st):
    f = st.fs('S')
    f.assume_nonzero(dx_endo(st))

def pi_ob(ctx):
    """whatever subset of the advice wires is known, the known ones are copied and nothing else is written"""
    import itertools
    for mask in itertools.product((0, 1), repeat=3):
        def run(st):
            I = ctx.interp(st, **circ_cfg(st)); g = 'PublicInputGate'; self_ = A(g, None, [IDX, unit()], (OUT,))
            nr = kconst(I, 'NUM_ROUTED_WIRES'); mv = MapV(); st.v = {}
            for i, b in enumerate(mask):
                if b: t = twire(IDX, nr+i); v = st.fe('S', 'a%d' % i); mv.d[m.hkey(I, t)] = [t, v]; st.v[('w', IDX+1, i)] = v
            r = I.dispatch(gty(g), 'WitnessGenerator', [SF], 'generate', [], [Ref([self_], 0), sl([]), Ref([A('PartialWitness', None, [mv], (SF,))], 0)])
            return {tkey(e[0]): e[1] for e in r.f[0].d.values()}
        for st, res in ctx.explore(FLD(), run):
            ctx.no_panic(st, res, 'PublicInputGate::generate')
            ctx.concrete(set(res[1]) == set(st.v), 'exactly the known advice wires are copied', {'known': str(mask), 'written': str(sorted(res[1]))})
            for k in st.v: ctx.feq(st, res[1][k], st.v[k], 'advice wire copied to %r' % (k,))

def obligations(crates, tier):
    dbl0 = lambda st: st.w(1).p
    return [
        Ob('ArithmeticGate', lambda ctx: harness(ctx, 'ArithmeticGate')),
        Ob('ConstantGate', lambda ctx: harness(ctx, 'ConstantGate')),
        Ob('CurveAddGate', lambda ctx: harness(ctx, 'CurveAddGate', (6,), okpanic=eqzero(lambda st: P.sub(st.w(0).p, st.w(4).p)))),
        Ob('CurveDblGate', lambda ctx: harness(ctx, 'CurveDblGate', okpanic=eqzero(lambda st: st.w(1).p))),
        Ob('CurveEndoGate', lambda ctx: harness(ctx, 'CurveEndoGate', (6, 7), pre=endo_pre)),
        Ob('RescueStepAGate', lambda ctx: harness(ctx, 'RescueStepAGate')),
        Ob('RescueStepBGate', lambda ctx: harness(ctx, 'RescueStepBGate')),
        Ob('BufferGate', lambda ctx: harness(ctx, 'BufferGate')),
        Ob('Base4SumGate', lambda ctx: harness(ctx, 'Base4SumGate', empty_ok=True)),
        Ob('PublicInputGate', pi_ob)]
