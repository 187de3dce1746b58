from contracts.circ import *
FUNCTIONS = ['Gate::PREFIX and evaluate_prefix_filter of the ten gates', 'Gate::evaluate_filtered', 'evaluate_all_constraints', 'CircuitBuilder::{add_gate, add_gate_no_constants, num_gates}',
             'CircuitBuilder::{add, sub, mul, mul_add, mul_sub, constant_wire, rescue_permutation} (the rows they configure)', 'Base4SumGate, BufferGate, PublicInputGate constructors']
EXPLAIN = ('The real add_gate is run for every gate type and every admitted number of configuration constants, which are indeterminates. On the row it leaves behind the filter of that gate must be 1 and every other filter 0 '
           '(as polynomials, so for all constants), evaluate_all_constraints must reduce to the constraints of that gate alone for all wire values, the row must have NUM_CONSTANTS entries with the configuration unclipped, '
           'and the total degree of every filtered constraint in constants and wires must not exceed the quotient degree bound plus one.')
ASSUMPTIONS = ['field operations meet their contracts (C01)', 'the MDS matrix is the one verified in C16']
NCFG = {'ArithmeticGate': 2, 'ConstantGate': 1, 'RescueStepAGate': 4, 'RescueStepBGate': 4}

def gobj(g, i): return A(g, None, [i, unit(), unit()][:1+GATES[g][1]], tuple(gty(g)[2]))

def row_of(ctx, st, g, n):
    I = ctx.interp(st, **circ_cfg(st)); c = Circ(ctx, st, I); st.I = I
    cs = [st.fe('S', 'cfg%d' % i) for i in range(n)]
    c.call('add_gate', gobj(g, 0), VecV(list(cs)), margs=[gty(g)])
    return I, c.rows()[-1], cs

def sel_ob(ctx, g):
    def run(st):
        n = st.choose(NC + 1); st.n = n
        pl = len(prefix(ctx.interp(st, **circ_cfg(st)), g))
        if pl + n > NC: return None
        I, row, cs = row_of(ctx, st, g, n)
        return row, cs, {h: I.dispatch(gty(h), 'Gate', [OUT], 'evaluate_prefix_filter', [], [sl(row)]) for h in GATES}, len(prefix(I, g)), kconst(I, 'NUM_CONSTANTS')
    seen = set()
    for st, res in ctx.explore(FLD(), run):
        ctx.no_panic(st, res, 'add_gate(%s) with %d constants' % (g, st.n))
        if res[1] is None: continue
        row, cs, fl, pl, nc = res[1]; seen.add(st.n)
        ctx.concrete(len(row) == nc, 'the row has NUM_CONSTANTS entries', {'entries': str(len(row))})
        for i, c in enumerate(cs): ctx.feq(st, row[pl+i], c, 'configuration constant %d follows the prefix' % i)
        for h in GATES:
            ctx.zero(st, 'S', P.sub(fl[h].p, P.const(1 if h == g else 0)), 'filter of %s on a %s row with %d constants' % (h, g, st.n))
    ctx.concrete(NCFG.get(g, 0) in seen, '%s has room for its %d configuration constants' % (g, NCFG.get(g, 0)), {'prefix': 'too long'})

def only_ob(ctx, g):
    def run(st):
        I, row, cs = row_of(ctx, st, g, NCFG.get(g, 0))
        l, r, b = wires(st, 'l', NW), wires(st, 'r', NW), wires(st, 'b', NW)
        return lst(own_body(I, 'gates-evaluate_all_constraints', {'C': OUT, 'InnerC': INN}, [sl(row), sl(l), sl(r), sl(b)])), gate_native(I, g, row, l, r, b)
    for st, res in ctx.explore(FLD(), run):
        ctx.no_panic(st, res, 'evaluate_all_constraints on a %s row' % g); x, y = res[1]
        ctx.concrete(len(x) >= len(y), 'no constraint of %s is dropped' % g, {'unified': str(len(x)), 'gate': str(len(y))})
        for i, p in enumerate(x): ctx.zero(st, 'S', P.sub(p.p, y[i].p if i < len(y) else {}), 'unified constraint %d on a %s row' % (i, g))

def degree_ob(ctx, g):
    def run(st):
        I = ctx.interp(st, **circ_cfg(st))
        k, l, r, b = wires(st, 'c', NC), wires(st, 'l', NW), wires(st, 'r', NW), wires(st, 'b', NW)
        st.var = {next(iter(P.atoms(x.p))) for y in (k, l, r, b) for x in y}
        return gate_native(I, g, k, l, r, b, 'evaluate_filtered'), kconst(I, 'QUOTIENT_POLYNOMIAL_DEGREE_MULTIPLIER')
    for st, res in ctx.explore(FLD(), run):
        ctx.no_panic(st, res, g); cs, q = res[1]
        for i, c in enumerate(cs):
            d = max([sum(e for a, e in mono if a in st.var) for mono in c.p] or [0])
            ctx.concrete(d <= q + 1, 'degree of filtered constraint %d of %s within %d' % (i, g, q + 1), {'degree': str(d)})

# the rows the builder really configures
def build_ob(ctx, fn, g, mk, want):
    def run(st):
        I = ctx.interp(st, **circ_cfg(st)); c = Circ(ctx, st, I); st.I = I
        mk(c, st)
        return [(c.row_gate(r), r) for r in c.rows()], kconst(I, 'NUM_CONSTANTS'), {h: len(prefix(I, h)) for h in GATES}
    for st, res in ctx.explore(FLD(), run):
        ctx.no_panic(st, res, fn); rows, nc, pl = res[1]
        for gs, r in rows:
            ctx.concrete(len(gs) == 1, '%s: row selects exactly one gate' % fn, {'gates': str(gs)})
            ctx.concrete(len(r) == nc, '%s: row width' % fn)
        ctx.concrete(any(gs[0] == g for gs, r in rows), '%s configures a %s' % (fn, g), {'rows': str([x[0] for x in rows])})

def obligations(crates, tier):
    obs = []
    for g in GATES:
        obs.append(Ob('%s row selects %s only' % (g, g), lambda ctx, g=g: sel_ob(ctx, g)))
        obs.append(Ob('unified constraints on a %s row' % g, lambda ctx, g=g: only_ob(ctx, g)))
        obs.append(Ob('%s degree budget' % g, lambda ctx, g=g: degree_ob(ctx, g)))
    two = lambda f: lambda c, st: c.call(f, *c.inputs(2))
    three = lambda f: lambda c, st: c.call(f, *c.inputs(3))
    for f in ('add', 'sub', 'mul'): obs.append(Ob('rows of CircuitBuilder::' + f, lambda ctx, f=f: build_ob(ctx, f, 'ArithmeticGate', two(f), None)))
    for f in ('mul_add', 'mul_sub'): obs.append(Ob('rows of CircuitBuilder::' + f, lambda ctx, f=f: build_ob(ctx, f, 'ArithmeticGate', three(f), None)))
    obs.append(Ob('rows of CircuitBuilder::constant_wire', lambda ctx: build_ob(ctx, 'constant_wire', 'ConstantGate', lambda c, st: c.call('constant_wire', st.fconst('S', 7)), None)))
    return obs
