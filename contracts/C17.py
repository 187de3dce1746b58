from contracts.circ import *
FUNCTIONS = ['Gate::evaluate_unfiltered, evaluate_unfiltered_recursively of the ten gates', 'Gate::evaluate_prefix_filter(_recursively)', 'Gate::evaluate_filtered(_recursively)', 'evaluate_all_constraints(_recursively)',
             'assert_binary_recursively', 'assert_inverses_recursively']
EXPLAIN = ('Both evaluations are interpreted on the same indeterminate constants and wires over an abstract field; in the recursive one each builder operation is replaced by its contract (C28: the value of the produced target). '
           'The two constraint lists must have the same length and agree entry by entry as polynomials.')
ASSUMPTIONS = ['builder operations meet their contracts (C28)', 'field operations meet their contracts (C01)', 'the MDS matrix is the one verified in C16', 'the field has characteristic larger than the small constants that occur']

def setup(ctx, st):
    I = ctx.interp(st, **circ_cfg(st, over=fe_builder()))
    return I, wires(st, 'c', NC), wires(st, 'l', NW), wires(st, 'r', NW), wires(st, 'b', NW)

def same(ctx, st, a, b, what):
    ctx.concrete(len(a) == len(b), '%s: as many constraints natively (%d) as recursively (%d)' % (what, len(a), len(b)), {})
    for i, (x, y) in enumerate(zip(a, b)): ctx.zero(st, 'S', P.sub(m.dr(x).p, m.dr(y).p), '%s: constraint %d, native minus recursive' % (what, i))

def gate_ob(ctx, g, fn):
    def run(st):
        I, k, l, r, b = setup(ctx, st)
        if fn == 'evaluate_prefix_filter':
            x = I.dispatch(gty(g), 'Gate', [OUT], fn, [], [sl(k)]); y = I.dispatch(gty(g), 'Gate', [OUT], fn + '_recursively', [], [Ref([Opaque('builder')], 0), sl(k)])
            return [x], [y]
        return gate_native(I, g, k, l, r, b, fn), gate_rec(I, g, k, l, r, b, fn + '_recursively')
    n = 0
    for st, res in ctx.explore(FLD(), run):
        ctx.no_panic(st, res, g); n += 1
        same(ctx, st, res[1][0], res[1][1], '%s::%s' % (g, fn))

def all_ob(ctx):
    def run(st):
        I, k, l, r, b = setup(ctx, st)
        e = {'C': OUT, 'InnerC': INN}
        x = own_body(I, 'gates-evaluate_all_constraints', e, [sl(k), sl(l), sl(r), sl(b)])
        y = own_body(I, 'gates-evaluate_all_constraints_recursively', e, [Ref([Opaque('builder')], 0), sl(k), sl(l), sl(r), sl(b)])
        # the sum over all ten gates of the filtered constraints
        want = []
        for g in GATES:
            cs = gate_native(I, g, k, l, r, b, 'evaluate_filtered')
            for i, c in enumerate(cs):
                if i == len(want): want.append({})
                want[i] = P.add(want[i], c.p)
        return lst(x), lst(y), [FE('S', w) for w in want]
    for st, res in ctx.explore(FLD(), run):
        ctx.no_panic(st, res, 'evaluate_all_constraints')
        x, y, w = res[1]
        same(ctx, st, x, y, 'evaluate_all_constraints')
        same(ctx, st, x, w, 'evaluate_all_constraints against the sum over all gate types')

def filt_ob(ctx, g):
    """evaluate_filtered is the prefix filter times evaluate_unfiltered"""
    def run(st):
        I, k, l, r, b = setup(ctx, st)
        f = I.dispatch(gty(g), 'Gate', [OUT], 'evaluate_prefix_filter', [], [sl(k)])
        return gate_native(I, g, k, l, r, b, 'evaluate_filtered'), [FE('S', P.mul(f.p, x.p)) for x in gate_native(I, g, k, l, r, b)]
    for st, res in ctx.explore(FLD(), run):
        ctx.no_panic(st, res, g); same(ctx, st, res[1][0], res[1][1], '%s::evaluate_filtered' % g)

def obligations(crates, tier):
    obs = []
    for g in GATES:
        for fn in ('evaluate_unfiltered', 'evaluate_prefix_filter', 'evaluate_filtered'):
            obs.append(Ob('%s::%s equals its recursive counterpart' % (g, fn), lambda ctx, g=g, fn=fn: gate_ob(ctx, g, fn)))
        obs.append(Ob('%s::evaluate_filtered is filter * unfiltered' % g, lambda ctx, g=g: filt_ob(ctx, g)))
    obs.append(Ob('evaluate_all_constraints equals evaluate_all_constraints_recursively and the sum over all gates', all_ob))
    return obs
