from contracts.common import *
FUNCTIONS = ['bigint::cmp', 'bigint::add_no_overflow', 'bigint::sub', 'bigint::mul2', 'Add/Sub/Mul/Neg/PartialEq impls of the six fields', 'Field::{square,cube,double,triple,quadruple,is_zero,is_one,is_nonzero,inner_product,add_slices,scale_slice}',
             'MontyRepr::{monty_add,monty_sub,monty_neg,monty_multiply,monty_square}', 'Bls12377{Base,Scalar}::montgomery_multiply', 'Field::{ZERO,ONE,TWO,THREE,FOUR,FIVE,NEG_ONE}']
EXPLAIN = ('Every operator impl is interpreted on limbs that are arbitrary 64-bit integers with value below the order. Postcondition: the result, read through the Montgomery map x -> x*R^-1, '
           'is congruent to the mathematical result, and it lies in [0, order); no panic path is feasible (debug assertions and overflow checks included). bigint::cmp is replaced by its contract at call sites and verified separately. Trait default bodies are verified over an abstract field.')
ASSUMPTIONS = []

def helper_obs(obs):
    for n in (4, 6):
        nn = ('const', ('int', n, ('prim', 'usize')))
        def cmp_ob(ctx, n=n, nn=nn):
            def run(st):
                I = ctx.interp(st); a, b = limbs(st, 'a', n), limbs(st, 'b', n)
                r = own_body(I, 'bigint-bigint_arithmetic-cmp', {'N': nn}, [Arr(list(a)), Arr(list(b))])
                st.a, st.b = a, b
                return r
            for st, res in ctx.explore({}, run):
                ctx.no_panic(st, res, 'cmp')
                d = P.sub(val(st.a), val(st.b)); v = res[1].var
                if v == 'Less': ctx.ge0(st, P.sub(P.neg(d), P.const(1)), 'cmp Less')
                elif v == 'Greater': ctx.ge0(st, P.sub(d, P.const(1)), 'cmp Greater')
                else: ctx.ge0(st, d, 'cmp Equal'); ctx.ge0(st, P.neg(d), 'cmp Equal')
        obs.append(Ob('bigint::cmp<%d>' % n, cmp_ob))
        def lin(ctx, fn, n, nn):
            def run(st):
                I = ctx.interp(st); a, b = limbs(st, 'a', n), limbs(st, 'b', n)
                M = (1 << (64*n)) - 1
                if fn == 'add_no_overflow': st.add_con('ge0', P.sub(P.const(M), P.add(val(a), val(b))))
                elif fn == 'sub': st.add_con('ge0', P.sub(val(a), val(b)))
                elif fn == 'mul2': st.add_con('ge0', P.sub(P.const(M // 2), val(a)))
                r = own_body(I, 'bigint-bigint_arithmetic-' + fn, {'N': nn}, [Arr(list(a))] + ([Arr(list(b))] if fn in ('add_no_overflow', 'sub') else []))
                st.a, st.b = a, b
                return r
            for st, res in ctx.explore({}, run):
                ctx.no_panic(st, res, fn)
                a, b, r = val(st.a), val(st.b), val(res[1].l)
                w = {'add_no_overflow': P.add(a, b), 'sub': P.sub(a, b), 'mul2': P.scale(a, 2)}.get(fn)
                if fn == 'div2':
                    d = P.sub(a, P.scale(r, 2))        # 0 <= a - 2r <= 1
                    d = st.expand(d) if not P.isconst(d) else d
                    ctx.ge0(st, P.sub(a, P.scale(r, 2)), fn); ctx.ge0(st, P.sub(P.const(1), P.sub(a, P.scale(r, 2))), fn)
                else:
                    ctx.ge0(st, P.sub(r, w), fn); ctx.ge0(st, P.sub(w, r), fn)
        for fn in ('add_no_overflow', 'sub', 'mul2', 'div2'):
            obs.append(Ob('bigint::%s<%d>' % (fn, n), lambda ctx, fn=fn, n=n, nn=nn: lin(ctx, fn, n, nn)))

def op_ob(ctx, fname, trait, name, spec, nargs, mont=False):
    path, n, p = FIELDS[fname]; T = fty(fname)
    def run(st):
        I = ctx.interp(st, over=dict(LIMB_CONTRACTS))
        xs = [symelem(st, I, c, fname) for c in 'ab'[:nargs]]
        st.xs = [val(x.f[0].l) for x in xs]
        args = xs if trait in ('Add', 'Sub', 'Mul', 'Neg') else [Ref([x], 0) for x in xs]
        return I.dispatch(T, trait, [T] if trait in ('Add', 'Sub', 'Mul') else [], name, [], args)
    for st, res in ctx.explore({}, run):
        ctx.no_panic(st, res, '%s::%s' % (fname, name))
        if res[0] != 'ok': continue
        r = val(res[1].f[0].l)
        R = 1 << (64*n)
        want, k = spec(st.xs)              # result * R^k == want  (k = number of Montgomery products)
        congruent(ctx, st, P.scale(r, R**k % p), want, p, '%s::%s' % (fname, name))
        ctx.ge0(st, r, 'nonnegative'); ctx.ge0(st, P.sub(P.const(p-1), r), '%s::%s below the order' % (fname, name))

def obligations(crates, tier):
    obs = []
    helper_obs(obs)
    C = crates[0]
    for f, (path, n, p) in FIELDS.items():
        def add(name, trait, fn, spec, na, f=f, t=300):
            obs.append(Ob('%s::%s' % (f, name), lambda ctx: op_ob(ctx, f, trait, fn, spec, na), timeout=t))
        add('mul', 'Mul', 'mul', lambda x: (P.mul(x[0], x[1]), 1), 2)
        add('square', 'Field', 'square', lambda x: (P.mul(x[0], x[0]), 1), 1)
        add('add', 'Add', 'add', lambda x: (P.add(x[0], x[1]), 0), 2)
        add('sub', 'Sub', 'sub', lambda x: (P.sub(x[0], x[1]), 0), 2)
        add('neg', 'Neg', 'neg', lambda x: (P.neg(x[0]), 0), 1)
        # overridden multiples are verified on limbs; the others are the trait defaults, verified over an abstract field
        for nm, k in (('double', 2), ('triple', 3), ('quadruple', 4)):
            if any(im.trait and im.trait[0] == 'Field' and C.head(im.selfty) == f and nm in im.items for im in C.by_trait['Field']):
                add(nm, 'Field', nm, lambda x, k=k: (P.scale(x[0], k), 0), 1)
        def consts(ctx, f=f, n=n, p=p):
            def run(st):
                I = ctx.interp(st); T = fty(f)
                return {k: ival_of(I.trait_const('Field', k, [T]).f[0].l) for k in ('ZERO', 'ONE', 'TWO', 'THREE', 'FOUR', 'FIVE', 'NEG_ONE')}
            (st, res), = ctx.explore({}, run)
            R = 1 << (64*n)
            for k, w in (('ZERO', 0), ('ONE', 1), ('TWO', 2), ('THREE', 3), ('FOUR', 4), ('FIVE', 5), ('NEG_ONE', p-1)):
                ctx.concrete(res[1][k] == w * R % p, '%s::%s' % (f, k), {'value': hex(res[1][k])})
        obs.append(Ob('%s::constants' % f, consts))
        def eq(ctx, f=f, n=n, p=p):
            for which in ('eq', 'is_zero', 'is_nonzero', 'is_one'):
                def run(st):
                    I = ctx.interp(st, over=dict(LIMB_CONTRACTS)); T = fty(f)
                    a, b = symelem(st, I, 'a', f), symelem(st, I, 'b', f)
                    st.al = list(a.f[0].l); w = {'is_one': (1 << (64*n)) % p}.get(which, 0)
                    st.bl = [m.ip(x) for x in b.f[0].l] if which == 'eq' else [P.const(w >> (64*i) & (2**64-1)) for i in range(n)]
                    st.d = P.sub(val(a.f[0].l), {'eq': val(b.f[0].l), 'is_one': P.const((1 << (64*n)) % p)}.get(which, {}))
                    r = I.dispatch(T, 'PartialEq', [T], 'eq', [], [Ref([a], 0), Ref([b], 0)]) if which == 'eq' else I.dispatch(T, 'Field', [], which, [], [Ref([a], 0)])
                    return st.decide(r)
                for st, res in ctx.explore({}, run):
                    ctx.no_panic(st, res, which)
                    same = res[1] if which != 'is_nonzero' else not res[1]
                    if same: ctx.ge0(st, st.d, which); ctx.ge0(st, P.neg(st.d), which)
                    else:
                        # unequal answer: some limb difference is decided nonzero on this path, and limb representations are unique
                        ctx.checks += 1
                        ds = [P.sub(m.ip(x), y) for x, y in zip(st.al, st.bl)]
                        if not any(b.k == 'eq0' and v is False and any(b.a[0] in (d, P.neg(d)) for d in ds) for b, v in st.trace):
                            raise Unsupported('%s: unequal answer does not follow from a limb difference' % which)
        obs.append(Ob('%s::equality tests' % f, eq))
    # trait default bodies over an abstract field
    def dflt(ctx, nm, k, mulk):
        def run(st):
            I = ctx.interp(st); x = st.fe('F', 'x'); st.x = x
            return trait_default(I, 'Field', nm, F, [Ref([x], 0)])
        for st, res in ctx.explore(absfield(crates), run):
            ctx.no_panic(st, res, nm)
            ctx.zero(st, 'F', P.sub(res[1].p, P.scale(P.pw(st.x.p, k), mulk)), 'Field::%s' % nm)
    for nm, k, c in (('square', 2, 1), ('cube', 3, 1), ('double', 1, 2), ('triple', 1, 3), ('quadruple', 1, 4)):
        obs.append(Ob('Field::%s default' % nm, lambda ctx, nm=nm, k=k, c=c: dflt(ctx, nm, k, c)))
    for n in range(0, 7 if tier == 'quick' else 17):
        def lists(ctx, n=n):
            for nm in ('inner_product', 'add_slices', 'scale_slice'):
                def run(st):
                    I = ctx.interp(st); a = [st.fe('F', 'a%d' % i) for i in range(n)]; b = [st.fe('F', 'b%d' % i) for i in range(n)]; s = st.fe('F', 's')
                    st.a, st.b, st.s_ = a, b, s
                    if nm == 'scale_slice': return trait_default(I, 'Field', nm, F, [Ref([s], 0), SliceRef(list(a), 0, n)])
                    return trait_default(I, 'Field', nm, F, [SliceRef(list(a), 0, n), SliceRef(list(b), 0, n)])
                for st, res in ctx.explore(absfield(crates), run):
                    ctx.no_panic(st, res, nm)
                    if nm == 'inner_product':
                        w = {}
                        for x, y in zip(st.a, st.b): w = P.add(w, P.mul(x.p, y.p))
                        ctx.zero(st, 'F', P.sub(res[1].p, w), nm)
                    else:
                        l = lst(res[1]); ctx.concrete(len(l) == n, nm + ' length', {'n': n, 'got': len(l)})
                        for i in range(n):
                            ctx.zero(st, 'F', P.sub(l[i].p, P.add(st.a[i].p, st.b[i].p) if nm == 'add_slices' else P.mul(st.a[i].p, st.s_.p)), nm)
        obs.append(Ob('Field::lists n=%d' % n, lists, bounded='list length %d, all element values' % n))
    return obs
