from contracts.common import *
FUNCTIONS = ['Ord::cmp / PartialOrd::partial_cmp of the six fields', 'Field::cmp_helper', 'Field::num_bits']
EXPLAIN = 'cmp_helper and num_bits are interpreted over arbitrary canonical limbs (to_canonical_u64_vec is used through its C03 contract) and compared with the order and bit length of the integer value.'
X = ('absfield', 'X')

def cmp_ob(ctx, n):
    def run(st):
        a, b = limbs(st, 'a', n), limbs(st, 'b', n); st.a, st.b = a, b
        def enc(I, T, args): return VecV(list(a if m.dr(args[0]).what == 'a' else b))
        I = ctx.interp(st, over={'Field::to_canonical_u64_vec': enc})
        return trait_default(I, 'Field', 'cmp_helper', X, [Ref([Opaque('a')], 0), Ref([Opaque('b')], 0)])
    for st, res in ctx.explore({'X': FieldInfo('X')}, run):
        ctx.no_panic(st, res, 'cmp_helper')
        d = P.sub(val(st.a), val(st.b)); v = res[1].var
        if v == 'Less': ctx.ge0(st, P.sub(P.neg(d), P.const(1)), 'Less')
        elif v == 'Greater': ctx.ge0(st, P.sub(d, P.const(1)), 'Greater')
        else: ctx.ge0(st, d, 'Equal'); ctx.ge0(st, P.neg(d), 'Equal')

def impl_ob(ctx, f):
    T = fty(f)
    for tr, nm in (('Ord', 'cmp'), ('PartialOrd', 'partial_cmp')):
        def run(st):
            a, b = A(f, None, [Opaque('a')]), A(f, None, [Opaque('b')])
            mark = ordering(1); st.calls = []
            def h(I, Ts, args):
                st.calls.append([m.dr(z).f[0].what for z in args]); return mark
            st.mark = mark
            I = ctx.interp(st, over={'Field::cmp_helper': h})
            return I.dispatch(T, tr, [T] if tr == 'PartialOrd' else [], nm, [], [Ref([a], 0), Ref([b], 0)])
        for st, res in ctx.explore({}, run):
            ctx.no_panic(st, res, nm)
            r = res[1]
            if nm == 'partial_cmp':
                ctx.concrete(r.var == 'Some', 'partial_cmp is Some'); r = r.f[0]
            if not st.calls: raise Unsupported('%s does not use cmp_helper' % nm)
            ctx.concrete(st.calls == [['a', 'b']] and r.var == 'Greater', '%s of %s is cmp_helper(self, other)' % (nm, f), {'calls': str(st.calls)})

def bits_ob(ctx, n):
    def run(st):
        a = limbs(st, 'a', n); st.a = a
        I = ctx.interp(st, over={'Field::to_canonical_u64_vec': lambda I, T, args: VecV(list(a))})
        return trait_default(I, 'Field', 'num_bits', X, [Ref([Opaque('a')], 0)])
    for st, res in ctx.explore({'X': FieldInfo('X')}, run):
        ctx.no_panic(st, res, 'num_bits'); k = int(res[1]); v = val(st.a)
        ctx.ge0(st, P.sub(P.const((1 << k) - 1), v), 'value < 2^num_bits')
        if k: ctx.ge0(st, P.sub(v, P.const(1 << (k-1))), 'value >= 2^(num_bits-1)')

def obligations(crates, tier):
    obs = []
    for n in (4, 6):
        obs.append(Ob('Field::cmp_helper n=%d' % n, lambda ctx, n=n: cmp_ob(ctx, n)))
        obs.append(Ob('Field::num_bits n=%d' % n, lambda ctx, n=n: bits_ob(ctx, n)))
    for f in FIELDS: obs.append(Ob('%s::cmp' % f, lambda ctx, f=f: impl_ob(ctx, f)))
    return obs
