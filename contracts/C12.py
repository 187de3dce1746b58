from contracts.polys import *
FUNCTIONS = ['fft_precompute', 'fft', 'fft_with_precomputation', 'fft_with_precomputation_power_of_2', 'ifft_with_precomputation_power_of_2', 'reverse_index_bits', 'reverse_bits', 'FftPrecomputation::size', 'Field::cyclic_subgroup_known_order', 'util::log2_ceil', 'util::log2_strict']
EXPLAIN = ('The transforms run with indeterminate coefficients and an indeterminate primitive root w (only w^(n/2) = -1 is known), so one run at a size covers every vector of that size over every field with such a root. '
           'Entry j of the forward transform must equal sum_i c_i w^(ij), and evaluating the output of the inverse transform at w^j must give point j, identically. Bit reversal is proved for every index at every width.')
ASSUMPTIONS = ['field operations meet their contracts (C01, C02)', 'primitive_root_of_unity meets its contract (C05)', 'rayon par_chunks/flat_map/collect evaluate in order like their sequential counterparts',
               'layer loops are unrolled: sizes above the stated bound are not covered by an obligation (the replay contracts run larger ones)']
LEVEL = 'other'
K = lambda I, env={}: {'F': F}

def ev(st, cs, j, k):
    r = {}
    for i, c in enumerate(cs): r = P.add(r, st.fs('F').norm(P.mul(c.p if isinstance(c, FE) else c, wpow(st, i*j, k).p)))
    return r

def forward_ob(ctx, fn, k, n):
    setup, over = roots(k)
    def run(st):
        setup(st); cs = coefs(st, 'c', n); st.cs = cs
        I = ctx.interp(st, over=over)
        if fn == 'fft': return own_body(I, 'fft-fft', {'F': F}, [sl(cs)])
        pre = own_body(I, 'fft-fft_precompute', {'F': F}, [1 << k if n == 1 << k else n])
        st.size = I.inherent(('adt', 'fft::FftPrecomputation', [F]), 'size', [], [Ref([pre], 0)])[0]
        return own_body(I, 'fft-' + fn, {'F': F}, [sl(cs), Ref([pre], 0)])
    for st, res in ctx.explore({'F': FieldInfo('F')}, run):
        ctx.no_panic(st, res, '%s of %d coefficients' % (fn, n)); out = lst(res[1])
        ctx.concrete(len(out) == 1 << k, '%s of %d coefficients returns %d values' % (fn, n, 1 << k), {'got': str(len(out))})
        if hasattr(st, 'size'): ctx.concrete(st.size == 1 << k, 'size of the precomputation', {'got': str(st.size)})
        for j, o in enumerate(out): ctx.zero(st, 'F', P.sub(st.fs('F').norm(o.p), ev(st, st.cs, j, k)), '%s(%d coefficients): value %d is the evaluation at w^%d' % (fn, n, j, j))

def inverse_ob(ctx, k):
    setup, over = roots(k); n = 1 << k
    def run(st):
        setup(st); cs = coefs(st, 'y', n); st.cs = cs
        I = ctx.interp(st, over=over)
        pre = own_body(I, 'fft-fft_precompute', {'F': F}, [n])
        return own_body(I, 'fft-ifft_with_precomputation_power_of_2', {'F': F}, [sl(cs), Ref([pre], 0)])
    for st, res in ctx.explore({'F': FieldInfo('F')}, run):
        ctx.no_panic(st, res, 'ifft of %d points' % n); out = lst(res[1])
        ctx.concrete(len(out) == n, 'ifft returns as many coefficients', {'got': str(len(out))})
        for j in range(n): ctx.zero(st, 'F', P.sub(ev(st, out, j, k), st.cs[j].p), 'ifft(%d points): the result takes value %d at w^%d' % (n, j, j))

def bits_ob(ctx, w):
    def run(st):
        st.b = [st.int_atom('b%d' % i, 0, 1).p for i in range(w)]
        I = ctx.interp(st)
        return own_body(I, 'fft-reverse_bits', {}, [m.frombits(st.b + [{}]*(64-w)), w])
    for st, res in ctx.explore({}, run):
        ctx.no_panic(st, res, 'reverse_bits'); e = {}
        for i in range(w): e = P.add(e, P.scale(st.b[w-1-i], 1 << i))
        d = P.sub(m.ip(res[1]), e)
        if d: raise Refuted('reverse_bits on %d bits' % w, {'bit': st.aname(min(P.atoms(d)))})
        ctx.checks += 1

def index_ob(ctx, k):
    def run(st):
        I = ctx.interp(st); l = [Opaque('x%d' % i) for i in range(1 << k)]; st.l = l
        return own_body(I, 'fft-reverse_index_bits', {'T': F}, [VecV(list(l))])
    for st, res in ctx.explore({'F': FieldInfo('F')}, run):
        ctx.no_panic(st, res, 'reverse_index_bits'); o = lst(res[1])
        want = [int(format(i, '0%db' % k)[::-1], 2) if k else 0 for i in range(1 << k)]
        ctx.concrete(len(o) == 1 << k and all(o[i] is st.l[want[i]] for i in range(1 << k)), 'entry i comes from the reversed index', {'length': str(1 << k)})

def sub_ob(ctx, n):
    def run(st):
        g = st.fe('F', 'g'); st.g = g
        return trait_default(ctx.interp(st), 'Field', 'cyclic_subgroup_known_order', F, [g, n])
    for st, res in ctx.explore({'F': FieldInfo('F')}, run):
        ctx.no_panic(st, res, 'cyclic_subgroup_known_order'); o = lst(res[1])
        ctx.concrete(len(o) == n, 'as many elements as the order', {'got': str(len(o))})
        for i, x in enumerate(o): ctx.zero(st, 'F', P.sub(x.p, P.pw(st.g.p, i) if i else P.const(1)), 'element %d is the %d-th power' % (i, i))

def obligations(crates, tier):
    top = 6 if tier == 'quick' else 7
    obs = [Ob('reverse_bits on %d bits' % w, lambda ctx, w=w: bits_ob(ctx, w)) for w in (0, 1, 2, 3, 4, 5, 7, 8, 13, 16, 31, 33, 48, 63)]
    obs += [Ob('reverse_index_bits of 2^%d elements' % k, lambda ctx, k=k: index_ob(ctx, k), bounded='lengths up to 2^7') for k in range(0, 8)]
    obs += [Ob('cyclic_subgroup_known_order(g, %d)' % n, lambda ctx, n=n: sub_ob(ctx, n), bounded='orders up to 64') for n in (1, 2, 3, 4, 5, 16, 64)]
    b = 'sizes up to 2^%d' % top
    for k in range(0, top + 1):
        obs.append(Ob('fft_with_precomputation_power_of_2 at size 2^%d' % k, lambda ctx, k=k: forward_ob(ctx, 'fft_with_precomputation_power_of_2', k, 1 << k), bounded=b, timeout=200))
        obs.append(Ob('ifft at size 2^%d' % k, lambda ctx, k=k: inverse_ob(ctx, k), bounded=b, timeout=300))
    for n in [1, 2, 3, 4, 5, 6, 7, 8, 9, 13, 16] + ([17, 31, 33, 50] if tier != 'quick' else []):
        k = (n-1).bit_length()
        obs.append(Ob('fft_with_precomputation of %d coefficients' % n, lambda ctx, k=k, n=n: forward_ob(ctx, 'fft_with_precomputation', k, n), bounded=b, timeout=200))
    for k in range(0, 5):
        obs.append(Ob('fft of %d coefficients' % (1 << k), lambda ctx, k=k: forward_ob(ctx, 'fft', k, 1 << k), bounded=b))
    for n in (3, 5, 11): obs.append(Ob('fft of %d coefficients' % n, lambda ctx, n=n: forward_ob(ctx, 'fft', (n-1).bit_length(), n), bounded=b))
    return obs
