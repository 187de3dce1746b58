from contracts.formal import *
import engine.interp as interp
FUNCTIONS = ['curve_multiplication::to_digits', 'curve_msm::to_digits', 'ProjectivePoint::mul_precompute', 'ProjectivePoint::mul_with_precomputation', 'Mul<ProjectivePoint> for CurveScalar',
             'precompute_single_generator', 'msm_precompute', 'msm_parallel', 'msm_execute', 'msm_execute_parallel']
EXPLAIN = ('Scalars are symbolic: to_digits is interpreted on symbolic limbs and must return base-2^w digits whose weighted sum is the scalar. The bucket algorithms are interpreted over formal points with symbolic digits: '
           'digit i is sum_j j*e_ij for 0/1 atoms e_ij, bucket pushes become conditional elements, and the result must be sum_i digit_i * 2^(w i) * P identically in the atoms, that is for all scalars and points.')
ASSUMPTIONS = ['group operations and batched sums meet their contracts (C07, C08, C09)', 'to_canonical_u64_vec meets its contract (C03)', 'rayon par_iter/par_chunks evaluate like their sequential counterparts']
FI = lambda bits: {'F': FieldInfo('F'), 'S': FieldInfo('S', None, {'BITS': bits})}
MUL, MSM = 'curve-curve_multiplication-', 'curve-curve_msm-'

def digits_ob(ctx, key, bits, ws):
    for w in ws:
        def run(st):
            st.bits = [st.int_atom('b%d' % i, 0, 1).p for i in range(bits)] + [{}] * (-bits % 64)
            ls = [m.frombits(st.bits[i:i+64]) for i in range(0, len(st.bits), 64)]
            I = ctx.interp(st, over={'Field::to_canonical_u64_vec': lambda I, T, a: VecV(list(ls))}, **curve_cfg(Opaque('A'), Opaque('B'), consts={('S', 'BITS'): bits}))
            return own_body(I, key + 'to_digits', {'C': CURVE}, [Ref([Opaque('scalar')], 0)] + ([w] if key == MSM else []))
        rs = ctx.explore({'F': FieldInfo('F'), 'S': FieldInfo('S')}, run, max_paths=10)
        if not rs: raise Unsupported('no path')
        for st, res in rs:
            ctx.no_panic(st, res, 'to_digits w=%d' % w)
            e = {}
            ds = lst(res[1])
            if key == MUL: w = 4
            for i, d in enumerate(ds):
                e = P.add(e, P.scale(m.ip(d), 1 << (w*i)))
                ctx.checks += 1
                lo, hi = st.bounds(m.ip(d))
                if lo < 0 or hi >= 1 << w: ctx.ge0(st, P.sub(P.const((1 << w) - 1), m.ip(d)), 'digit %d below the base' % i); ctx.ge0(st, m.ip(d), 'digit %d not negative' % i)
            want = {}
            for i, b in enumerate(st.bits): want = P.add(want, P.scale(b, 1 << i))
            ctx.checks += 1
            df = P.sub(e, want)
            if df:
                a = min(P.atoms(df)); raise Refuted('to_digits (w=%d, %d bits): the digits do not recompose the scalar' % (w, bits), {'bit': st.aname(a)})
            if key == MSM: ctx.concrete(len(ds) == -(-bits // w), 'number of digits', {'w': w})

def scale_bits(bits): return dict(consts={('S', 'BITS'): bits})

def pre_ob(ctx, bits):
    def run(st):
        I = ctx.interp(st, over=group_over(), **curve_cfg(Opaque('A'), Opaque('B'), **scale_bits(bits)))
        return I.inherent(PPT, 'mul_precompute', [], [Ref([gbasis('P')], 0)])[0]
    for st, res in ctx.explore(FI(bits), run):
        ctx.no_panic(st, res, 'mul_precompute')
        l = lst(res[1].f[0])
        ctx.concrete(len(l) >= -(-bits // 4), 'a power for every digit', {'bits': bits, 'powers': len(l)})
        for i, x in enumerate(l): ctx.concrete(pt(x).d == {'P': P.const(16**i)}, 'power %d is [16^%d]P' % (i, i), {'got': repr(x)})

def pregen_ob(ctx, bits, w):
    def run(st):
        I = ctx.interp(st, over=group_over(), **curve_cfg(Opaque('A'), Opaque('B'), **scale_bits(bits)))
        l = [gbasis('P%d' % i) for i in range(2)]
        return own_body(I, MSM + 'msm_precompute', {'C': CURVE}, [SliceRef(l, 0, 2), w])
    for st, res in ctx.explore(FI(bits), run):
        ctx.no_panic(st, res, 'msm_precompute'); r = res[1]
        lists = [lst(x) for x in lst(r.f[0])]
        ctx.concrete(len(lists) == 2 and r.f[1] == w, 'tables of every generator', {'w': w})
        for k, l in enumerate(lists):
            ctx.concrete(len(l) >= -(-bits // w), 'a power for every digit', {'w': w})
            for i, x in enumerate(l): ctx.concrete(pt(x).d == {'P%d' % k: P.const(1 << (w*i))}, 'power %d is [2^(%d)]P%d' % (i, w*i, k), {'got': repr(x)})

class Dg(SI):
    """symbolic digit: sum_j j*e_j with exactly one e_j = 1 (e_0 = 1 - sum of the others)"""
    __slots__ = ('e',)
def dig(st, name, base):
    es = [st.int_atom('%s=%d' % (name, j), 0, 1).p for j in range(1, base)]
    p = {}; s = P.const(1)
    for j, e in enumerate(es): p = P.add(p, P.scale(e, j+1)); s = P.sub(s, e)
    d = Dg(p); d.e = [s] + es
    return d
class CInt(int):
    """index of a conditionally present element"""
def bitof(st):
    def f(b):
        p = b.a[0] if b.k == 'eq0' else None
        return None if p is None else st.digeq.get(P.key(p)) or st.digeq.get(P.key(P.neg(p)))
    return f

def exec_over(st, base):
    st.digeq = {}
    def reg(d):
        for j, e in enumerate(d.e): st.digeq[P.key(P.sub(d.p, P.const(j)))] = e
        return d
    st.reg = reg
    class Bk(VecV): pass
    def push(I, T, a):
        r = m.dr(a[0])
        if isinstance(r, A) and r.tag == 'buckets':
            v, d = r.f
            for j, b in enumerate(v.l):
                t = a[1]
                if not (isinstance(t, A) and all(m.conc(x) for x in t.f)): raise Unsupported('bucket element %r' % (t,))
                f = [CInt(t.f[0])] + list(t.f[1:]); f[0].cond = d.e[j]
                b.l.append(A(t.tag, t.var, f))
            return unit()
        return m.vec_method(I, 'push', a, [])
    def imut(I, T, a):
        v, i = m.dr(a[0]), a[1]
        if isinstance(i, Dg):
            if len(v.l) < base: raise Panic('index out of bounds: bucket')
            return Ref([A('buckets', None, [v, i])], 0)
        return NotImplemented
    def idx(I, T, a):
        i = a[1]
        if isinstance(i, Dg): return imut(I, T, a)
        if isinstance(i, CInt) and hasattr(i, 'cond'):
            v = m.dr(m.index(I, a[0], int(i)))
            return Ref([VecV([gscale(pt(x), i.cond) for x in lst(v)])], 0)
        return NotImplemented
    return {'Vec::push': push, 'IndexMut::index_mut': imut, 'Index::index': idx}

def vmerge(I, bit, t, f):
    if isinstance(t, VecV) and isinstance(f, VecV) and t is not f:
        k = 0
        while k < min(len(t.l), len(f.l)) and (t.l[k] is f.l[k] or isinstance(t.l[k], GPt) and isinstance(f.l[k], GPt) and geq(t.l[k], f.l[k])): k += 1
        one = P.const(1)
        if all(isinstance(x, GPt) for x in t.l[k:] + f.l[k:]):
            return VecV(t.l[:k] + [gscale(x, bit) for x in t.l[k:]] + [gscale(x, P.sub(one, bit)) for x in f.l[k:]])
    return gmerge(I, bit, t, f)

def residual(ctx, st, got, want, what):
    ctx.checks += 1
    for k in set(got.d) | set(want):
        d = P.sub(got.d.get(k, {}), want.get(k, {}))
        if d:
            for mo in d:
                on = {x for x, _ in mo}
                raise Refuted('%s: wrong multiple of %s' % (what, k), {'digits': [st.aname(x) for x in on], 'coefficient error': d[mo]})

def mulexec_ob(ctx, bits):
    """mul_with_precomputation over symbolic digits (contract of to_digits)"""
    n = -(-bits // 4); n = -(-n // 16) * 16
    def run(st):
        ex = exec_over(st, 16)
        ds = [st.reg(dig(st, 'd%d' % i, 16)) for i in range(n)]; st.ds = ds
        over = group_over(ex); over[MUL + 'to_digits'] = lambda I, T, a: VecV(list(ds))
        I = ctx.interp(st, over=over, merge=vmerge, asbit=bitof(st), **curve_cfg(Opaque('A'), Opaque('B'), **scale_bits(bits)))
        pc = A('MultiplicationPrecomputation', None, [VecV([GPt({'P': P.const(16**i)}, 'A') for i in range(n)])], (CURVE,))
        return I.inherent(PPT, 'mul_with_precomputation', [], [Ref([gbasis('P')], 0), Opaque('scalar'), pc])[0]
    for st, res in ctx.explore(FI(bits), run, max_paths=5):
        ctx.no_panic(st, res, 'mul_with_precomputation')
        want = {}
        for i, d in enumerate(st.ds): want = P.add(want, P.scale(d.p, 16**i))
        residual(ctx, st, pt(res[1]), {'P': want}, 'mul_with_precomputation')

def msmexec_ob(ctx, fn, bits, w, k):
    n = -(-bits // w)
    def run(st):
        ex = exec_over(st, 1 << w); st.ds = []
        def tod(I, T, a):
            j = m.dr(a[0]).d
            return VecV(list(st.ds[j]))
        st.ds = [[st.reg(dig(st, 'd%d.%d' % (j, i), 1 << w)) for i in range(n)] for j in range(k)]
        over = group_over(ex); over[MSM + 'to_digits'] = tod
        I = ctx.interp(st, over=over, merge=vmerge, asbit=bitof(st), **curve_cfg(Opaque('A'), Opaque('B'), **scale_bits(bits)))
        pc = A('MsmPrecomputation', None, [VecV([VecV([GPt({'P%d' % j: P.const(1 << (w*i))}, 'A') for i in range(n)]) for j in range(k)]), w], (CURVE,))
        return own_body(I, MSM + fn, {'C': CURVE}, [Ref([pc], 0), SliceRef([Opaque('scalar', j) for j in range(k)], 0, k)])
    rs = ctx.explore(FI(bits), run, max_paths=5)
    if not rs: raise Unsupported('no path')
    for st, res in rs:
        ctx.no_panic(st, res, fn)
        want = {}
        for j in range(k):
            s = {}
            for i, d in enumerate(st.ds[j]): s = P.add(s, P.scale(d.p, 1 << (w*i)))
            want['P%d' % j] = s
        residual(ctx, st, pt(res[1]), want, '%s (w=%d, %d scalars)' % (fn, w, k))

def glue_ob(ctx):
    """CurveScalar * P and msm_parallel compose the pieces above"""
    def run(st):
        over = group_over({'ProjectivePoint::mul_precompute': lambda I, T, a: tup('pre', m.dr(a[0])),
                           'ProjectivePoint::mul_with_precomputation': lambda I, T, a: tup('mul', m.dr(a[0]), m.dr(a[1]), m.dr(a[2])),
                           MSM + 'msm_precompute': lambda I, T, a: tup('mpre', a[0], a[1]), MSM + 'msm_execute_parallel': lambda I, T, a: tup('exec', m.dr(a[0]), a[1])})
        I = ctx.interp(st, over=over, **curve_cfg(Opaque('A'), Opaque('B')))
        s = Opaque('s'); p = gbasis('P')
        r1 = I.dispatch(('adt', 'curve::curve::CurveScalar', [CURVE]), 'Mul', [PPT], 'mul', [], [A('CurveScalar', None, [s], (CURVE,)), p])
        sc = SliceRef([s], 0, 1); ge = SliceRef([p], 0, 1)
        r2 = own_body(I, MSM + 'msm_parallel', {'C': CURVE}, [sc, ge, 5])
        return r1, r2, s, p
    for st, res in ctx.explore(FI(255), run):
        ctx.no_panic(st, res, 'composition'); r1, r2, s, p = res[1]
        if not (isinstance(r1, A) and r1.f and r1.f[0] == 'mul' and isinstance(r2, A) and r2.f and r2.f[0] == 'exec'): raise Unsupported('another composition')
        ctx.concrete(r1.f[1] is p and r1.f[2] is s and r1.f[3].f[1] is p, 's * P uses the table of P and the scalar s', {})
        ctx.concrete(r2.f[1].f[0] == 'mpre' and r2.f[1].f[2] == 5 and lst(r2.f[1].f[1])[0] is p and lst(r2.f[2])[0] is s, 'msm_parallel uses the tables of the generators and the scalars', {})

def obligations(crates, tier):
    WS = list(range(1, 21)) if tier == 'quick' else list(range(1, 41))
    obs = [Ob('CurveScalar * P and msm_parallel', glue_ob, soft=True)]
    for bits in (253, 255):
        obs.append(Ob('curve_multiplication::to_digits, %d-bit scalars' % bits, lambda ctx, b=bits: digits_ob(ctx, MUL, b, [4])))
        for i in range(4): obs.append(Ob('curve_msm::to_digits, %d-bit scalars, w = %s' % (bits, WS[i::4]), lambda ctx, b=bits, i=i: digits_ob(ctx, MSM, b, WS[i::4]), bounded='window sizes up to %d' % WS[-1]))
        obs.append(Ob('mul_precompute, %d-bit scalars' % bits, lambda ctx, b=bits: pre_ob(ctx, b)))
        obs.append(Ob('mul_with_precomputation, %d-bit scalars' % bits, lambda ctx, b=bits: mulexec_ob(ctx, b), timeout=200))
        for w in (1, 2, 3, 5, 8, 11, 17): obs.append(Ob('msm_precompute, %d-bit scalars, w = %d' % (bits, w), lambda ctx, b=bits, w=w: pregen_ob(ctx, b, w), bounded='window size %d, two generators' % w))
    for fn in ('msm_execute', 'msm_execute_parallel'):
        for w in (1, 2, 3, 4, 5) + ((6, 7) if tier != 'quick' else ()):
            for k in (0, 1, 2, 3):
                if (1 << w) * k > 64: continue
                obs.append(Ob('%s, w = %d, %d scalars' % (fn, w, k), lambda ctx, fn=fn, w=w, k=k: msmexec_ob(ctx, fn, 255, w, k), bounded='window size %d, %d scalars; all scalars and points' % (w, k), timeout=200))
        obs.append(Ob('%s, w = 8, 1 scalar' % fn, lambda ctx, fn=fn: msmexec_ob(ctx, fn, 24, 8, 1), bounded='window size 8, 24-bit scalar; several chunks of buckets', timeout=200))
    return obs
