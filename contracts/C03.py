from contracts.common import *
FUNCTIONS = ['{six fields}::{to_canonical,from_canonical}', 'Field::{to_canonical_u64_vec,from_canonical_u64_vec,from_canonical_u64,is_valid_canonical_u64} of the six fields', 'Field::{to_canonical_u32_vec,to_canonical_u8_vec,to_canonical_bool_vec,from_canonical_u8_vec,from_canonical_u32_vec,from_canonical_u32,from_canonical_usize,from_canonical_bool,try_convert}',
             'conversions::{field_to_biguint,biguint_to_field,u64_slice_to_biguint}']
EXPLAIN = ('to_canonical/from_canonical are interpreted on arbitrary limbs and shown to be multiplication by R^-1 / R modulo the order with a result below the order; '
           'the word, byte and bit encodings are interpreted over arbitrary 64-bit limbs and shown to be the base-2^w digits of the same integer; decoding is shown to return Ok exactly for the right length and a value below the order.')
X = ('absfield', 'X')

def canon_ob(ctx, fname):
    path, n, p = FIELDS[fname]; T = fty(fname); R = 1 << (64*n)
    for meth in ('to_canonical_u64_vec', 'from_canonical_u64_vec', 'from_canonical_u64', 'to_canonical', 'from_canonical'):
        def run(st):
            I = ctx.interp(st, over=dict(LIMB_CONTRACTS))
            a = symelem(st, I, 'a', fname); l = a.f[0].l; st.l = list(l)
            if meth == 'from_canonical_u64':
                st.l = l[:1]; return I.dispatch(T, 'Field', [], meth, [], [l[0]]).f[0].l
            if meth == 'from_canonical_u64_vec': return I.dispatch(T, 'Field', [], meth, [], [VecV(list(l))]).f[0].l
            if meth == 'to_canonical_u64_vec': return lst(I.dispatch(T, 'Field', [], meth, [], [Ref([a], 0)]))
            r = I.inherent(T, meth, [], [Ref([a], 0)] if meth == 'to_canonical' else [Arr(list(l))])
            if r is None: raise Unsupported('lost anchor ' + meth)
            return r[0].l if meth == 'to_canonical' else r[0].f[0].l
        for st, res in ctx.explore({}, run):
            ctx.no_panic(st, res, meth); r = val(res[1])
            ctx.concrete(len(res[1]) == n, 'number of limbs')
            if meth.startswith('to'): congruent(ctx, st, P.scale(r, R), val(st.l), p, meth)
            else: congruent(ctx, st, P.scale(r, R), P.scale(val(st.l), R*R % p), p, meth)
            ctx.ge0(st, r, meth); ctx.ge0(st, P.sub(P.const(p-1), r), meth + ' below the order')

def valid_ob(ctx, fname):
    path, n, p = FIELDS[fname]; T = fty(fname)
    for k in range(0, 2*n+2):
        def run(st):
            I = ctx.interp(st, over=dict(LIMB_CONTRACTS))
            l = limbs(st, 'v', k); st.l = list(l)
            return st.decide(I.dispatch(T, 'Field', [], 'is_valid_canonical_u64', [], [SliceRef(l, 0, k)]))
        for st, res in ctx.explore({}, run):
            ctx.no_panic(st, res, 'is_valid_canonical_u64')
            if k != n: ctx.concrete(res[1] is False, 'length %d is rejected' % k, {'length': k}); continue
            d = P.sub(P.const(p-1), val(st.l))
            ctx.ge0(st, d if res[1] else P.sub(P.neg(d), P.const(1)), 'is_valid_canonical_u64 = (value < order)')

def enc_ob(ctx, n):
    for meth, w in (('to_canonical_u32_vec', 32), ('to_canonical_u8_vec', 8), ('to_canonical_bool_vec', 1)):
        def run(st):
            # limbs as sums of 8-bit (1-bit) digits
            l = [st.bitint('l%d' % i, 64) for i in range(n)]; st.l = l
            I = ctx.interp(st, over={'Field::to_canonical_u64_vec': lambda I, T, a: VecV(list(l))})
            return lst(trait_default(I, 'Field', meth, X, [Ref([Opaque('x')], 0)]))
        for st, res in ctx.explore({'X': FieldInfo('X')}, run):
            ctx.no_panic(st, res, meth); r = res[1]
            ctx.concrete(len(r) == 64*n//w, meth + ' length', {'len': len(r)})
            for i, x in enumerate(r):
                bits = sum((y.bits for y in st.l), [])[i*w:(i+1)*w]
                want = {}
                for j, b in enumerate(bits): want = P.add(want, P.scale(b, 1 << j))
                if w == 1:
                    got = x.a[0] if isinstance(x, SB) and x.k == 'b01' else None
                    if got is None:
                        for t in (0, 1):
                            pass
                        tv = x
                        ok_ = isinstance(x, SB) and x.k == 'not' and isinstance(x.a[0], SB) and x.a[0].k == 'eq0' and x.a[0].a[0] in (want, P.neg(want))
                        ctx.checks += 1
                        if not ok_: raise Undischarged('%s bit %d: %r' % (meth, i, x))
                    else:
                        ctx.checks += 1
                        if got != want: raise Undischarged('%s bit %d' % (meth, i))
                else:
                    ctx.checks += 1
                    if P.sub(m.ip(x), want): raise Undischarged('%s word %d is not digit %d' % (meth, i, i))

def dec_ob(ctx, nbytes):
    def run(st):
        bs = [st.bitint('b%d' % i, 8) for i in range(nbytes)]
        rec = {}
        def isv(I, T, a):
            rec['v'] = list(m.items(a[0])); rec['ok'] = bool(st.choose(2)); return rec['ok']
        def fc(I, T, a): rec['f'] = list(lst(a[0])); return Opaque('el')
        I = ctx.interp(st, over={'Field::is_valid_canonical_u64': isv, 'Field::from_canonical_u64_vec': fc})
        st.rec = rec; st.bs = bs
        return trait_default(I, 'Field', 'from_canonical_u8_vec', X, [VecV(list(bs))])
    for st, res in ctx.explore({'X': FieldInfo('X')}, run):
        ctx.no_panic(st, res, 'from_canonical_u8_vec of %d bytes' % nbytes)
        r = res[1]; rec = st.rec
        if nbytes % 8:
            # not a whole number of limbs: never a canonical encoding
            if 'v' not in rec: ctx.concrete(r.var == 'Err', 'partial limb is rejected', {'bytes': nbytes}); continue
            ctx.concrete(r.var == 'Err' or len(rec['v'])*8 == nbytes, 'partial limb is rejected', {'bytes': nbytes}); continue
        if 'v' not in rec:
            ctx.concrete(r.var == 'Err' and nbytes not in (32, 48), 'bytes decoded without the range test'); continue
        ctx.concrete((r.var == 'Ok') == rec['ok'], 'Ok exactly when the value is in range')
        for which in ('v',) + (('f',) if rec['ok'] else ()):
            l = rec[which]
            ctx.concrete(len(l)*8 == nbytes, 'limb count', {'bytes': nbytes})
            for i, x in enumerate(l):
                ctx.checks += 1
                if P.sub(m.ip(x), val(st.bs[8*i:8*i+8], 8)): raise Undischarged('limb %d of from_canonical_u8_vec' % i)

def dec32_ob(ctx, n):
    def run(st):
        ws = [st.bitint('w%d' % i, 32) for i in range(2*n)]; st.ws = ws; rec = {}; st.rec = rec
        def fc(I, T, a): rec['f'] = list(lst(a[0])); return Opaque('el')
        I = ctx.interp(st, over={'Field::from_canonical_u64_vec': fc})
        return trait_default(I, 'Field', 'from_canonical_u32_vec', X, [VecV(list(ws))])
    for st, res in ctx.explore({'X': FieldInfo('X')}, run):
        ctx.no_panic(st, res, 'from_canonical_u32_vec')
        ctx.concrete(len(st.rec['f']) == n, 'limb count')
        for i, x in enumerate(st.rec['f']):
            ctx.checks += 1
            if P.sub(m.ip(x), val(st.ws[2*i:2*i+2], 32)): raise Undischarged('limb %d of from_canonical_u32_vec' % i)

def small_ob(ctx):
    for meth in ('from_canonical_u32', 'from_canonical_usize'):
        def run(st):
            rec = {}; st.rec = rec; n = st.int_atom('n', 0, 2**32-1 if meth.endswith('u32') else 2**64-1); st.n = n
            def fc(I, T, a): rec['n'] = a[0]; return Opaque('el')
            I = ctx.interp(st, over={'Field::from_canonical_u64': fc})
            return trait_default(I, 'Field', meth, X, [n])
        for st, res in ctx.explore({'X': FieldInfo('X')}, run):
            ctx.no_panic(st, res, meth)
            ctx.checks += 1
            if 'n' not in st.rec or P.sub(m.ip(st.rec['n']), m.ip(st.n)): raise Undischarged(meth)
    for b in (False, True):
        def run(st):
            return trait_default(ctx.interp(st), 'Field', 'from_canonical_bool', F, [b])
        for st, res in ctx.explore(absfield(None), run):
            ctx.no_panic(st, res, 'from_canonical_bool'); ctx.zero(st, 'F', P.sub(res[1].p, P.const(int(b))), 'from_canonical_bool')

def conv_ob(ctx):
    """try_convert::<F> is decode(encode(self)) with the decoder of the target"""
    def run(st):
        rec = {}; st.rec = rec; enc = VecV([Opaque('byte%d' % i) for i in range(4)])
        def to8(I, T, a): return enc
        def from8(I, T, a): rec['t'] = T[0]; rec['v'] = a[0]; return Opaque('answer')
        I = ctx.interp(st, over={'Field::to_canonical_u8_vec': to8, 'Field::from_canonical_u8_vec': from8})
        st.enc = enc
        return trait_default(I, 'Field', 'try_convert', X, [Ref([Opaque('x')], 0)], {'F': ('absfield', 'Y')})
    for st, res in ctx.explore({'X': FieldInfo('X'), 'Y': FieldInfo('Y')}, run):
        ctx.no_panic(st, res, 'try_convert')
        ctx.concrete(isinstance(res[1], Opaque) and res[1].what == 'answer' and st.rec['t'] == ('absfield', 'Y') and [x.what for x in lst(st.rec['v'])] == [x.what for x in st.enc.l], 'try_convert decodes the encoding in the target field')

def obligations(crates, tier):
    obs = []
    for f in FIELDS:
        obs.append(Ob('%s::canonical maps' % f, lambda ctx, f=f: canon_ob(ctx, f), timeout=200))
        obs.append(Ob('%s::is_valid_canonical_u64' % f, lambda ctx, f=f: valid_ob(ctx, f)))
    for n in (4, 6):
        obs.append(Ob('Field::to_canonical words n=%d' % n, lambda ctx, n=n: enc_ob(ctx, n)))
        obs.append(Ob('Field::from_canonical_u32_vec n=%d' % n, lambda ctx, n=n: dec32_ob(ctx, n)))
        obs.append(Ob('Field::from_canonical_u8_vec bytes=%d' % (8*n), lambda ctx, n=n: dec_ob(ctx, 8*n)))
    for k in list(range(0, 18)) + [31, 33, 40, 47, 49, 56]:
        obs.append(Ob('Field::from_canonical_u8_vec bytes=%d' % k, lambda ctx, k=k: dec_ob(ctx, k), bounded='%d bytes, all values' % k))
    obs.append(Ob('Field::from_canonical small', small_ob)); obs.append(Ob('Field::try_convert', conv_ob))
    return obs
