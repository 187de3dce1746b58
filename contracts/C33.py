from contracts.common import *
from engine.interp import loop_heads
FUNCTIONS = ['hash_to_curve::{hash_u32_to_curve, hash_usize_to_curve, hash_base_field_to_curve, blake_field, blake_hash_usize_to_curve, blake_hash_base_field_to_curve}']
EXPLAIN = ('The retry loops are cut at their heads with an arbitrary counter, so the obligations cover any number of retries: the first preimage uses counter 0, each retry the next counter, the message hashed holds seed and counter at fixed places, and every exit returns a point whose coordinates satisfy the curve equation identically (y being any root of the candidate), '
           'with the sign taken from the hash. The hash functions are unknown functions of their input, so equal inputs give equal points. blake_field runs with an indeterminate seed encoding, symbolic counters and an arbitrary verdict of the decoder for the byte and bit lengths of all six fields.')
ASSUMPTIONS = ['square_root returns a root or None (C05)', 'rescue_sponge is a deterministic function of its inputs (C16)', 'from_canonical_u8_vec accepts exactly canonical encodings (C03)', 'from_canonical_u32/u64/usize meet their contracts (C03)',
               'the retry loops end: each try succeeds with probability about one half for honest hashes; the one-byte counters of the Blake forms overflow with probability below 2^-250']
TRUSTED = ['blake3 (an unknown function of the bytes absorbed since the last reset)']
class Done(Infeasible): pass
E = {'C': CURVE}
FI = lambda: {'F': FieldInfo('F')}
fe_ = lambda v: v if isinstance(v, FE) else FE('F', v)
k_ = lambda p: tuple(sorted(p.items()))

def curve_ob(ctx, fn, cut):
    blake = fn.startswith('blake'); seen = set(); key = 'hash_to_curve-' + fn
    def run(st):
        st.visits = 0; st.calls = []; st.x = {}; f = st.fs('F')
        def h(I, T, a):
            if blake: i, s = a[0], m.dr(a[1]); kk = (k_(m.ip(i)), k_(f.norm(s.p)))
            else:
                l = [m.dr(x) for x in lst(a[0])]; ctx.concrete(len(l) == 2 and a[1] == 2, 'two inputs and two outputs of the sponge'); kk = (k_(f.norm(l[1].p)), k_(f.norm(l[0].p))); st.sb = m.ip(a[2])
            st.calls.append(kk)
            if not cut and len(st.calls) > 4: raise Done()
            if kk not in st.x: st.x[kk] = (st.fe('F', 'x%d' % len(st.x)), st.bool_atom('s%d' % len(st.x)) if blake else st.fe('F', 'y%d' % len(st.x)))
            a_, b_ = st.x[kk]; return m.tup(a_, b_) if blake else VecV([a_, b_])
        def sq(I, T, a):
            x = m.dr(a[0]); st.cand = x
            if st.choose(2): st.y = st.fe('F', 'root'); st.assume(SB('fz', 'F', P.sub(x.p, P.mul(st.y.p, st.y.p))), True); return some(st.y)
            return none()
        def bits(I, T, a):
            x = m.dr(a[0]); kk = ('bit', k_(x.p))
            if kk not in st.ucache: st.ucache[kk] = [st.bool_atom('bit%d.%d' % (len(st.ucache), i)) for i in range(8)]
            return VecV(list(st.ucache[kk]))
        def fc(I, T, a):
            kk = ('fc', k_(m.ip(a[0])))
            if kk not in st.ucache: st.ucache[kk] = fe_(m.lift(I, 'F', a[0])) if isinstance(a[0], SI) else st.fconst('F', a[0])
            return st.ucache[kk]
        def lp(I, Fr):
            nm = Fr.body.names; lh = loop_heads(Fr.body)
            if len(lh) != 1 or 'i' not in nm: raise Unsupported('lost anchor: the loop of ' + fn)
            i = nm['i']
            def head(I, Fr, bb):
                st.visits += 1
                if st.visits == 1:
                    ctx.concrete(Fr.L[i] == 0, fn + ': the first counter is 0', {'counter': str(Fr.L[i])}); seen.add('base')
                    if st.choose(2): st.i = st.int_atom('i', 0, 2**8-2 if blake else 2**32-2); Fr.L[i] = st.i
                    else: st.i = 0
                else:
                    ctx.concrete(k_(m.ip(Fr.L[i])) == k_(P.add(m.ip(st.i), P.const(1))), fn + ': a retry uses the next counter', {'counter': str(Fr.L[i])}); seen.add('step')
                    raise Done()
            return {next(iter(lh)): head}
        over = {'hash_to_curve-blake_field': h, 'rescue-rescue_sponge': h, 'Field::square_root': sq, 'Field::to_canonical_bool_vec': bits, 'Field::from_canonical_u32': fc, 'Field::from_canonical_u64': fc, 'Field::from_canonical_usize': fc}
        a, b = st.fe('F', 'A'), st.fe('F', 'B'); st.a, st.b = a, b; st.i = None
        I = ctx.interp(st, **curve_cfg(a, b, over=over, loops={key: lp} if cut else {})); st.seed = st.fe('F', 'seed'); st.sec = st.int_atom('security', 0, 2**20); st.fc = lambda v: fc(I, None, [v])
        r = own_body(I, key, E, [st.seed] + ([] if blake else [st.sec])); s = st.x[st.calls[-1]][1]; st.neg = st.decide(s if blake else bits(I, None, [s]).l[0]); return r
    for st, res in ctx.explore(FI(), run):
        w = fn; ctx.no_panic(st, res, w); r = m.dr(res[1]); seen.add('end'); f = st.fs('F')
        if not cut:
            st.i = len(st.calls) - 1; seen |= {'base'} if st.i == 0 else {'step'}
            for n_, c_ in enumerate(st.calls): ctx.concrete(c_ == (k_(P.const(n_)) if blake else k_(f.norm(st.fc(n_).p)), k_(f.norm(st.seed.p))), w + ': try %d hashes the seed and the counter %d' % (n_, n_), {'hashed': str(c_)})
        ci = k_(m.ip(st.i)) if blake else k_(f.norm(st.fc(st.i).p))
        ctx.concrete(st.calls[-1] == (ci, k_(f.norm(st.seed.p))), w + ': the preimage is the seed and the counter', {'hashed': str(st.calls[-1])})
        if not blake: ctx.concrete(k_(st.sb) == k_(m.ip(st.sec)), w + ': security level of the sponge')
        x, s = st.x[st.calls[-1]]; px, py = m.dr(r.f[0]), m.dr(r.f[1])
        isz(ctx, st, r, False, w); ctx.feq(st, px, x, w + ': x comes from the hash')
        rhs = P.add(P.mul(x.p, P.mul(x.p, x.p)), P.add(P.mul(st.a.p, x.p), st.b.p)); ctx.zero(st, 'F', P.sub(P.mul(py.p, py.p), rhs), w + ': the curve equation')
        ctx.zero(st, 'F', P.add(py.p, P.scale(st.y.p, 1 if st.neg else -1)), w + ': the sign comes from the hash')
    ctx.concrete({'base', 'step', 'end'} <= seen, fn + ': all cases are reached', {'reached': str(seen)})

def wrap_ob(ctx, fn, to):
    def run(st):
        def h(I, T, a): st.args = a; st.n = getattr(st, 'n', 0) + 1; st.out = Opaque('point'); return st.out
        def fc(I, T, a): st.arg = m.ip(a[0]); st.f_ = st.fe('F', 'embedded'); return st.f_
        I = ctx.interp(st, **curve_cfg(st.fe('F', 'A'), st.fe('F', 'B'), over={'hash_to_curve-' + to: h, 'Field::from_canonical_u32': fc, 'Field::from_canonical_u64': fc, 'Field::from_canonical_usize': fc}))
        st.seed = st.int_atom('seed', 0, 2**32-1 if 'u32' in fn else 2**64-1); st.sec = st.int_atom('security', 0, 2**20)
        return own_body(I, 'hash_to_curve-' + fn, E, [st.seed] + ([] if fn.startswith('blake') else [st.sec]))
    for st, res in ctx.explore(FI(), run):
        ctx.no_panic(st, res, fn); ctx.concrete(st.n == 1 and res[1] is st.out, fn + ': returns the hash of the embedded integer'); ctx.feq(st, m.dr(st.args[0]), st.f_, fn + ': the seed is the embedded integer')
        ctx.concrete(k_(st.arg) == k_(st.seed.p), fn + ': the integer itself is embedded', {'embedded': str(st.arg)})
        if not fn.startswith('blake'): ctx.concrete(k_(m.ip(st.args[1])) == k_(st.sec.p), fn + ': security level')

def blake_ob(ctx, BYTES, BITS, name, cut=True):
    seen = set()
    def run(st):
        st.visits = 0; st.fills = []; st.decd = []
        def upd(I, T, a): m.dr(a[0]).d.append(tuple(lst(a[1]))); return a[0]
        def fill(I, T, a):
            absorbed = tuple(x for ch in m.dr(a[0]).d for x in ch); l = m.slice_of(a[1]); out = [st.int_atom('h%d.%d' % (len(st.fills), i), 0, 255) for i in range(l.n)]; st.fills.append((absorbed, out, [l.l[l.s+i] for i in range(l.n)]))
            for i in range(l.n): l.l[l.s+i] = out[i]
            return m.unit()
        def dec(I, T, a):
            st.decd.append(lst(a[0]))
            if not cut and len(st.decd) > 3: raise Done()
            if st.choose(2): st.el = st.fe('F', 'decoded'); return A('Result', 'Ok', [st.el])
            return A('Result', 'Err', [Opaque('error')])
        st.enc = [st.int_atom('e%d' % i, 0, 255) for i in range(BYTES)]
        def enc(I, T, a):
            if m.dr(a[0]) is not st.seed: raise Unsupported('encoding of something else')
            return VecV(list(st.enc))
        over = {'Field::to_canonical_u8_vec': enc, 'Field::from_canonical_u8_vec': dec, 'blake3-Hasher-new': lambda I, T, a: Opaque('hasher', []), 'Hasher::new': lambda I, T, a: Opaque('hasher', []), 'Hasher::update': upd, 'Hasher::reset': lambda I, T, a: m.dr(a[0]).d.clear() or a[0],
                'Hasher::finalize_xof': lambda I, T, a: Opaque('xof', list(m.dr(a[0]).d)), 'OutputReader::fill': fill}
        over.update({'blake3-Hasher-update': upd, 'blake3-Hasher-reset': over['Hasher::reset'], 'blake3-Hasher-finalize_xof': over['Hasher::finalize_xof'], 'blake3-OutputReader-fill': fill})
        def lp(I, Fr):
            nm = Fr.body.names; lh = loop_heads(Fr.body)
            if len(lh) != 1 or not all(x in nm for x in ('j', 'hasher', 'hash_container', 'bytes')): raise Unsupported('lost anchor: the loop of blake_field')
            L = lambda x: Fr.L[nm[x]]
            def head(I, Fr, bb):
                st.visits += 1
                if st.visits == 1:
                    ctx.concrete(L('j') == 0, 'the first index is 0'); ctx.concrete(m.dr(L('hasher')).d == [], 'nothing was absorbed'); seen.add('base')
                    if st.choose(2):
                        st.j = st.int_atom('j', 1, 254); Fr.L[nm['j']] = st.j; m.dr(L('hasher')).d[:] = [('junk',)]; b = m.dr(L('bytes')); b.l[BYTES+1] = st.int_atom('oldj', 0, 255); c = m.dr(L('hash_container'))
                        for i in range(len(c.l)): c.l[i] = st.int_atom('old%d' % i, 0, 255)
                    else: st.j = 0
                else:
                    ctx.concrete(k_(m.ip(L('j'))) == k_(P.add(m.ip(st.j), P.const(1))), 'a retry uses the next index'); b = lst(L('bytes'))
                    ctx.concrete(len(b) == BYTES+2 and all(k_(m.ip(x)) == k_(m.ip(y)) for x, y in zip(b, st.enc + [st.iter])), 'seed and counter are kept for the retry'); ctx.concrete(len(lst(L('hash_container'))) == BYTES+1, 'size of the output'); seen.add('step'); raise Done()
            return {next(iter(lh)): head}
        I = ctx.interp(st, over=over, consts={('F', 'BYTES'): BYTES, ('F', 'BITS'): BITS}, loops={'hash_to_curve-blake_field': lp} if cut else {}); st.seed = st.fe('F', 'seed'); st.iter = st.int_atom('iter', 0, 255)
        x, y = own_body(I, 'hash_to_curve-blake_field', {'F': F}, [st.iter, st.seed]).f; st.flag = y if isinstance(y, bool) else st.decide(y)
        e = st.fills[-1][1][BYTES]; b = m.binop(I, 'BitAnd', e, 1, ('prim', 'u8')); st.low = st.decide(m.ieq(st, b, 1)); return x
    for st, res in ctx.explore(FI(), run):
        w = 'blake_field, %d bytes, %d bits' % (BYTES, BITS); ctx.no_panic(st, res, w); seen.add('end')
        if not cut: st.j = len(st.decd) - 1; st.fills, st.decd = st.fills[-1:], (st.decd[-1:] if len(st.fills) == len(st.decd) else []); seen |= {'base'} if st.j == 0 else {'step'}
        ctx.concrete(len(st.fills) == 1 and len(st.decd) == 1, w + ': one hash per try'); ab, out, old = st.fills[0]
        want = st.enc + [st.iter, st.j]; ctx.concrete('junk' not in ab and len(ab) == len(want) and all(k_(m.ip(x)) == k_(m.ip(y)) for x, y in zip(ab, want)), w + ': the message is the seed, the counter and the index', {'message': str(len(ab))})
        ctx.concrete(len(out) == BYTES+1, w + ': one extra byte'); d = st.decd[0]; ctx.concrete(len(d) == BYTES and all(k_(m.ip(x)) == k_(y.p) for x, y in zip(d[:-1], out)), w + ': the low bytes are decoded as they are')
        top, h = m.ip(d[-1]), out[BYTES-1].p; s = 8*BYTES - BITS
        # top = h >> s
        df = P.sub(h, P.scale(st.expand(top), 1 << s)); ctx.ge0(st, df, w + ': top byte is shifted to the bit length'); ctx.ge0(st, P.sub(P.const((1 << s) - 1), df), w + ': top byte is shifted to the bit length')
        ctx.feq(st, m.dr(res[1]), st.el, w + ': the decoded element is returned'); ctx.concrete(st.flag == st.low, w + ': the sign is the low bit of the extra byte')
    ctx.concrete({'base', 'step', 'end'} <= seen, 'all cases are reached', {'reached': str(seen)})
def obligations(crates, tier):
    obs = []
    for fn in ('hash_base_field_to_curve', 'blake_hash_base_field_to_curve'):
        obs.append(Ob(fn + ', any number of retries', lambda ctx, fn=fn: curve_ob(ctx, fn, True), soft=True)); obs.append(Ob(fn + ', up to 3 retries', lambda ctx, fn=fn: curve_ob(ctx, fn, False), bounded='3 retries'))
    for fn, to in (('hash_u32_to_curve', 'hash_base_field_to_curve'), ('hash_usize_to_curve', 'hash_base_field_to_curve'), ('blake_hash_usize_to_curve', 'blake_hash_base_field_to_curve')): obs.append(Ob(fn, lambda ctx, a=fn, b=to: wrap_ob(ctx, a, b)))
    for n in FIELDS:
        p = FIELDS[n][2]; obs.append(Ob('blake_field for ' + n, lambda ctx, n=n, p=p: blake_ob(ctx, 8*FIELDS[n][1], p.bit_length(), n), soft=True)); obs.append(Ob('blake_field for %s, up to 2 retries' % n, lambda ctx, n=n, p=p: blake_ob(ctx, 8*FIELDS[n][1], p.bit_length(), n, False), bounded='2 retries'))
    return obs
