from contracts.common import *
LEVEL = 'proof'
NOTE = 'all field elements, points, flag bytes and byte strings; the stream length cases are full, and truncated at each byte; field sizes 2, 32 and 48 bytes'
FUNCTIONS = ['ToBytes/FromBytes for field elements', 'ToBytes/FromBytes for AffinePoint', 'Serialize/Deserialize (and visit_bytes) of AffinePoint and of the six fields', 'AffinePoint::nonzero']
EXPLAIN = ('Writers and readers are byte streams of tokens; the canonical encoding of a field element is the contract of C03 (BYTES bytes, decoded exactly back, anything else decoded to some element or rejected), square_root that of C05. '
           'Writing then reading from a stream with trailing tokens returns an equal value and leaves exactly the trailing tokens. Reading an arbitrary byte string branches over all 256 flag bytes and over decodability: success implies a valid flag, a point satisfying the curve equation with the announced parity, '
           'and exactly 1 + BYTES consumed; streams truncated at any byte are errors. The serde implementations pass the same bytes through serialize_bytes and visit_bytes.')
ASSUMPTIONS = ['encoding and decoding of field elements meet their contract (C03)', 'square_root meets its contract (C05)', 'p is odd: the canonical representatives of y and -y have different parities unless y = 0', 'serde derive of the composite structures and the serde back ends', 'write_all / read_exact of the standard library']
TRUSTED = ['std::io', 'serde', 'serde derive']
TP = 'serialization'
class Err_(Exception): pass

def tok(x, i): return Opaque('byte', (P.key(x), i))
class Env:
    """streams, encodings and roots for one path"""
    def __init__(s, st, nb, C=False): s.st = st; s.nb = nb; s.enc = {}; s.par = {}; s.sq = []; s.raw = {}; s.trail = None
    def norm(s, v): return s.st.fs('F').norm(m.dr(v).p)
    def bytes(s, I, T, a):
        p = s.norm(a[0]); s.enc[P.key(p)] = p; return VecV([tok(p, i) for i in range(s.nb)])
    def frombytes(s, I, T, a):
        l = lst(a[0]); st = s.st
        if len(l) != s.nb: return err(Opaque('wrong length'))
        ks = {x.d[0] for x in l if isinstance(x, Opaque) and x.what == 'byte'}
        if len(ks) == 1 and all(isinstance(x, Opaque) and x.what == 'byte' and x.d[1] == i for i, x in enumerate(l)):
            k = ks.pop(); return ok(FE('F', s.enc[k])) if k in s.enc else s.other(l)
        return s.other(l)
    def other(s, l):
        k = tuple(repr(x.d) if isinstance(x, Opaque) else repr(x) for x in l)
        if k not in s.raw: s.raw[k] = s.st.fe('F', 'dec') if s.st.choose(2) else None
        return ok(s.raw[k]) if s.raw[k] is not None else err(Opaque('not canonical'))
    def parity(s, v):
        st = s.st; f = st.fs('F'); p = f.norm(v)
        if st.decide(SB('fz', 'F', p)): return 0
        p = f.norm(p); k, kn = P.key(p), P.key(f.norm(P.neg(p)))
        if k in s.par: return s.par[k]
        if kn in s.par: return 1 - s.par[kn]
        s.par[k] = st.choose(2); return s.par[k]
    def limbs(s, I, T, a):
        st = s.st; p = s.norm(a[0]); b = s.parity(p); h = st.ucache.setdefault(('h', P.key(s.norm(a[0]))), st.int_atom('h', 0, 2**63-1))
        return VecV([m.mk(P.add(P.scale(m.ip(h), 2), P.const(b)))] + [st.int_atom('l%d' % i, 0, 2**64-1) for i in range(1, s.nb // 8)])
    def root(s, I, T, a):
        st = s.st; p = s.norm(a[0]); f = st.fs('F')
        for y in s.sq:
            if not f.norm(P.sub(p, P.mul(y, y))): return some(FE('F', f.norm(y if st.choose(2) else P.neg(y))))
        if st.decide(SB('fz', 'F', p)): return some(st.fconst('F', 0))
        if st.choose(2): return none()
        r = st.fe('F', 'root'); st.assume(SB('fz', 'F', P.sub(P.mul(r.p, r.p), p)), True); s.sq.append(r.p); return some(r)
    def write_all(s, I, T, a):
        w = a[0]
        while isinstance(w, Ref) and not isinstance(w.get(), VecV): w = w.get()
        w.get().l.extend(lst(a[1])); return ok(unit())
    def read_exact(s, I, T, a):
        r = a[0]
        while isinstance(r.get(), Ref): r = r.get()
        sr = r.get(); buf = a[1]; n = len(lst(buf))
        if isinstance(buf, Ref): buf = SliceRef(buf.get().l, 0, n)
        if n > sr.n: r.set(SliceRef(sr.l, sr.s + sr.n, 0)); return err(Opaque('unexpected end of file'))
        for i in range(n): buf.l[buf.s + i] = sr.l[sr.s + i]
        r.set(SliceRef(sr.l, sr.s + n, sr.n - n)); return ok(unit())
    def over(s):
        e = lambda nm: (lambda I, T, a: Opaque(nm))
        return {'Field::to_canonical_u8_vec': s.bytes, 'Field::from_canonical_u8_vec': s.frombytes, 'Field::to_canonical_u64_vec': s.limbs, 'Field::square_root': s.root, 'Write::write_all': s.write_all, 'Read::read_exact': s.read_exact,
                'Error::new': e('io error'), 'Error::custom': e('serde error'), 'ToString::to_string': e('text'), 'Serializer::serialize_bytes': s.ser, 'Deserializer::deserialize_bytes': s.de}
    def ser(s, I, T, a): s.out = list(lst(a[1])); return ok(Opaque('serialized'))
    def de(s, I, T, a):
        v = a[1]; return I.dispatch(('adt', v.tag, list(v.targs)), 'Visitor', [], 'visit_bytes', [], [v, SliceRef(list(s.inp), 0, len(s.inp))])
def ok(v): return A('Result', 'Ok', [v])
def err(v): return A('Result', 'Err', [v])
def fi(nb): return {'F': FieldInfo('F', None, {'BYTES': nb}), 'S': FieldInfo('S')}
def mk(ctx, st, nb):
    e = Env(st, nb); a, b = st.fe('F', 'A'), st.fe('F', 'B'); st.A, st.B = a.p, b.p; st.env = e
    st.I = ctx.interp(st, **curve_cfg(a, b, over=e.over())); return st.I, e
def write(I, T, v, w): return I.dispatch(T, 'ToBytes', [], 'write', [], [Ref([v], 0), Ref(w, 0)])
TRAIL = [7, 200, 33]
def read(I, T, l):
    c = [SliceRef(l, 0, len(l))]; r = m.dr(I.dispatch(T, 'FromBytes', [], 'read', [], [Ref(c, 0)])); return r, len(l) - c[0].n

def field_rt(ctx, nb):
    def run(st):
        I, e = mk(ctx, st, nb); st.x = [st.fe('F', 'x'), st.fe('F', 'y')]; w = [VecV([])]
        st.r = [write(I, F, x, w) for x in st.x]; st.w = list(w[0].l); l = st.w + TRAIL
        st.a, st.n = read(I, F, l); st.b, st.n2 = read(I, F, l[st.n:])
    for st, res in ctx.explore(fi(nb), run):
        w = 'field round trip, %d bytes' % nb; ctx.no_panic(st, res, w)
        ctx.concrete(all(r.var == 'Ok' for r in st.r) and len(st.w) == 2*nb, w + ': BYTES bytes are written', {'len': str(len(st.w))})
        ctx.concrete(st.n == nb and st.n2 == nb, w + ': consumes its own bytes', {'consumed': '%d, %d' % (st.n, st.n2)})
        for r, x in zip((st.a, st.b), st.x):
            ctx.concrete(r.var == 'Ok', w + ': reads back'); ctx.feq(st, r.f[0], x, w + ': equal value')
def field_any(ctx, nb, cut):
    seen = set()
    def run(st):
        I, e = mk(ctx, st, nb); l = [Opaque('raw', i) for i in range(nb - cut)] + ([] if cut else TRAIL)
        st.a, st.n = read(I, F, l)
    for st, res in ctx.explore(fi(nb), run):
        w = 'reading %d arbitrary bytes' % (nb - cut); ctx.no_panic(st, res, w); v = st.env.raw
        if cut: ctx.concrete(st.a.var == 'Err', w + ': truncated stream is an error'); seen.add('e'); continue
        ctx.concrete(st.n == nb, w + ': consumes BYTES'); ctx.concrete(list(v) == [tuple(repr(i) for i in range(nb))], w + ': exactly the read bytes are decoded', {'decoded': str(list(v))})
        x = next(iter(v.values()))
        if x is None: ctx.concrete(st.a.var == 'Err', w + ': a non-canonical encoding is an error'); seen.add('e')
        else: ctx.concrete(st.a.var == 'Ok', w + ': canonical encodings are accepted'); ctx.feq(st, st.a.f[0], x, w + ': decoded value'); seen.add('o')
    ctx.concrete(seen == ({'e'} if cut else {'e', 'o'}), 'both outcomes reached', {'seen': str(seen)})

def eqn(st, x, y): return P.sub(P.mul(y, y), P.add(P.add(P.pw(x, 3), P.mul(st.A, x)), st.B))
def point_rt(ctx, nb, zero):
    n = [0]
    def run(st):
        I, e = mk(ctx, st, nb); x, y = st.fe('F', 'x'), st.fe('F', 'y'); st.xy = x, y
        if not zero: st.assume(SB('fz', 'F', eqn(st, x.p, y.p)), True); e.sq.append(y.p)
        w = [VecV([])]; st.r = write(I, APT, aff(x, y, zero), w); st.w = list(w[0].l); x2 = st.fe('F', 'z'); write(I, F, x2, w); st.x2 = x2
        l = list(w[0].l) + TRAIL; st.a, st.n = read(I, APT, l); st.b, st.n2 = read(I, F, l[st.n:])
    for st, res in ctx.explore(fi(nb), run):
        w = '%s point round trip, %d bytes' % ('identity' if zero else 'finite', nb); ctx.no_panic(st, res, w); n[0] += 1
        ctx.concrete(st.r.var == 'Ok' and len(st.w) == nb + 1, w + ': one flag byte and BYTES bytes', {'len': str(len(st.w))})
        ctx.concrete(st.n == nb + 1 and st.n2 == nb, w + ': consumes its own bytes', {'consumed': str(st.n)}); ctx.feq(st, st.b.f[0], st.x2, w + ': the next value in the stream stays aligned')
        ctx.concrete(st.a.var == 'Ok', w + ': reads back', {'got': repr(st.a)[:100]}); p = st.a.f[0]
        isz(ctx, st, p, zero, w)
        if not zero: ctx.feq(st, p.f[0], st.xy[0], w + ': x'); ctx.feq(st, p.f[1], st.xy[1], w + ': y')
    ctx.concrete(n[0] > (0 if zero else 2), 'paths reached')
def point_any(ctx, nb, flags, cut):
    seen = set()
    def run(st):
        I, e = mk(ctx, st, nb); st.flag = flags[st.choose(len(flags))]
        l = ([st.flag] + [Opaque('raw', i) for i in range(nb)])[:nb + 1 - cut] + ([] if cut else TRAIL); st.a, st.n = read(I, APT, l)
    for st, res in ctx.explore(fi(nb), run):
        w = 'reading flag %d and %d bytes' % (st.flag, nb - cut); ctx.no_panic(st, res, w); raw = st.env.raw; x = next(iter(raw.values())) if raw else None; f = st.fs('F')
        good = st.a.var == 'Ok'; seen.add((st.a.var, st.flag if st.flag < 4 else 4))
        if st.flag > 3: ctx.concrete(not good, w + ': an invalid flag is an error'); continue
        if cut: ctx.concrete(not good, w + ': a truncated stream is an error'); continue
        if good: ctx.concrete(st.n == nb + 1, w + ': consumes 1 + BYTES', {'consumed': str(st.n)})
        if st.flag & 1:
            if good: isz(ctx, st, st.a.f[0], True, w)
            continue
        ctx.concrete(list(raw) == [tuple(repr(i) for i in range(nb))], w + ': the bytes after the flag are decoded')
        if x is None: ctx.concrete(not good, w + ': a non-canonical x is an error'); continue
        if good:
            p = st.a.f[0]; isz(ctx, st, p, False, w); ctx.feq(st, p.f[0], x, w + ': x')
            ctx.zero(st, 'F', eqn(st, p.f[0].p, p.f[1].p), w + ': on the curve')
            ctx.concrete(st.env.parity(p.f[1].p) == st.flag >> 1, w + ': the sign of y is the announced one')
        else:
            # rejected: no root, or the root is zero and the flag says odd
            rhs = P.add(P.add(P.pw(x.p, 3), P.mul(st.A, x.p)), st.B); z = f.status(rhs)
            ctx.concrete(not st.env.sq and (z != 'zero' or st.flag == 2), w + ': a decompressible point is accepted', {'rhs': z})
    if not cut: ctx.concrete({('Ok', 0), ('Ok', 2), ('Err', 0), ('Err', 2)} <= seen or flags[0] > 3, 'both outcomes reached', {'seen': str(seen)})

def serde_pt(ctx, nb, zero, bad=None):
    def run(st):
        I, e = mk(ctx, st, nb); x, y = st.fe('F', 'x'), st.fe('F', 'y'); st.xy = x, y
        if not zero: st.assume(SB('fz', 'F', eqn(st, x.p, y.p)), True); e.sq.append(y.p)
        v = aff(x, y, zero); w = [VecV([])]; write(I, APT, v, w); st.w = list(w[0].l)
        st.r = I.dispatch(APT, 'Serialize', [], 'serialize', [], [Ref([v], 0), Opaque('serializer')]); e.inp = e.out if bad is None else bad(nb)
        st.a = m.dr(I.dispatch(APT, 'Deserialize', [], 'deserialize', [], [Opaque('deserializer')]))
    for st, res in ctx.explore(fi(nb), run):
        w = 'serde of a %s point' % ('zero' if zero else 'finite'); ctx.no_panic(st, res, w)
        if bad: ctx.concrete(st.a.var == 'Err', w + ': malformed bytes are an error'); continue
        same(ctx, st.env.out, st.w, w); ctx.concrete(st.r.var == 'Ok' and st.a.var == 'Ok', w + ': succeeds'); p = st.a.f[0]; isz(ctx, st, p, zero, w)
        if not zero: ctx.feq(st, p.f[0], st.xy[0], w + ': x'); ctx.feq(st, p.f[1], st.xy[1], w + ': y')
def same(ctx, a, b, w):
    k = lambda l: [x.d if isinstance(x, Opaque) else x for x in l]
    ctx.concrete(k(a) == k(b), w + ': the serialized bytes are those of write', {'got': str(k(a))[:100]})
def bodies(I, name):
    """the bodies generated by impl_serde_field! for a field, found by their signatures"""
    import re
    for c in I.crates:
        ks = [k for k in c.files if re.match(r'serialization-\{impl#\d+\}-(de)?serialize$', k)]; r = {}
        for k in ks:
            t = next(l for l in open(c.files[k]) if l.startswith('fn ')); h = t[t.index('('):]
            if k.endswith('-serialize') and re.match(r'\(_1: &\w* ?[\w:]*\b%s,' % name, h): r['s'] = k
            if k.endswith('-deserialize') and re.search(r'-> (std::result::)?Result<[\w:]*\b%s,' % name, h): r['d'] = k
        if len(r) == 2: return c, r['s'], r['d']
    raise Unsupported('lost anchor: serde implementations of ' + name)
def serde_f(ctx, name, short):
    """the blanket byte codec is its own contract here; the six serde implementations pass its bytes through"""
    T = fty(name)
    def run(st):
        e = Env(st, 3); v = A(name, None, [Arr([Opaque('limb', i) for i in range(2)])]); st.v = v; st.seen = []
        o = e.over(); o['ToBytes::write'] = lambda I, T, a: (e.write_all(I, T, [a[1], VecV([Opaque('byte', ('v', i)) for i in range(3)])]), st.seen.append(m.dr(a[0])))[0]
        def rd(I, T, a):
            l = lst(a[0]); st.seen.append(list(l)); return ok(v) if not short else err(Opaque('bad'))
        o['FromBytes::read'] = rd
        I = ctx.interp(st, over=o); c, ks, kd = bodies(I, name)
        o['Visitor::visit_bytes'] = lambda I, T, a: I.run(c, c.body(kd + '-{impl#0}-visit_bytes'), {'E': ('param', 'E')}, a)
        def de(I, T, a): return I.run(c, c.body(kd + '-{impl#0}-visit_bytes'), {'E': ('param', 'E')}, [a[1], SliceRef(list(e.inp), 0, len(e.inp))])
        o['Deserializer::deserialize_bytes'] = de
        st.r = I.run(c, c.body(ks), {'S': ('param', 'S')}, [Ref([v], 0), Opaque('serializer')]); e.inp = e.out; st.e = e
        st.a = m.dr(I.run(c, c.body(kd), {'D': ('param', 'D')}, [Opaque('deserializer')]))
    for st, res in ctx.explore({}, run):
        w = 'serde of ' + name; ctx.no_panic(st, res, w)
        ctx.concrete(st.r.var == 'Ok' and st.seen[0] is st.v and len(st.e.out) == 3 and [x.d for x in st.seen[1]] == [('v', i) for i in range(3)], w + ': the bytes of write are passed through')
        ctx.concrete(st.a.var == ('Err' if short else 'Ok') and (short or st.a.f[0] is st.v), w + ': the value or error of read is returned')

def obligations(crates, tier):
    obs = []
    for nb in (2, 8, 32, 48):
        obs.append(Ob('field round trip, %d bytes' % nb, lambda ctx, nb=nb: field_rt(ctx, nb)))
        for cut in [0, 1] + ([nb // 2, nb] if nb > 2 else [2]): obs.append(Ob('field from %d arbitrary bytes of %d' % (nb - cut, nb), lambda ctx, nb=nb, cut=cut: field_any(ctx, nb, cut)))
    for nb in (8, 32, 48):
        for z in (False, True):
            obs.append(Ob('point round trip, %d bytes%s' % (nb, ', identity' if z else ''), lambda ctx, nb=nb, z=z: point_rt(ctx, nb, z)))
            obs.append(Ob('serde of points, %d bytes%s' % (nb, ', identity' if z else ''), lambda ctx, nb=nb, z=z: serde_pt(ctx, nb, z)))
        obs.append(Ob('point from arbitrary bytes, %d bytes, legal flags' % nb, lambda ctx, nb=nb: point_any(ctx, nb, [0, 1, 2, 3], 0)))
        obs.append(Ob('point from arbitrary bytes, %d bytes, other flags' % nb, lambda ctx, nb=nb: point_any(ctx, nb, list(range(4, 256)), 0)))
        for cut in (range(1, nb + 2) if nb == 8 else (1, nb // 2, nb, nb + 1)): obs.append(Ob('point from a stream of %d bytes truncated by %d' % (nb + 1, cut), lambda ctx, nb=nb, cut=cut: point_any(ctx, nb, [0, 1, 2, 3], cut)))
        for nm, bad in (('short', lambda n: [0] + [Opaque('raw', i) for i in range(n-1)]), ('flag', lambda n: [9] + [Opaque('raw', i) for i in range(n)]), ('empty', lambda n: [])):
            obs.append(Ob('serde of malformed points, %d bytes, %s' % (nb, nm), lambda ctx, nb=nb, bad=bad: serde_pt(ctx, nb, False, bad)))
    for n in FIELDS:
        for s in (0, 1): obs.append(Ob('serde of %s%s' % (n, ', error' if s else ''), lambda ctx, n=n, s=s: serde_f(ctx, n, s)))
    return obs
