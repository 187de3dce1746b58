from contracts.circ import *
from engine.interp import loop_heads
from engine.state import FieldInfo
import engine.poly as P
import itertools
LEVEL = 'other'
NOTE = 'a round of the permutation is proved for every number of rounds; widths, input and output lengths are bounded'
FUNCTIONS = ['rescue_permutation', 'rescue_sponge', 'rescue_hash_1_to_1', 'rescue_hash_n_to_{1,2,3}', 'RescuePrf::rand', 'generate_rescue_constants', 'recommended_rounds', 'ceil_div_usize', 'apply_mds', 'mds_matrix', 'generate_mds_matrix', 'MdsMatrix::get',
             'CircuitBuilder::{rescue_permutation, rescue_sponge, rescue_hash_n_to_1, _2, _3}']
EXPLAIN = ('The two power maps and the matrix entries are uninterpreted in the round obligations: the loop of rescue_permutation is cut with an arbitrary state, and one iteration must be root map, matrix, constants, power map, matrix, constants. '
           'The matrix is generated by the real code over each field with its real modulus: every entry, and every minor up to size 4, is checked. The sponges run with an uninterpreted permutation against the absorb/squeeze definition. '
           'The in-circuit permutation: the constraints of the rows of each round relate its accumulators as a native round does.')
ASSUMPTIONS = ['exp and kth_root meet their contracts (C05)', 'F::rand_from_rng draws successive outputs of the seeded generator', 'copy constraints are enforced (C21)', 'builder.add meets its contract (C28)']
FI = lambda: {'F': FieldInfo('F')}
E1 = {'F': F}
class Done(Infeasible): pass
RATE = 3

# ---------------------------------------------------------------- one round, any number of rounds
def uf(st, nm, x):
    k = (nm, P.key(st.fs('F').norm(x.p)))
    if k not in st.ucache: st.ucache[k] = st.fe('F', nm)
    return st.ucache[k]
def power_over(st, alpha, fid='F'):
    def isal(a):
        a = m.dr(a); return isinstance(a, FE) and not st.fs(fid).norm(P.sub(a.p, alpha.p))
    def root(I, T, a):
        if not isal(a[1]): raise Unsupported('root of another degree')
        return uf(st, 'root', m.dr(a[0]))
    def ex(I, T, a):
        if not isal(a[1]): raise Unsupported('another power')
        return uf(st, 'pow', m.dr(a[0]))
    return {'Field::kth_root': root, 'Field::exp': ex}
def mds_uf(st):
    def get(I, T, a):
        n = m.dr(a[0]).d; r, c = int(a[1]), int(a[2]); k = ('mds', n, r, c)
        if not (0 <= r < n and 0 <= c < n): raise Panic('matrix index')
        if k not in st.ucache: st.ucache[k] = st.fe('F', 'M%d%d' % (r, c))
        return st.ucache[k]
    return {'mds-mds_matrix': lambda I, T, a: Opaque('mds', int(a[0])), 'MdsMatrix::get': get}
def layer(st, I, v, k):
    get = mds_uf(st)['MdsMatrix::get']; n = len(v); M = [Opaque('mds', n)]; out = []
    for r in range(n):
        e = dict(k[r].p)
        for c in range(n): e = P.add(e, P.mul(get(I, None, [Ref(M, 0), r, c]).p, v[c].p))
        out.append(FE('F', e))
    return out
def round_(st, I, s, a, b):
    s = layer(st, I, [uf(st, 'root', x) for x in s], a)
    return layer(st, I, [uf(st, 'pow', x) for x in s], b)
def same(ctx, st, a, b, what, fid='F'):
    ctx.concrete(len(a) == len(b), what + ': length', {'got': str(len(a)), 'want': str(len(b))})
    for i, (x, y) in enumerate(zip(a, b)): ctx.zero(st, fid, P.sub(m.dr(x).p, m.dr(y).p), '%s: entry %d' % (what, i))

def cfgp(st, over):
    al = st.fe('F', 'alpha'); o = power_over(st, al); o.update(mds_uf(st)); o.update(over)
    return dict(over=o, consts={('F', 'ALPHA'): al})
def perm_ob(ctx, w, rounds):
    def run(st):
        st.s = [st.fe('F', 's%d' % i) for i in range(w)]
        st.k = [([st.fe('F', 'a%d.%d' % (r, i)) for i in range(w)], [st.fe('F', 'b%d.%d' % (r, i)) for i in range(w)]) for r in range(rounds)]
        def gen(I, T, a):
            ctx.concrete(a[0] == w and a[1] == 128, 'the constants are generated for this width and security level')
            return VecV([tup(VecV(list(a)), VecV(list(b))) for a, b in st.k])
        I = ctx.interp(st, **cfgp(st, {'rescue-generate_rescue_constants': gen})); st.I = I
        return own_body(I, 'rescue-rescue_permutation', E1, [sl(st.s), 128])
    for st, res in ctx.explore(FI(), run):
        ctx.no_panic(st, res, 'rescue_permutation'); want = st.s
        for a, b in st.k: want = round_(st, st.I, want, a, b)
        same(ctx, st, lst(res[1]), want, 'permutation of width %d, %d rounds' % (w, rounds))
def perm_cut(ctx, w):
    key = 'rescue-rescue_permutation'; seen = set()
    def run(st):
        st.n = 0; st.s = [st.fe('F', 's%d' % i) for i in range(w)]
        ks = [([st.fe('F', 'a%d.%d' % (r, i)) for i in range(w)], [st.fe('F', 'b%d.%d' % (r, i)) for i in range(w)]) for r in range(2)]
        mk = lambda q: tup(VecV(list(q[0])), VecV(list(q[1])))
        def lp(I, Fr):
            lh = loop_heads(Fr.body); nm = Fr.body.names
            if len(lh) != 1 or 'state' not in nm: raise Unsupported('lost anchor: the loop over rounds')
            L = [i for i, d in enumerate(Fr.body.locals) if False]
            def state(Fr):
                c = [i for i in range(len(Fr.L)) if isinstance(Fr.L[i], VecV) and i == st.loc]
                return c
            def head(I, Fr, bb):
                st.n += 1
                if st.n == 1:
                    c = [i for i, v in enumerate(Fr.L) if isinstance(v, VecV) and [id(x) for x in v.l] == [id(x) for x in st.s]]
                    if nm['state'] not in c: raise Unsupported('lost anchor: the state of rescue_permutation')
                    its = {id(v.it): v for v in Fr.L if isinstance(v, ItV)}
                    rest = list(its.values())[0].it.rest() if len(its) == 1 else []
                    ctx.concrete(len(rest) == 2 and all(P.key(x.p) == P.key(y.p) for q, k in zip(rest, ks) for u, v in zip(q.f, k) for x, y in zip(lst(u), v)), 'all rounds are applied in order'); seen.add('base')
                    st.cur = [st.fe('F', 'c%d' % i) for i in range(w)]; Fr.L[nm['state']] = VecV(list(st.cur))
                    st.more = st.choose(2) == 1; it = m.ListIt([mk(ks[1])] if st.more else [])
                    for v in Fr.L:
                        if isinstance(v, ItV): v.it = it
                else:
                    same(ctx, st, lst(Fr.L[nm['state']]), round_(st, I, st.cur, *ks[1]), 'one more round'); seen.add('step'); raise Done()
            return {next(iter(lh)): head}
        I = ctx.interp(st, loops={key: lp}, **cfgp(st, {'rescue-generate_rescue_constants': lambda I, T, a: VecV([mk(q) for q in ks])}))
        return own_body(I, key, E1, [sl(st.s), 128])
    for st, res in ctx.explore(FI(), run):
        ctx.no_panic(st, res, 'rescue_permutation'); seen.add('end'); same(ctx, st, lst(res[1]), st.cur, 'the state after the last round is returned')
    ctx.concrete(seen == {'base', 'step', 'end'}, 'base, step and exit reached', {'seen': str(sorted(seen))})

def rounds_ob(ctx, w):
    def run(st):
        st.b = st.int_atom('bits', 0, 2**32); return own_body(ctx.interp(st), 'rescue-recommended_rounds', E1, [w, st.b])
    for st, res in ctx.explore(FI(), run):
        ctx.no_panic(st, res, 'recommended_rounds'); r = res[1]; rp = m.ip(r)
        # r >= 10, 2 w r >= bits, and r is the least such
        ctx.ge0(st, P.sub(rp, P.const(10)), 'at least 10 rounds'); ctx.ge0(st, P.sub(P.scale(rp, 2*w), m.ip(st.b)), '2 w r covers the security level')
        if not (m.conc(r) and int(r) == 10): ctx.ge0(st, P.sub(P.sub(m.ip(st.b), P.const(1)), P.scale(P.sub(rp, P.const(1)), 2*w)), 'no more rounds than needed')
def consts_ob(ctx, w, sec):
    def run(st):
        st.draws = []
        def rr(I, T, a):
            r = m.dr(a[0])
            if r is not st.rng: raise Unsupported('another generator')
            x = st.fe('F', 'd%d' % len(st.draws)); st.draws.append(x); return x
        def seed(I, T, a):
            ctx.concrete(a[0] == 1337, 'the generator is seeded with the declared constant', {'seed': str(a[0])}); st.rng = Opaque('rng'); return st.rng
        I = ctx.interp(st, over={'Field::rand_from_rng': rr, 'SeedableRng::seed_from_u64': seed})
        st.want = max(10, -(-sec // (2*w)))
        return own_body(I, 'rescue-generate_rescue_constants', E1, [w, sec])
    for st, res in ctx.explore(FI(), run):
        ctx.no_panic(st, res, 'generate_rescue_constants'); l = lst(res[1])
        ctx.concrete(len(l) == st.want, 'one pair of constant vectors per round', {'got': str(len(l)), 'want': str(st.want)})
        fl = [x for q in l for v in q.f for x in lst(v)]
        ctx.concrete(all(len(lst(v)) == w for q in l for v in q.f) and [id(x) for x in fl] == [id(x) for x in st.draws], 'the constants are the successive outputs of the seeded generator')

# ---------------------------------------------------------------- the matrix
def apply_ob(ctx, n):
    def run(st):
        st.s = [st.fe('F', 's%d' % i) for i in range(n)]; st.I = ctx.interp(st, over=mds_uf(st)); return own_body(st.I, 'mds-apply_mds', E1, [VecV(list(st.s))])
    for st, res in ctx.explore(FI(), run):
        ctx.no_panic(st, res, 'apply_mds'); same(ctx, st, lst(res[1]), layer(st, st.I, st.s, [st.fconst('F', 0)] * n), 'matrix times vector of length %d' % n)
def det(M, p):
    if not M: return 1
    return sum((-1)**j * M[0][j] * det([r[:j] + r[j+1:] for r in M[1:]], p) for j in range(len(M))) % p
def matrix_ob(ctx, f, ns):
    p = FIELDS[f][2]
    fi = {'F': FieldInfo('F', p, {'BYTES': 8*FIELDS[f][1]})}
    for n in ns:
        def run(st):
            I = ctx.interp(st)
            def at(r, c): return m.fconstval(I, I.inherent(('adt', 'mds::MdsMatrix', [F]), 'get', [], [Ref([M], 0), r, c])[0])
            U = own_body(I, 'mds-generate_mds_matrix', E1, [n])
            M = A('MdsMatrix', None, [U, A('PhantomData', None, [])], (F,), ['unparameterized', '_phantom'])
            return [[int(at(r, c)) for c in range(n)] for r in range(n)]
        for st, res in ctx.explore(fi, run):
            ctx.no_panic(st, res, 'mds_matrix'); M = res[1]
            for r in range(n):
                for c in range(n): ctx.concrete(M[r][c] * (n + r - c) % p == 1, '%s: entry (%d, %d) of the %d by %d matrix is 1/(n + r - c)' % (f, r, c, n, n), {'entry': hex(M[r][c])})
            for k in range(1, min(n, 4) + 1):
                for R in itertools.combinations(range(n), k):
                    for C_ in itertools.combinations(range(n), k): ctx.concrete(det([[M[r][c] for c in C_] for r in R], p) != 0, '%s: the minor %r x %r of the %d by %d matrix is invertible' % (f, R, C_, n, n))
def cache_ob(ctx):
    """the cache is keyed by field and size"""
    fi = {'F': FieldInfo('F', FIELDS['TweedledeeBase'][2], {'BYTES': 32}), 'S': FieldInfo('S', FIELDS['TweedledumBase'][2], {'BYTES': 32})}
    def run(st):
        I = ctx.interp(st); out = []
        for T, n in ((F, 2), (F, 3), (F, 2), (SF, 2), (SF, 3), (F, 3), (SF, 2), (F, 4), (SF, 4), (F, 2)):
            M = own_body(I, 'mds-mds_matrix', {'F': T}, [n])
            out.append((T, n, [[m.fconstval(I, I.inherent(('adt', 'mds::MdsMatrix', [T]), 'get', [], [Ref([M], 0), r, c])[0]) for c in range(n)] for r in range(n)]))
        return out
    for st, res in ctx.explore(fi, run):
        ctx.no_panic(st, res, 'mds_matrix')
        for T, n, M in res[1]:
            p = FIELDS['TweedledeeBase' if T == F else 'TweedledumBase'][2]
            for r in range(n):
                for c in range(n): ctx.concrete(M[r][c] * (n + r - c) % p == 1, 'matrix of size %d requested for %s' % (n, T[1]), {'entry (%d, %d)' % (r, c): hex(M[r][c])})

# ---------------------------------------------------------------- sponges
def perm(st, fid, state, bits):
    f = st.fs(fid); k = ('perm', str(bits), tuple(P.key(f.norm(x.p)) for x in state))
    if k not in st.ucache:
        st.np = getattr(st, 'np', 0) + 1; st.ucache[k] = [st.fe(fid, 'perm%d.%d.' % (st.np, i)) for i in range(len(state))]
    return list(st.ucache[k])
def sponge(st, fid, inp, n, bits):
    s = [st.fconst(fid, 0)] * 4; out = []
    for k in range(0, len(inp), RATE):
        c = inp[k:k+RATE]; s = perm(st, fid, [FE(fid, P.add(x.p, c[i].p)) if i < len(c) else x for i, x in enumerate(s)], bits)
    while len(out) < n:
        out += s[:RATE]
        if len(out) < n: s = perm(st, fid, s, bits)
    return out[:n]
def sponge_ob(ctx, ni):
    for no in range(0, 11):
        def run(st):
            st.i = [st.fe('F', 'i%d' % k) for k in range(ni)]; I = ctx.interp(st, over={'rescue-rescue_permutation': lambda I, T, a: VecV(perm(st, 'F', lst(a[0]), m.dr(a[1])))})
            r = [('sponge', no, lst(own_body(I, 'rescue-rescue_sponge', E1, [VecV(list(st.i)), no, 77])))]
            if no in (1, 2, 3):
                h = own_body(I, 'rescue-rescue_hash_n_to_%d' % no, E1, [VecV(list(st.i)), 77]); r.append(('hash', no, [h] if no == 1 else list(h.f)))
            if ni == no == 1: r.append(('hash_1_to_1', 1, [own_body(I, 'rescue-rescue_hash_1_to_1', E1, [st.i[0], 77])]))
            return r
        for st, res in ctx.explore(FI(), run):
            ctx.no_panic(st, res, 'rescue_sponge')
            for nm, n, o in res[1]: same(ctx, st, o, sponge(st, 'F', st.i, n, 77), '%s of %d inputs, %d outputs' % (nm, ni, n))
def csponge_ob(ctx, ni):
    for no in range(0, 8):
        def run(st):
            o = fe_builder(); o['CircuitBuilder::rescue_permutation'] = lambda I, T, a: VecV(perm(st, 'S', lst(a[1]), 0))
            st.i = [st.fe('S', 'i%d' % k) for k in range(ni)]; I = ctx.interp(st, **circ_cfg(st, over=o)); b = [Opaque('builder')]; r = []
            call = lambda fn, *a: I.inherent(BUILDER, fn, [], [Ref(b, 0)] + list(a))[0]
            r.append(lst(call('rescue_sponge', sl(st.i), no)))
            if no in (1, 2, 3):
                h = call('rescue_hash_n_to_%d' % no, sl(st.i)); r.append([h] if no == 1 else list(h.f))
            return r
        for st, res in ctx.explore(FLD(), run):
            ctx.no_panic(st, res, 'in-circuit rescue_sponge')
            for o in res[1]: same(ctx, st, o, sponge(st, 'S', st.i, no, 0), 'in-circuit sponge of %d inputs, %d outputs' % (ni, no), 'S')

# ---------------------------------------------------------------- the permutation in a circuit
def circuit_ob(ctx, rounds, k):
    """constraints of the two rows of round k (and the copies) force a native round on its accumulators"""
    def run(st):
        ks = [([st.fe('S', 'a%d.%d' % (r, i)) for i in range(4)], [st.fe('S', 'b%d.%d' % (r, i)) for i in range(4)]) for r in range(rounds)]
        st.ks = ks
        def gen(I, T, a):
            ctx.concrete(a[0] == 4 and int(a[1]) == 128, 'constants for width 4 and the security level of the builder', {'width': str(a[0]), 'security': str(a[1])})
            return VecV([tup(VecV(list(x)), VecV(list(y))) for x, y in (ks if st.phase == 0 else [ks[k]])])
        st.phase = 0; st.roots = []
        def root(I, T, a):
            x = st.fs('S').norm(m.dr(a[0]).p)
            for y in st.roots:
                if not st.fs('S').norm(P.sub(P.pw(y.p, 5), x)): return y
            raise Undischarged('the root of %s is on no wire' % P.show(x, st.aname)[:200])
        I = ctx.interp(st, **circ_cfg(st, over={'rescue-generate_rescue_constants': gen, 'Field::kth_root': root, 'Field::kth_root_u32': root}, consts={('S', 'ALPHA'): st.fconst('S', 5)}))
        st.I = I; c = Circ(ctx, st, I); st.c = c
        xs = c.inputs(4); r0 = len(c.rows()); out = lst(c.call('rescue_permutation', sl(xs)))
        R = c.rows(); types = [c.row_gate(x) for x in R[r0:]]
        ctx.concrete(types == [['RescueStepAGate'], ['RescueStepBGate']] * rounds + [['BufferGate']], 'the rows are the two steps of every round and a buffer', {'rows': str(types)})
        nw = kconst(I, 'NUM_WIRES'); find = c.classes(); vals = {}
        nr = kconst(I, 'NUM_ROUTED_WIRES')
        def val(j, w):
            q = ('w', j, w); q = find(q) if w < nr else q
            if q not in vals: vals[q] = st.fe('S', 'w%d.%d' % (j, w))
            return vals[q]
        ctx.concrete([find(tkey(x)) for x in xs] == [find(('w', r0, i)) for i in range(4)], 'the inputs are copied to the accumulators of the first row')
        ctx.concrete([find(tkey(x)) for x in out] == [find(('w', r0 + 2*rounds, i)) for i in range(4)], 'the outputs are the accumulators of the last row')
        rows = [r0 + 2*k, r0 + 2*k + 1]
        src = [val(rows[0], i) for i in range(4)]; dst = [val(rows[1] + 1, i) for i in range(4)]
        st.roots = [val(rows[0], i) for i in range(nw)]
        cons = []
        for j in rows:
            g = c.row_gate(R[j])[0]
            cons += [q.p for q in gate_native(I, g, R[j], [val(j, w) for w in range(nw)], [val(j+1, w) for w in range(nw)], [val(j+kconst(I, 'GRID_WIDTH'), w) for w in range(nw)])]
        f = st.fs('S')
        for q in cons:
            q = f.norm(q); lin = [a for a in P.atoms(q) if P.degree_in(q, a) == 1 and P.isconst(P.coeffs_in(q, a)[1])]
            if lin: f.orient(q)
        for q in cons:
            q = f.norm(q)
            if not q: continue
            a = [a for a in P.atoms(q) if P.degree_in(q, a) == 5 and P.isconst(P.coeffs_in(q, a)[5])]
            if not a: raise Undischarged('constraint %s' % P.show(q, st.aname)[:200])
            st.pending = q; raise Undischarged('root constraint not resolved')
        st.phase = 1
        nat = own_body(I, 'rescue-rescue_permutation', {'F': SF}, [sl([FE('S', f.norm(x.p)) for x in src]), 128])
        return lst(nat), dst
    for st, res in ctx.explore(FLD(), run):
        ctx.no_panic(st, res, 'in-circuit permutation'); same(ctx, st, [FE('S', st.fs('S').norm(x.p)) for x in res[1][1]], [FE('S', st.fs('S').norm(x.p)) for x in res[1][0]], 'round %d of %d: the accumulators after the rows are those of a native round' % (k, rounds), 'S')

def obligations(crates, tier):
    t = tier != 'quick'; obs = []
    for w in (1, 2, 3, 4, 5, 6):
        obs.append(Ob('rescue_permutation of width %d: one arbitrary round' % w, lambda ctx, w=w: perm_cut(ctx, w), soft=True))
        obs.append(Ob('recommended_rounds, width %d' % w, lambda ctx, w=w: rounds_ob(ctx, w)))
        for r in (0, 1, 2): obs.append(Ob('rescue_permutation of width %d, %d rounds' % (w, r), lambda ctx, w=w, r=r: perm_ob(ctx, w, r), bounded='2 rounds'))
    for w, sec in ((4, 128), (4, 0), (1, 64), (3, 129), (2, 81)): obs.append(Ob('generate_rescue_constants(%d, %d)' % (w, sec), lambda ctx, w=w, sec=sec: consts_ob(ctx, w, sec), bounded='the listed widths and levels'))
    for n in range(0, 9): obs.append(Ob('apply_mds of %d' % n, lambda ctx, n=n: apply_ob(ctx, n), bounded='sizes up to 8'))
    for f in FIELDS: obs.append(Ob('%s: the matrix and its minors' % f, lambda ctx, f=f: matrix_ob(ctx, f, range(1, 7 if t else 6)), bounded='sizes up to %d, minors up to 4' % (6 if t else 5), timeout=200))
    obs.append(Ob('mds_matrix: the cache keeps fields and sizes apart', cache_ob, bounded='the listed requests'))
    for ni in range(0, 11):
        obs.append(Ob('rescue_sponge of %d inputs' % ni, lambda ctx, ni=ni: sponge_ob(ctx, ni), bounded='up to 10 inputs and outputs'))
        obs.append(Ob('in-circuit rescue_sponge of %d inputs' % ni, lambda ctx, ni=ni: csponge_ob(ctx, ni), bounded='up to 10 inputs, 7 outputs'))
    for R in (1, 2, 3):
        for k in range(R): obs.append(Ob('in-circuit rescue_permutation: round %d of %d' % (k, R), lambda ctx, R=R, k=k: circuit_ob(ctx, R, k), bounded='up to 3 rounds', timeout=200))
    return obs
