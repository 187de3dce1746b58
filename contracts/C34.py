from contracts.circ import *
from contracts.C21 import field, pt_
from contracts.C26 import mkstruct
from engine.interp import loop_heads
from engine.models import SymL, SymIt, SymRangeIt
from engine.state import FieldInfo
import engine.poly as P, random
LEVEL = 'other'
NOTE = 'permutation_polynomial and the vanishing values of the prover are proved for every circuit size (loop cut, symbolic lengths); the sigma tables are enumerated to degree 8'
FUNCTIONS = ['plonk_util::{permutation_polynomial, sigma_polynomials}', 'partition::get_subgroup_shift', 'Circuit::vanishing_poly', 'plonk_recursion::verify_assumptions (permutation, gate and quotient terms)', 'Witness::get_indices']
EXPLAIN = ('permutation_polynomial runs on a witness, sigma tables and a subgroup of symbolic length n, its outer loop cut at an arbitrary row: the accumulator starts as [1], row t appends last * prod(w + beta k_j x + gamma) / prod(w + beta sigma + gamma) with sigma taken at stride 8, and the result has n entries; a panic needs a zero denominator. '
           'Small sizes run without the cut. vanishing_poly runs on tables of symbolic length 8n and its value at an arbitrary position is the batched sum of L_1 (Z - 1), the permutation term with the next row eight places on, and the gate constraints. '
           'verify_assumptions is executed over the real builder and gates: its constraint system implies the same formula over the openings.')
ASSUMPTIONS = ['field operations and inversion meet their contracts (C01, C02)', 'eval_l_1 and reduce_with_powers meet their contracts (C14)', 'evaluate_all_constraints meets its contract (C17, C18)', 'the six shifts lie in distinct cosets of every two-power subgroup (checked on the real values in the replay)', 'FFTs meet their contracts (C12)']
TRUSTED = ['ChaCha8 (an unknown function of its seed)']
class Done(Infeasible): pass
NR = 6; CT = ('adt', 'plonk::Circuit', [OUT])
k_ = lambda p: tuple(sorted(p.items()))

def shift_over(st, fid='F'):
    def over(I, T, a):
        k = ('shift', k_(m.ip(a[0])))
        if k not in st.ucache: st.ucache[k] = st.fe(fid, 'k%s' % (a[0] if m.conc(a[0]) else len(st.ucache)))
        return st.ucache[k]
    return over
def tab(I, st, n, nm, fid='F', fn=None):
    d = {}
    def at(p):
        k = k_(p)
        if k not in d: d[k] = fn(p) if fn else st.fe(fid, '%s[%s]' % (nm, P.cval(p) if P.isconst(p) else len(d)))
        return d[k]
    return VecV(SymL(I, n, at)) if not m.conc(n) else VecV([at(P.const(i)) for i in range(n)]), at
def setup(ctx, st, n, loops=None, over=None):
    o = {'partition-get_subgroup_shift': shift_over(st)}; o.update(over or {})
    I = ctx.interp(st, over=o, loops=loops or {}); st.I = I; st.n = n
    st.W, st.w = tab(I, st, n, 'row', fn=lambda p: VecV([st.fe('F', 'w%d@%d' % (j, len(st.ucache))) for j in range(9)]))
    n8 = 8*n if m.conc(n) else m.mk(P.scale(n.p, 8))
    st.S = [tab(I, st, n8, 'sigma%d' % j) for j in range(NR)]; st.X, st.x = tab(I, st, n, 'x')
    st.be, st.ga = st.fe('F', 'beta'), st.fe('F', 'gamma')
    wit = mkstruct(I, 'Witness', (F,), wire_values=st.W)
    st.args = [n, m.slice_of(st.X), Ref([wit], 0), SliceRef([s for s, _ in st.S], 0, NR), st.be, st.ga]
    return I
def factors(st, p):
    """numerator and denominator of row p"""
    sh = shift_over(st); a = b = P.const(1); row = st.w(p).l; x = st.x(p).p; fs = []
    for j in range(NR):
        w = P.add(row[j].p, st.ga.p); a = P.mul(a, P.add(w, P.mul(st.be.p, P.mul(sh(None, None, [j]).p, x))))
        d = P.add(w, P.mul(st.be.p, st.S[j][1](P.scale(p, 8)).p)); fs.append(d); b = P.mul(b, d)
    return a, b, fs
def zero_den(ctx, st, rows, what):
    """the panic is a division by zero"""
    f = st.fs('F')
    for p in rows:
        _, b, fs = factors(st, p)
        if any(f.status(q) == 'zero' for q in fs + [b]): return
    raise Undischarged(what + ': panics on a path where no denominator is zero')
def cut_ob(ctx):
    key = 'plonk_util-permutation_polynomial'; seen = set()
    def run(st):
        st.vis = 0; st.head = None; n = st.int_atom('n', 1, 2**30)
        def lp(I, Fr):
            def head(I, Fr, bb):
                if st.head is None: st.head = bb
                if bb != st.head: return
                st.vis += 1
                if st.vis == 1:
                    zs = [v for v in Fr.L if isinstance(v, VecV) and type(v.l) is list and len(v.l) == 1 and isinstance(v.l[0], FE)]
                    its = list({id(v): v for v in Fr.L if isinstance(v, A) and v.tag == 'Range' and any(isinstance(x, SI) for x in v.f)}.values()) + list({id(v.it): v.it for v in Fr.L if isinstance(v, ItV) and isinstance(v.it, (SymIt, SymRangeIt))}.values())
                    if len({id(z) for z in zs}) != 1 or len(its) != 1: raise Unsupported('lost anchor: accumulator and iterator of permutation_polynomial')
                    z, it = zs[0], its[0]; ctx.zero(st, 'F', P.sub(z.l[0].p, P.const(1)), 'the accumulator starts at 1')
                    lo, hi = (m.ip(it.f[0]), m.ip(it.f[1])) if isinstance(it, A) else (m.ip(it.cur), m.ip(it.end)) if isinstance(it, SymRangeIt) else (it.pos, it.n)
                    T = P.sub(hi, lo); ctx.concrete(k_(P.add(T, P.const(1))) == k_(n.p), 'one step per row but the last', {'steps': str(T)}); seen.add('base')
                    t = st.int_atom('t', 0, 2**30); st.t = t.p; st.add_con('ge0', P.sub(T, t.p)); pos = P.add(lo, t.p)
                    if isinstance(it, A): it.f[0] = m.mk(pos)
                    elif isinstance(it, SymRangeIt): it.cur = m.mk(pos)
                    else: it.pos = pos
                    _, st.z = tab(I, st, m.mk(n.p), 'Z'); z.l = SymL(I, m.mk(P.add(t.p, P.const(1))), st.z); st.zvec = z
                else:
                    l = st.zvec.l; ctx.concrete(isinstance(l, SymL) and len(l.app) == 1, 'one value is appended per row'); a, b, _ = factors(st, st.t)
                    ctx.zero(st, 'F', P.sub(P.mul(l.app[0].p, b), P.mul(st.z(st.t).p, a)), 'Z(row + 1) prod(w + beta sigma + gamma) = Z(row) prod(w + beta k x + gamma)'); seen.add('step'); raise Done()
            return {h: head for h in loop_heads(Fr.body)}
        setup(ctx, st, n, {key: lp}); r = own_body(st.I, key, {'F': F}, st.args); l = m.slice_of(r); st.fits = st.decide(m.ieq(st, l.n, n)); return r
    for st, res in ctx.explore({'F': FieldInfo('F')}, run, max_paths=4000):
        if res[0] == 'panic':
            if 'on None' in res[1] or 'division by zero' in res[1]: zero_den(ctx, st, [st.t], 'permutation_polynomial'); continue
        ctx.no_panic(st, res, 'permutation_polynomial'); seen.add('end'); l = res[1].l
        ctx.concrete(res[1] is st.zvec and st.fits and isinstance(l, SymL) and not l.app, 'the accumulator is returned, with one value per row')
    ctx.concrete(seen == {'base', 'step', 'end'}, 'base, step and exit reached', {'seen': str(sorted(seen))})
def fixed_ob(ctx, n, symbolic):
    def run(st):
        rng = random.Random(n); st.ucache.clear()
        setup(ctx, st, n)
        if not symbolic:        # only the challenges are indeterminate
            c = lambda: st.fconst('F', rng.randrange(1, 97))
            for r in st.W.l: r.l[:] = [c() for _ in r.l]
            for x in st.S: x[0].l[:] = [c() for _ in x[0].l]
            st.X.l[:] = [c() for _ in st.X.l]
            for j in range(NR): st.ucache[('shift', k_(P.const(j)))] = c()
            st.w = lambda p: st.W.l[P.cval(p)]; st.x = lambda p: st.X.l[P.cval(p)]; st.S = [(s, lambda p, s=s: s.l[P.cval(p)]) for s, _ in st.S]
        return own_body(st.I, 'plonk_util-permutation_polynomial', {'F': F}, st.args)
    ok = 0
    for st, res in ctx.explore({'F': FieldInfo('F')}, run, max_paths=4000):
        w = 'permutation_polynomial, %d rows' % n
        if res[0] == 'panic' and ('on None' in res[1] or 'division by zero' in res[1]): zero_den(ctx, st, [P.const(i) for i in range(n-1)], w); continue
        ctx.no_panic(st, res, w); ok += 1; z = lst(res[1]); ctx.concrete(len(z) == n, w + ': length'); ctx.zero(st, 'F', P.sub(z[0].p, P.const(1)), w + ': starts at 1')
        for i in range(n-1):
            a, b, _ = factors(st, P.const(i)); ctx.zero(st, 'F', P.sub(P.mul(z[i+1].p, b), P.mul(z[i].p, a)), w + ': step %d' % i)
    ctx.concrete(ok > 0, 'reached')

# ---------------------------------------------------------------- shifts and sigma tables
def shift_ob(ctx):
    def run(st):
        def seed(I, T, a): return Opaque('rng', [m.dr(a[0]), 0])
        def rand(I, T, a):
            g = m.dr(a[0]).d; k = ('draw', k_(m.ip(g[0])), g[1]); g[1] += 1
            if k not in st.ucache: st.ucache[k] = st.fe('F', 'r%d' % len(st.ucache))
            return st.ucache[k]
        I = ctx.interp(st, over={'SeedableRng::seed_from_u64': seed, 'Field::rand_from_rng': rand}); st.i = st.int_atom('i', 0, 2**32)
        return tup_([own_body(I, 'partition-get_subgroup_shift', {'F': F}, [i]) for i in (st.i, st.i, m.mk(P.add(st.i.p, P.const(1))))])
    for st, res in ctx.explore({'F': FieldInfo('F')}, run):
        ctx.no_panic(st, res, 'get_subgroup_shift'); a, b, c = res[1]; ctx.feq(st, a, b, 'the shift is a function of the index'); ctx.concrete(P.key(a.p) != P.key(c.p), 'shifts of different indices are different draws')
def tup_(l): return l
def sigma_ob(ctx, d):
    def run(st):
        def ex(I, T, a):
            k = ('pow', P.key(m.dr(a[0]).p), k_(m.ip(a[1])))
            if k not in st.ucache: st.ucache[k] = st.fe('F', 'g^%s' % (a[1],))
            return st.ucache[k]
        I = ctx.interp(st, over={'partition-get_subgroup_shift': shift_over(st), 'Field::exp_usize': ex}); st.g = st.fe('F', 'g'); st.ex = ex
        rng = random.Random(d); st.perm = list(range(NR*d)); rng.shuffle(st.perm)
        return own_body(I, 'plonk_util-sigma_polynomials', {'F': F}, [VecV(list(st.perm)), d, st.g])
    for st, res in ctx.explore({'F': FieldInfo('F')}, run):
        w = 'sigma_polynomials, degree %d' % d; ctx.no_panic(st, res, w); r = [lst(x) for x in lst(res[1])]; ctx.concrete([len(x) for x in r] == [d]*NR, w + ': one list per routed wire')
        for j in range(NR):
            for i in range(d):
                x = st.perm[j*d+i]; want = P.mul(shift_over(st)(None, None, [x // d]).p, st.ex(None, None, [st.g, x % d]).p); ctx.zero(st, 'F', P.sub(r[j][i].p, want), w + ': wire %d of gate %d points to wire %d of gate %d' % (j, i, x // d, x % d))

# ---------------------------------------------------------------- the vanishing values of the prover
def vanish_ob(ctx, n):
    sym = n is None; seen = set()
    def run(st):
        N = st.int_atom('n', 65, 2**30) if sym else n; N8 = m.mk(P.scale(m.ip(N), 8))
        def fft(I, T, a): l = m.slice_of(a[0]); st.fftarg = (l, m.dr(a[1])); return st.Z
        def cons(I, T, a):
            k = ('cons',) + tuple(tuple(k_(x.p) for x in lst(y)) for y in a)
            if k not in st.ucache: st.ucache[k] = [st.fe('S', 'c%d.%d' % (i, len(st.ucache))) for i in range(2)]
            return VecV(list(st.ucache[k]))
        def l1(I, T, a):
            k = ('L1', k_(m.ip(a[0])), k_(m.dr(a[1]).p))
            if k not in st.ucache: st.ucache[k] = st.fe('S', 'L1.%d' % len(st.ucache))
            return st.ucache[k]
        def fe(I, T, a): st.vals = m.slice_of(a[0]); st.pre = m.dr(a[1]); return Opaque('vanishing')
        def pad(I, T, a): return Opaque('padded', a[0])
        o = {'partition-get_subgroup_shift': shift_over(st, 'S'), 'fft-fft_with_precomputation_power_of_2': fft, 'plonk_util-pad_to_8n': lambda I, T, a: a[0], 'gates-evaluate_all_constraints': cons, 'plonk_gates-evaluate_all_constraints': cons, 'plonk_util-eval_l_1': l1, 'Polynomial::from_evaluations': fe}
        I = ctx.interp(st, **circ_cfg(st, over=o)); st.I = I
        T = lambda nm, n=N8: tab(I, st, n, nm, 'S')
        st.Z, st.z = T('Z'); st.K = [T('const%d' % j) for j in range(6)]; st.S = [T('sigma%d' % j) for j in range(NR)]; st.W = [T('w%d' % j) for j in range(9)]; st.X, st.x = T('x')
        st.al, st.be, st.ga = [st.fe('S', x) for x in ('alpha', 'beta', 'gamma')]; st.p8 = Opaque('fft 8n')
        names = None
        for c in I.crates:
            for sname in c.structs:
                if sname.split('::')[-1] == 'Circuit': names = [x for x, _ in c.structs[sname][1]]; full = sname
        if names is None: raise Unsupported('lost anchor: struct Circuit')
        f = {x: Opaque(x) for x in names}; f['gate_constants'] = tab(I, st, N, 'gate', fn=lambda p: VecV([]))[0]
        f.update(constants_8n=VecV([v for v, _ in st.K]), s_sigma_values_8n=VecV([v for v, _ in st.S]), subgroup_8n=st.X, fft_precomputation_8n=st.p8, subgroup_n=T('xn', N)[0])
        if set(f) != set(names): raise Unsupported('fields of Circuit')
        C_ = A('Circuit', None, [f[x] for x in names], (OUT,), tuple(names)); st.coef = SliceRef([Opaque('Z coefficients')], 0, 1)
        q = I.inherent(CT, 'vanishing_poly', [INN], [Ref([C_], 0), SliceRef([v for v, _ in st.W], 0, 9), st.al, st.be, st.ga, st.coef])
        if q is None: raise Unsupported('lost anchor: vanishing_poly')
        t = st.int_atom('t', 0, 2**33) if sym else st.choose(8*n); st.t = m.ip(t)
        if sym: st.add_con('ge0', P.sub(P.sub(N8.p, t.p), P.const(1)))
        st.same = st.decide(m.ieq(st, st.vals.n, N8)); st.val = m.dr(m.index(I, st.vals, t)); st.N = m.ip(N); st.N8 = m.ip(N8)
        def nxt(d):
            p = P.add(st.t, P.const(d))
            if not sym: return P.const(P.cval(p) % (8*n))
            return p if st.decide(m.ige(st, N8, m.mk(P.add(p, P.const(1))))) else P.sub(p, N8.p)
        st.r, st.b = nxt(8), nxt(8*65); return q[0]
    for st, res in ctx.explore({'S': FieldInfo('S')}, run, max_paths=20000):
        w = 'vanishing_poly'; ctx.no_panic(st, res, w); ctx.concrete(res[1].what == 'vanishing' and st.pre is st.p8 and st.fftarg[1] is st.p8 and st.fftarg[0].l is st.coef.l, w + ': interpolated over the 8n domain'); ctx.concrete(st.same, w + ': one value per point of the domain')
        K = lambda l, p: tuple(k_(x(p).p) for _, x in l)
        c = st.ucache.get(('cons', K(st.K, st.t), K(st.W, st.t), K(st.W, st.r), K(st.W, st.b))); ctx.concrete(c is not None, w + ': gate constraints of the rows here, right and below')
        L1 = st.ucache.get(('L1', k_(st.N), k_(st.x(st.t).p))); ctx.concrete(L1 is not None, w + ': L_1 of the circuit size at the point')
        z, zr = st.z(st.t).p, st.z(st.r).p; f = g = P.const(1); x = st.x(st.t).p
        for j in range(NR):
            wj = P.add(st.W[j][1](st.t).p, st.ga.p); f = P.mul(f, P.add(wj, P.mul(st.be.p, P.mul(shift_over(st, 'S')(None, None, [j]).p, x)))); g = P.mul(g, P.add(wj, P.mul(st.be.p, st.S[j][1](st.t).p)))
        v = P.mul(L1.p, P.sub(z, P.const(1))); a = st.al.p
        v = P.add(v, P.mul(a, P.sub(P.mul(f, z), P.mul(g, zr)))); v = P.add(v, P.mul(P.mul(a, a), P.add(c[0].p, P.mul(a, c[1].p))))
        ctx.zero(st, 'S', P.sub(st.val.p, v), w + ': L_1 (Z - 1) + alpha (Z f - Z_next g) + alpha^2 (constraints)'); seen.add(1)
    ctx.concrete(bool(seen), 'reached')
# ---------------------------------------------------------------- the same formula in circuit
def rec_over(st):
    f = lambda: st.fs('S')
    def iv(x): q = f().norm(m.dr(x).p); f().assume_nonzero(q); return f().inverse(q)
    return {'CircuitBuilder::inv': lambda I, T, a: FE('S', iv(a[1])), 'CircuitBuilder::div': lambda I, T, a: FE('S', f().norm(P.mul(m.dr(a[1]).p, iv(a[2]))))}
def rec_ob(ctx, k):
    NM = [('o_constants', 6), ('o_plonk_sigmas', NR), ('o_local_wires', 9), ('o_right_wires', 9), ('o_below_wires', 9), ('o_plonk_t', 7), ('halo_us', 2), ('old_proofs', 2)]; ONE = ['beta', 'gamma', 'alpha', 'zeta', 'o_plonk_z_local', 'o_plonk_z_right']
    def run(st):
        st.eqs = []; o = fe_builder(); o.update(rec_over(st)); o['partition-get_subgroup_shift'] = shift_over(st, 'S')
        def cons(I, T, a): st.args = [lst(x) for x in a[1:]]; st.c = [st.fe('S', 'c%d' % i) for i in range(2)]; return VecV(list(st.c))
        o['plonk_gates-evaluate_all_constraints_recursively'] = o['gates-evaluate_all_constraints_recursively'] = cons
        o['CircuitBuilder::copy'] = lambda I, T, a: st.eqs.append(P.sub(m.dr(a[1]).p, m.dr(a[2]).p)) or m.unit()
        I = ctx.interp(st, **circ_cfg(st, over=o)); st.v = {}; n = 0; f = {}; l = []
        order = [(x, 1) for x in ONE] + NM; random.Random(k).shuffle(order)     # any layout of the public inputs
        def new(nm): st.v.setdefault(nm, []).append(st.fe('S', nm)); l.append(st.v[nm][-1]); return pt_(('p', len(l)-1))
        for nm, c in order:
            x = [new(nm) for _ in range(c)]; f[nm] = x[0] if nm in ONE else VecV(x)
        st.l = l; b = I.inherent(BUILDER, 'new', [], [128])[0]
        own_body(I, 'plonk_recursion-verify_assumptions', {'C': OUT, 'InnerC': INN}, [Ref([b], 0), k, Ref([mkstruct(I, 'RecursionPublicInputs', (SF,), **f)], 0), SliceRef(l, 0, len(l))]); return b
    for st, res in ctx.explore({'S': FieldInfo('S')}, run):
        w = 'verify_assumptions, degree 2^%d' % k; ctx.no_panic(st, res, w); v = {x: [y.p for y in l] for x, l in st.v.items()}
        kk = lambda l: [P.key(x.p) for x in l]; ctx.concrete([kk(x) for x in st.args] == [list(map(P.key, v[x])) for x in ('o_constants', 'o_local_wires', 'o_right_wires', 'o_below_wires')], w + ': gate constraints of the openings')
        be, ga, al, ze, z, zr = [v[x][0] for x in ONE]; zd = P.pw(ze, 1 << k); zh = P.sub(zd, P.const(1)); f = g = P.const(1)
        for j in range(NR):
            wj = P.add(v['o_local_wires'][j], ga); f = P.mul(f, P.add(wj, P.mul(be, P.mul(shift_over(st, 'S')(None, None, [j]).p, ze)))); g = P.mul(g, P.add(wj, P.mul(be, v['o_plonk_sigmas'][j])))
        n = P.scale(P.sub(ze, P.const(1)), 1 << k)      # L_1 = (zeta^d - 1) / (d (zeta - 1))
        rest = P.add(P.mul(al, P.sub(P.mul(f, z), P.mul(g, zr))), P.mul(P.mul(al, al), P.add(st.c[0].p, P.mul(al, st.c[1].p))))
        t = {}
        for i, x in enumerate(v['o_plonk_t']): t = P.add(t, P.mul(x, P.pw(zd, i)))
        ctx.concrete(len(st.eqs) == 1, w + ': one equation')
        e = st.eqs[0]; want = P.sub(P.mul(P.sub(z, P.const(1)), zh), P.mul(n, P.sub(P.mul(t, zh), rest)))
        ctx.zero(st, 'S', P.sub(P.mul(P.mul(e, zh), n), want), w + ': the equation asserted is the vanishing identity over the openings')
def obligations(crates, tier):
    obs = [Ob('permutation_polynomial: one arbitrary row of any circuit', cut_ob, soft=True), Ob('permutation_polynomial, 2 rows', lambda ctx: fixed_ob(ctx, 2, True), bounded='2 rows'), Ob('permutation_polynomial, 1 row', lambda ctx: fixed_ob(ctx, 1, True), bounded='1 row')]
    for n in (3, 4): obs.append(Ob('permutation_polynomial, %d rows' % n, lambda ctx, n=n: fixed_ob(ctx, n, False), bounded='%d rows, wire values fixed, all challenges' % n))
    obs.append(Ob('get_subgroup_shift', shift_ob))
    for d in (1, 2, 3, 4, 5, 8): obs.append(Ob('sigma_polynomials, degree %d' % d, lambda ctx, d=d: sigma_ob(ctx, d), bounded='degree %d' % d))
    obs.append(Ob('vanishing_poly at an arbitrary point, any size', lambda ctx: vanish_ob(ctx, None)))
    for n in (1, 4): obs.append(Ob('vanishing_poly, size %d' % n, lambda ctx, n=n: vanish_ob(ctx, n), bounded='size %d' % n))
    for k in (1, 2, 4, 7): obs.append(Ob('verify_assumptions, degree 2^%d' % k, lambda ctx, k=k: rec_ob(ctx, k), bounded='degree 2^%d' % k))
    return obs
