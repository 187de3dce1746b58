from contracts.circ import *
from engine.interp import loop_heads
from engine.state import FieldInfo
import engine.poly as P, itertools, random
LEVEL = 'other'
NOTE = 'the two operations of the partition table are proved against union of classes from an arbitrary table (the merge loop is cut); the sigma construction is proved for enumerated circuits'
FUNCTIONS = ['TargetPartitions::{new, add_partition, merge, get_partition, to_wire_partitions}', 'WirePartitions::{assert_valid, get_neighbor, to_sigma}', 'CircuitBuilder::{copy, get_routing_partitions, build (routing part), add_blinding_gate, route_public_inputs}', 'Wire, Target equality and hashing']
EXPLAIN = ('merge runs on a table whose lists hold arbitrary unknown members around the two targets; its loop over the absorbed class is cut: an arbitrary member is re-indexed and nothing else changes, and afterwards the surviving list holds both classes. '
           'All histories of additions and merges up to a bound are run against union-find as well. Whole circuits are built by the real builder with enumerated copy constraints (routed wires, virtual targets, self copies, repeated and chained copies): the index list given to sigma_polynomials must be a bijection whose cycles are exactly the wires joined by copies.')
ASSUMPTIONS = ['HashMap and Vec behave as finite maps and lists', 'target hashing is consistent with equality (derived implementations)', 'the expensive parts of build (FFT tables, generators, commitments) are replaced by opaque values']
class Done(Infeasible): pass
TP = ('adt', 'partition::TargetPartitions', [SF])
FI = lambda: {'S': FieldInfo('S')}

class UF:
    def __init__(s, xs): s.p = {x: x for x in xs}
    def find(s, x):
        while s.p[x] != x: x = s.p[x]
        return x
    def union(s, a, b): s.p[s.find(a)] = s.find(b)
    def cls(s, x): return frozenset(y for y in s.p if s.find(y) == s.find(x))

def tgt(k): return twire(*k[1:]) if k[0] == 'w' else tvirt(k[1])
def call(I, c, fn, *a):
    r = I.inherent(TP, fn, [], [Ref(c, 0)] + list(a))
    if r is None: raise Unsupported('lost anchor: TargetPartitions::' + fn)
    return r[0]
def members(I, c, k): return [tkey(x) for x in lst(call(I, c, 'get_partition', tgt(k)))]

# ---------------------------------------------------------------- every short history
def hist_ob(ctx, keys, depth, chunk):
    pairs = [(a, b) for a in keys for b in keys]
    hs = [h for d in range(depth+1) for h in itertools.product(pairs, repeat=d)]
    hs = [h for i, h in enumerate(hs) if i % chunk[1] == chunk[0]]
    def run(st):
        st.bad = None; st.n = 0
        for h in hs:
            I = ctx.interp(st); c = [I.inherent(TP, 'new', [], [])[0]]; u = UF(keys)
            for k in keys: call(I, c, 'add_partition', tgt(k))
            for a, b in h: call(I, c, 'merge', tgt(a), tgt(b)); u.union(a, b)
            for k in keys:
                l = members(I, c, k); st.n += 1
                if len(set(l)) != len(l) or frozenset(l) != u.cls(k): st.bad = (h, k, l); return
    for st, res in ctx.explore(FI(), run):
        ctx.no_panic(st, res, 'history of merges')
        ctx.concrete(st.bad is None and st.n > 0, 'classes after the merges are the connected components', {'history': str(st.bad)})

# ---------------------------------------------------------------- one merge from an arbitrary table
def field(v, nm):
    v = m.dr(v)
    if not v.names or nm not in v.names: raise Unsupported('lost anchor: field ' + nm)
    return v.f[v.names.index(nm)]
def merge_ob(ctx, same, pos):
    """lists: pos[0] holds a's class, pos[1] b's class (equal if same), another list a bystander class; each list = arbitrary part, the target, arbitrary part"""
    seen = set(); key = None
    A_, B_, S_, T_ = ('w', 7, 1), ('w', 3, 2), ('v', 5), ('w', 9, 0)
    def run(st):
        st.visits = 0; st.first = None
        def lp(I, Fr):
            lh = loop_heads(Fr.body)
            if len(lh) != 1: raise Unsupported('lost anchor: the loop of merge')
            def head(I, Fr, bb):
                st.visits += 1; its = list({id(v.it): v for v in Fr.L if isinstance(v, ItV)}.values()); idx = field(st.c[0], 'indices')
                if not its: raise Unsupported('lost anchor: the iterator of merge')
                if st.visits == 1:
                    seen.add('base')
                    allv = [list(x.it.l) if isinstance(x.it, m.ListIt) and hasattr(x.it, 'l') else None for x in its]
                    st.k = st.choose(3)     # next element: a itself, another member of a's class; or the end
                    for v in Fr.L:
                        if isinstance(v, ItV): v.it = m.ListIt([Ref([tgt((A_, S_)[st.k])], 0)] if st.k < 2 else [])
                    st.pre = {kk: vv[1] for kk, vv in idx.d.items()}
                    if st.k == 2:
                        # every member of a's class has been re-indexed
                        for kk in (A_, S_): idx.d[m.hkey(I, tgt(kk))][1] = pos[1]
                else:
                    hit = m.hkey(I, tgt((A_, S_)[st.k]))
                    for kk, vv in idx.d.items():
                        ctx.concrete(vv[1] == (pos[1] if kk == hit else st.pre[kk]), 'the visited member is re-indexed to the other class and no other target is')
                    seen.add('step'); raise Done()
            return {next(iter(lh)): head}
        keys = [k for c in ctx.crates for k in c.files if k.endswith('merge') and 'partition' in k]
        I = ctx.interp(st, loops={k: lp for k in keys}); c = st.c = [I.inherent(TP, 'new', [], [])[0]]; st.I = I
        mk = lambda n: Opaque('members', n)
        seg = {i: [mk('%d.0' % i), mk('%d.1' % i)] for i in range(4)}; st.seg = seg
        lists = [VecV([seg[i][0], seg[i][1]]) for i in range(4)]
        def put(i, *ks): lists[i] = VecV([seg[i][0]] + [tgt(k) for k in ks] + [seg[i][1]])
        if same: put(pos[0], A_, B_)
        else: put(pos[0], A_, S_); put(pos[1], B_)
        st.other = ({0, 1, 2, 3} - set(pos)).pop(); put(st.other, T_)
        field(c[0], 'partitions').l[:] = lists
        d = field(c[0], 'indices').d
        for k, i in ((A_, pos[0]), (B_, pos[0] if same else pos[1]), (S_, pos[0]), (T_, st.other)): d[m.hkey(I, tgt(k))] = [tgt(k), i]
        if same: del d[m.hkey(I, tgt(S_))]
        st.before = [list(l.l) for l in lists]
        call(I, c, 'merge', tgt(A_), tgt(B_))
    def same_list(x, y): return len(x) == len(y) and all(any(a is b or (isinstance(b, A) and isinstance(a, A) and tkey(a) == tkey(b)) for b in y) for a in x)
    for st, res in ctx.explore(FI(), run):
        ctx.no_panic(st, res, 'merge'); I = st.I; seen.add('end')
        parts = [lst(x) for x in lst(field(st.c[0], 'partitions'))]; d = field(st.c[0], 'indices').d
        at = lambda k: d[m.hkey(I, tgt(k))][1]
        ctx.concrete(at(T_) == st.other and same_list(parts[st.other], st.before[st.other]), 'another class keeps its index and members')
        if same: ctx.concrete(at(A_) == at(B_) == pos[0] and same_list(parts[pos[0]], st.before[pos[0]]), 'merging within a class changes nothing')
        else:
            ctx.concrete(at(A_) == at(B_) == at(S_), 'all members share one index')
            ctx.concrete(same_list(parts[at(B_)], st.before[pos[0]] + st.before[pos[1]]), 'the surviving list holds both classes, each member once', {'got': repr(parts[at(B_)])[:200]})
    ctx.concrete(seen == ({'end'} if same else {'base', 'step', 'end'}), 'base, step and exit reached', {'seen': str(seen)})

# ---------------------------------------------------------------- whole circuits
def build_over(st, cap):
    op = lambda nm: (lambda I, T, a: Opaque(nm)) if nm in ('point', 'msm') else (lambda I, T, a: VecV([Opaque(nm)]))
    def sig(I, T, a): cap['sigma'] = [m.conc(x) and int(x) if not isinstance(x, int) else x for x in lst(a[0])]; cap['degree'] = int(a[1]); return VecV([Opaque('sigma chunks')])
    o = {'fft-fft_precompute': lambda I, T, a: Opaque('fft', int(a[0])), 'hash_to_curve-blake_hash_usize_to_curve': op('point'), 'curve-curve_msm-msm_precompute': op('msm'),
         'AffinePoint::batch_to_projective': op('points'), 'plonk_util-values_to_polynomials': op('polys'), 'plonk_util-polynomials_to_values_padded': op('values'), 'plonk_util-commit_polynomials': op('commitments'),
         'plonk_util-sigma_polynomials': sig, 'Field::primitive_root_of_unity': lambda I, T, a: (cap.setdefault('roots', []).append(int(a[0])), st.ucache.setdefault(('root', int(a[0])), st.fe('S', 'w%d' % int(a[0]))))[1],
         'Field::cyclic_subgroup_known_order': lambda I, T, a: VecV([Opaque('subgroup', (P.key(a[0].p), int(a[1])))]), 'util-transpose': op('transposed'), 'Field::rand': lambda I, T, a: st.fe('S', 'rand')}
    return o

def circuit(ctx, st, fill):
    cap = {}; I = ctx.interp(st, **circ_cfg(st, over=build_over(st, cap))); c = Circ(ctx, st, I)
    fill(c); st.copies = c.copies(); st.npi = c.field('public_input_index')
    b = s_b(c); out = I.inherent(BUILDER, 'build', [], [b])
    if out is None: raise Unsupported('lost anchor: build')
    return c, I, m.dr(out[0]), cap
def s_b(c): return c.b[0]

def sigma_check(ctx, cap, copies, nr, what):
    n = cap['degree']; s = cap['sigma']; N = n * nr
    ctx.concrete(len(s) == N, what + ': one entry per routed wire', {'len': str(len(s)), 'want': str(N)})
    ctx.concrete(sorted(s) == list(range(N)), what + ': sigma is a bijection', {'sigma': str(s)})
    keys = set(); [keys.update(p) for p in copies]
    for g in range(n):
        for i in range(nr): keys.add(('w', g, i))
    u = UF(keys)
    for a, b in copies: u.union(a, b)
    for i in range(nr):
        for g in range(n):
            cyc = []; x = i*n + g
            while x not in cyc: cyc.append(x); x = s[x]
            want = {k[2]*n + k[1] for k in u.cls(('w', g, i)) if k[0] == 'w'}
            ctx.concrete(set(cyc) == want, what + ': the cycle through wire %d of gate %d is its class' % (i, g), {'cycle': str(cyc), 'class': str(sorted(want))})

def circ_ob(ctx, copies, nv=3, rows=0, pis=0):
    def run(st):
        def fill(c):
            for _ in range(nv): c.call('add_virtual_target')
            for _ in range(pis): c.call('add_public_input')
            for _ in range(rows): c.call('zero_wire') if not c.rows() else c.call('mul', tvirt(0), tvirt(0))
            for a, b in copies: c.call('copy', pt_(a), pt_(b))
        st.r = circuit(ctx, st, fill)
    for st, res in ctx.explore(FLD(), run):
        what = 'copies %r' % (copies,)
        ctx.no_panic(st, res, what); c, I, out, cap = st.r; nr = kconst(I, 'NUM_ROUTED_WIRES')
        cs = [(route(I, out, a), route(I, out, b)) for a, b in st.copies]
        sigma_check(ctx, cap, cs, nr, what)
        tp = [field(out, 'routing_target_partitions')]
        keys = {k for p in cs for k in p} | {('w', g, i) for g in range(cap['degree']) for i in range(kconst(I, 'NUM_WIRES'))} | {('v', i) for i in range(nv)}
        u = UF(keys)
        for a, b in cs: u.union(a, b)
        for k in sorted(keys): ctx.concrete(sorted(t for t in members(I, tp, k) if t[0] != 'p') == sorted(u.cls(k)), what + ': the class used by witness generation of %r' % (k,))
def pt_(k): return A('Target', 'PublicInput', [A('PublicInput', None, [k[1], unit()])]) if k[0] == 'p' else tgt(k)
def route(I, out, k):
    if k[0] != 'p': return k
    off = int(field(out, 'num_gates_without_pis')); nw = kconst(I, 'NUM_WIRES'); nr = kconst(I, 'NUM_ROUTED_WIRES')
    g, i = off + 2*(k[1] // nw), k[1] % nw
    return ('w', g, i) if i < nr else ('w', g+1, i - nr)

def bad_ob(ctx, copies):
    def run(st):
        def fill(c):
            for a, b in copies: c.call('copy', tgt(a), tgt(b))
        st.r = circuit(ctx, st, fill)
    for st, res in ctx.explore(FLD(), run): ctx.concrete(res[0] == 'panic', 'a copy constraint on a wire outside the permutation argument is rejected: %r' % (copies,))

def obligations(crates, tier):
    t = tier != 'quick'; obs = []
    for same in (False, True):
        for pos in ((0, 2), (2, 0), (1, 3), (3, 1)):
            obs.append(Ob('merge, classes in lists %d and %d%s, arbitrary members' % (pos + (', already joined' if same else '',)), lambda ctx, same=same, pos=pos: merge_ob(ctx, same, pos), soft=True))
    k3 = [('w', 0, 0), ('v', 0), ('w', 1, 3)]; k4 = k3 + [('w', 0, 1)]
    for i in range(4): obs.append(Ob('every history of up to 3 merges of 3 targets, part %d' % i, lambda ctx, i=i: hist_ob(ctx, k3, 3, (i, 4)), bounded='3 targets, 3 merges', timeout=200))
    n = 8
    for i in range(n): obs.append(Ob('every history of up to %d merges of 4 targets, part %d' % (3 if t else 2, i), lambda ctx, i=i: hist_ob(ctx, k4, 3 if t else 2, (i, n)), bounded='4 targets, %d merges' % (3 if t else 2), timeout=600))
    W = lambda g, i: ('w', g, i); V = lambda i: ('v', i); PI = lambda i: ('p', i)
    cases = [(), ((W(0, 0), W(1, 1)),), ((W(0, 0), W(0, 0)),), ((W(0, 5), W(3, 5)), (W(3, 5), W(1, 0))), ((V(0), W(0, 2)), (V(0), W(2, 2)), (V(1), W(1, 1)), (W(2, 2), V(1))),
             ((V(0), V(1)), (V(1), W(1, 4)), (V(2), V(0)), (W(2, 0), V(2))), ((W(0, 0), W(1, 0)), (W(2, 0), W(3, 0)), (W(1, 0), W(3, 0)), (W(0, 0), W(2, 0))),
             ((W(0, 1), W(1, 1)), (W(1, 1), W(0, 1)), (W(0, 1), W(1, 1))), ((W(3, 0), W(2, 0)), (W(2, 0), W(1, 0)), (W(1, 0), W(0, 0)), (W(0, 0), W(3, 0)))]
    rng = random.Random(5)
    for k in range(12 if t else 5):
        ks = [W(g, i) for g in range(4) for i in range(6)] + [V(i) for i in range(3)]
        cases.append(tuple((rng.choice(ks), rng.choice(ks)) for _ in range(rng.choice((2, 5, 9, 20)))))
    for i, cs in enumerate(cases): obs.append(Ob('built circuit %d with %d copies' % (i, len(cs)), lambda ctx, cs=cs: circ_ob(ctx, cs), bounded='circuits of 4 to 16 gates, enumerated copies', timeout=200))
    obs.append(Ob('built circuit with arithmetic gates', lambda ctx: circ_ob(ctx, ((V(0), W(1, 3)),), rows=4), bounded='8 gates', timeout=200))
    pis = [((PI(0), W(0, 0)),), ((PI(0), V(0)), (PI(5), V(0)), (PI(6), W(1, 1)), (PI(8), V(1))), ((PI(9), W(0, 1)), (PI(17), PI(3)), (V(2), PI(10)))]
    for i, cs in enumerate(pis): obs.append(Ob('built circuit with public inputs %d' % i, lambda ctx, cs=cs: circ_ob(ctx, cs, pis=18 if i == 2 else 9), bounded='up to 18 public inputs', timeout=300))
    for cs in (((W(0, 0), W(1, 6)),), ((W(0, 8), W(2, 1)), (W(2, 1), W(0, 0))), ((V(0), W(1, 7)), (V(0), W(2, 0)))):
        obs.append(Ob('copies to unrouted wires %r' % (cs,), lambda ctx, cs=cs: bad_ob(ctx, cs) if cs[0][0][0] == 'w' else bad_v(ctx, cs), bounded='enumerated', timeout=200))
    return obs
def bad_v(ctx, copies):
    def run(st):
        def fill(c):
            c.call('add_virtual_target')
            for a, b in copies: c.call('copy', tgt(a), tgt(b))
        st.r = circuit(ctx, st, fill)
    for st, res in ctx.explore(FLD(), run): ctx.concrete(res[0] == 'panic', 'a copy constraint on a wire outside the permutation argument is rejected: %r' % (copies,))
