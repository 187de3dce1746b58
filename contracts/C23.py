from contracts.circ import *
from contracts.C21 import circuit, tgt, pt_, field, UF, route
from engine.state import FieldInfo
import engine.poly as P, random
LEVEL = 'other'
NOTE = 'every operation is proved for all values on enumerated maps; witness generation is proved for all values on enumerated circuits, given inputs and hash orders'
FUNCTIONS = ['PartialWitness::{new, is_empty, contains_target, contains_wire, contains_all_targets, all_populated_targets, get_target, get_targets, get_wire, set_target, set_targets, set_wire, get/set_point_target(s), get/set_ordering_target, extend}',
             'Witness::{new, get, get_indices, transpose, from_partial}', 'Circuit::{generate_partial_witness, generate_witness, generate_copies}', 'PartialWitness::{replace_public_inputs, copy_buffer_to_pi_gate}', 'util::transpose']
EXPLAIN = ('Each operation runs on maps holding indeterminate values; the whole map afterwards is compared with the finite-map specification (updated keys, untouched keys), and a conflicting assignment must panic exactly when the two values differ. '
           'generate_partial_witness runs on circuits built by the real builder whose generators become ready out of order, under several hash iteration orders; the result must be the least fixpoint: inputs kept, one value per copy class (public-input targets included), '
           'the outputs of every generator whose dependencies are known, and nothing else.')
ASSUMPTIONS = ['HashMap and HashSet behave as finite maps and sets with an arbitrary iteration order', 'the generators meet their contracts (C19)', 'the copy classes are those of C21', 'debug assertions are enabled for conflict detection (documented exclusion otherwise)']
PW = ('adt', 'witness::PartialWitness', [SF]); WT = ('adt', 'witness::Witness', [SF]); CT = ('adt', 'plonk::Circuit', [OUT])
def inh(I, T, fn, args, margs=()):
    r = I.inherent(T, fn, list(margs), args)
    if r is None: raise Unsupported('lost anchor: ' + fn)
    return m.dr(r[0])
def T_(k): return pt_(k) if k[0] == 'p' else tgt(k)
def mkpw(I, d):
    mv = MapV()
    for k, v in d.items(): t = T_(k); mv.d[m.hkey(I, t)] = [t, v]
    return [A('PartialWitness', None, [mv], (SF,), ('wire_values',))]
def dump(pw): return {tkey(e[0]): e[1] for e in field(pw[0], 'wire_values').d.values()}
def same_map(ctx, st, got, want, what):
    ctx.concrete(set(got) == set(want), what + ': populated targets', {'got': str(sorted(map(str, got))), 'want': str(sorted(map(str, want)))})
    for k, v in want.items(): ctx.feq(st, got[k], v, what + ': value of %r' % (k,))
W_ = lambda g, i: ('w', g, i)
V_ = lambda i: ('v', i)
P_ = lambda i: ('p', i)
BASE = [W_(0, 0), W_(0, 1), W_(1, 0), V_(0), V_(1), P_(0), P_(1)]

def setup(ctx, st, keys):
    I = ctx.interp(st, **circ_cfg(st)); st.I = I; st.d = {k: st.fe('S', 'b%d' % i) for i, k in enumerate(keys)}; st.pw = mkpw(I, st.d)
    return I

def set_ob(ctx, fn, ks, base, nvals=None):
    """fn in set_target / set_targets / set_wire / extend; ks keys, new values indeterminate"""
    oks = [0, 0]
    def run(st):
        I = setup(ctx, st, base); st.x = [st.fe('S', 'x%d' % i) for i in range(len(ks))]
        st.conf = []; d = dict(st.d)
        seq = list(zip(ks, st.x))
        if fn == 'extend': seq = list({k: (k, x) for k, x in seq}.values())
        for k, x in seq:
            if k in d: st.conf.append(P.sub(d[k].p, x.p))
            d[k] = x
        st.want = d
        r = Ref(st.pw, 0)
        if fn == 'set_target': inh(I, PW, 'set_target', [r, T_(ks[0]), st.x[0]])
        elif fn == 'set_wire': inh(I, PW, 'set_wire', [r, T_(ks[0]).f[0], st.x[0]])
        elif fn == 'set_targets': inh(I, PW, 'set_targets', [r, sl([T_(k) for k in ks]), sl(st.x)])
        else: inh(I, PW, 'extend', [r, mkpw(I, {k: x for k, x in seq})[0]])
    for st, res in ctx.explore(FLD(), run):
        w = '%s(%r) on %d targets' % (fn, ks, len(base)); f = st.fs('S'); stat = [f.status(p) for p in st.conf]
        if res[0] == 'panic':
            ctx.concrete('nonzero' in stat, w + ': panics only when a value differs from the one stored', {'panic': str(res[1]), 'conflicts': str(stat)}); oks[1] += 1; continue
        ctx.no_panic(st, res, w); oks[0] += 1
        for p in st.conf: ctx.zero(st, 'S', p, w + ': a different value for a set target is rejected')
        same_map(ctx, st, dump(st.pw), st.want, w)
    ctx.concrete(oks[0] > 0, fn + ' accepts consistent values')

def get_ob(ctx, base):
    def run(st):
        I = setup(ctx, st, base); r = Ref(st.pw, 0); st.r = {}; st.m = {}
        for k in BASE + [W_(7, 3), V_(9)]:
            st.r[k] = [inh(I, PW, 'contains_target', [r, T_(k)])] + ([inh(I, PW, 'contains_wire', [r, T_(k).f[0]])] if k[0] == 'w' else [])
        have = [k for k in BASE if k in st.d]
        st.l = lst(inh(I, PW, 'get_targets', [r, sl([T_(k) for k in have + have[:1]])])); st.have = have + have[:1]
        for k in have: st.m[k] = [inh(I, PW, 'get_target', [r, T_(k)])] + ([inh(I, PW, 'get_wire', [r, T_(k).f[0]])] if k[0] == 'w' else [])
        st.e = inh(I, PW, 'is_empty', [r]); st.all = [tkey(x) for x in lst(inh(I, PW, 'all_populated_targets', [r]))]
        st.ca = []
        for mask in range(1 << 4):
            sub = [k for i, k in enumerate((BASE[0], BASE[3], BASE[5], W_(7, 3))) if mask >> i & 1]
            st.ca.append((sub, inh(I, PW, 'contains_all_targets', [r, sl([T_(k) for k in sub])])))
    for st, res in ctx.explore(FLD(), run):
        w = 'queries on %d targets' % len(base); ctx.no_panic(st, res, w)
        for k, l in st.r.items(): ctx.concrete(all(bool(x) == (k in st.d) for x in l), w + ': contains %r' % (k,))
        for k, l in st.m.items():
            for x in l: ctx.feq(st, x, st.d[k], w + ': value of %r' % (k,))
        ctx.concrete(len(st.l) == len(st.have), w + ': get_targets length')
        for k, x in zip(st.have, st.l): ctx.feq(st, x, st.d[k], w + ': get_targets keeps order')
        ctx.concrete(bool(st.e) == (not st.d) and sorted(st.all) == sorted(st.d), w + ': is_empty and all_populated_targets', {'all': str(st.all)})
        for sub, x in st.ca: ctx.concrete(bool(x) == all(k in st.d for k in sub), w + ': contains_all_targets %r' % (sub,))
        same_map(ctx, st, dump(st.pw), st.d, w + ': nothing changes')
def miss_ob(ctx, fn, k):
    def run(st):
        I = setup(ctx, st, [b for b in BASE if b != k]); r = Ref(st.pw, 0)
        if fn == 'get_targets': inh(I, PW, fn, [r, sl([T_(BASE[2]) if k != BASE[2] else T_(BASE[0]), T_(k)])])
        else: inh(I, PW, fn, [r, T_(k).f[0] if fn == 'get_wire' else T_(k)])
    for st, res in ctx.explore(FLD(), run): ctx.concrete(res[0] == 'panic', '%s of an unset target panics' % fn, {'result': repr(res)[:80]})
def new_ob(ctx):
    def run(st):
        I = ctx.interp(st, **circ_cfg(st)); st.a = [inh(I, PW, 'new', [])]; st.b = [I.dispatch(PW, 'Default', [], 'default', [], [])]; st.e = [inh(I, PW, 'is_empty', [Ref(x, 0)]) for x in (st.a, st.b)]
    for st, res in ctx.explore(FLD(), run):
        ctx.no_panic(st, res, 'new'); ctx.concrete(not dump(st.a) and not dump(st.b) and all(map(bool, st.e)), 'a new witness is empty')

def point_ob(ctx, n, conflict):
    """points of the inner curve, whose base field is the witness field"""
    def run(st):
        keys = BASE + ([V_(10 + 2*(n-1) + (conflict - 1))] if conflict else []); I = setup(ctx, st, keys); r = Ref(st.pw, 0)
        st.xy = [(st.fe('S', 'x%d' % i), st.fe('S', 'y%d' % i)) for i in range(n)]
        a, b = I.trait_const('Curve', 'A', [INN]).p, I.trait_const('Curve', 'B', [INN]).p
        for x, y in st.xy: st.assume(SB('fz', 'S', P.sub(P.mul(y.p, y.p), P.add(P.add(P.pw(x.p, 3), P.mul(a, x.p)), b))), True)    # precondition: on the curve
        pts = [A('AffinePoint', None, [x, y, False], (INN,), ('x', 'y', 'zero')) for x, y in st.xy]
        tg = [A('AffinePointTarget', None, [T_(V_(10+2*i)), T_(V_(11+2*i))], (INN,), ('x', 'y')) for i in range(n)]
        st.c = P.sub(st.d[keys[-1]].p, st.xy[-1][conflict-1].p) if conflict else {}
        if n == 1: inh(I, PW, 'set_point_target', [r, tg[0], pts[0]], [INN])
        else: inh(I, PW, 'set_point_targets', [r, sl(tg), sl(pts)], [INN])
        st.g = [inh(I, PW, 'get_point_target', [r, t], [INN]) for t in tg]
    for st, res in ctx.explore(FLD(), run):
        w = 'set_point_target(s) of %d points' % n; z = st.fs('S').status(st.c)
        if res[0] == 'panic': ctx.concrete(bool(conflict) and z == 'nonzero', w + ': panics only on a conflict', {'panic': str(res[1])}); continue
        ctx.no_panic(st, res, w); ctx.zero(st, 'S', st.c, w + ': conflicts are rejected')
        want = dict(st.d)
        for i, (x, y) in enumerate(st.xy): want[V_(10+2*i)] = x; want[V_(11+2*i)] = y
        same_map(ctx, st, dump(st.pw), want, w)
        for g, (x, y) in zip(st.g, st.xy):
            ctx.feq(st, field(g, 'x'), x, w + ': x read back'); ctx.feq(st, field(g, 'y'), y, w + ': y read back'); ctx.concrete(not field(g, 'zero'), w + ': not the point at infinity')

def ord_ob(ctx, mode):
    names = ('lt', 'eq', 'gt'); ks = [V_(20), W_(3, 1), V_(22)]
    def run(st):
        I = setup(ctx, st, BASE); r = Ref(st.pw, 0); t = A('OrderingTarget', None, [T_(k) for k in ks], (SF,), names); st.bad = None
        if mode == 'set':
            st.k = st.choose(3); o = A('Ordering', ('Less', 'Equal', 'Greater')[st.k], [])
            inh(I, PW, 'set_ordering_target', [r, t, o]); st.o = inh(I, PW, 'get_ordering_target', [r, t])
        else:
            st.v = [st.fe('S', n) for n in names]
            for k, x in zip(ks, st.v): inh(I, PW, 'set_target', [r, T_(k), x])
            st.o = inh(I, PW, 'get_ordering_target', [r, t])
    n = 0
    for st, res in ctx.explore(FLD(), run):
        w = 'ordering targets'
        if mode == 'set':
            ctx.no_panic(st, res, w); want = dict(st.d); want.update({k: st.fconst('S', int(i == st.k)) for i, k in enumerate(ks)})
            same_map(ctx, st, dump(st.pw), want, w); ctx.concrete(st.o.var == ('Less', 'Equal', 'Greater')[st.k], w + ': read back', {'got': str(st.o.var)}); n += 1
        else:
            f = st.fs('S'); stat = lambda i, c: f.status(P.sub(st.v[i].p, P.const(c)))
            if res[0] == 'panic':
                # some coordinate must differ from each of the three legal patterns
                ctx.concrete(all(any(stat(i, int(i == j)) == 'nonzero' for i in range(3)) for j in range(3)), w + ': only illegal triples are rejected', {'panic': str(res[1])}); continue
            ctx.no_panic(st, res, w); j = ('Less', 'Equal', 'Greater').index(st.o.var); n += 1
            for i in range(3): ctx.zero(st, 'S', P.sub(st.v[i].p, P.const(int(i == j))), w + ': decoded triple')
    ctx.concrete(n >= 3, 'all three orderings reached')

def dense_ob(ctx, deg, keys):
    def run(st):
        I = setup(ctx, st, keys); nw = kconst(I, 'NUM_WIRES'); st.nw = nw
        st.w = [inh(I, WT, 'from_partial', [Ref(st.pw, 0), deg])]
        rows = [lst(r) for r in lst(field(st.w[0], 'wire_values'))]; st.rows = rows
        st.g = {(j, i): (inh(I, WT, 'get', [Ref(st.w, 0), twire(j, i).f[0]]), inh(I, WT, 'get_indices', [Ref(st.w, 0), j, i])) for j in range(deg) for i in range(nw)}
        st.t = [lst(r) for r in lst(inh(I, WT, 'transpose', [Ref(st.w, 0)]))]
    for st, res in ctx.explore(FLD(), run):
        w = 'dense witness of %d rows' % deg; ctx.no_panic(st, res, w); z = st.fconst('S', 0)
        ctx.concrete(len(st.rows) == deg and all(len(r) == st.nw for r in st.rows), w + ': shape'); ctx.concrete(len(st.t) == st.nw and all(len(r) == deg for r in st.t), w + ': shape of the transpose')
        for (j, i), g in st.g.items():
            want = st.d.get(W_(j, i), z)
            for x in g + (st.t[i][j], st.rows[j][i]): ctx.feq(st, x, want, w + ': wire (%d, %d)' % (j, i))

# ---------------------------------------------------------------- witness generation
ORD = {'insertion': None, 'reversed': lambda l: l[::-1], 'odd first': lambda l: l[1::2] + l[::2]}
def chain(c, given):
    """generators are added in the opposite order of their readiness, through virtual targets"""
    v = [c.call('add_virtual_target') for _ in range(5)]
    y = c.call('inv', v[2]); z = c.call('mul', v[1], v[3]); c.call('copy', z, v[2]); x = c.call('add', v[0], v[0]); c.call('copy', v[1], x); c.call('copy', y, v[4]); return {V_(0): 'a', V_(3): 'b'}
def stuck(c, given):
    v = [c.call('add_virtual_target') for _ in range(4)]
    a = c.call('mul', v[0], v[1]); b = c.call('inv', v[2]); d = c.call('mul', a, b); c.call('copy', d, v[3]); return {V_(0): 'a', V_(2): 'b'}
def pis(c, given):
    p = lst(c.call('add_public_inputs', 9)); v = c.call('add_virtual_target')
    i0 = c.call('inv', p[0]); s = c.call('mul', i0, p[7]); t = c.call('inv', p[8]); c.call('copy', v, p[3]); c.call('mul', s, v); c.call('copy', c.call('inv', t), p[5]); return {P_(0): 'a', P_(7): 'b', P_(8): 'c', P_(3): 'd'}
def pisv(c, given):
    """a public input beyond the routed wires gets its value from a generator"""
    p = lst(c.call('add_public_inputs', 8)); v = c.call('add_virtual_target'); c.call('copy', c.call('inv', v), p[6]); c.call('copy', c.call('mul', p[6], v), p[1]); return {V_(0): 'a'}
def split(c, given):
    v = c.call('add_virtual_target'); bits = lst(c.call('split_binary', v, 3)); s = c.call('mul', bits[0], bits[1]); c.call('add', s, bits[2]); return {V_(0): 5}
def zero(c, given):
    v = [c.call('add_virtual_target') for _ in range(3)]; c.call('copy', c.call('is_zero', v[1]), v[2]); c.call('copy', c.call('sub', v[0], v[2]), v[1]) if False else c.call('copy', c.call('mul', v[0], v[0]), v[1]); return {V_(0): 'a'}
def const(c, given):
    k = c.call('constant_wire_u32', 7); v = c.call('add_virtual_target'); c.call('copy', c.call('mul', k, v), c.call('add_virtual_target')); return {V_(0): 'a'}
def clash(c, given):
    v = [c.call('add_virtual_target') for _ in range(3)]; c.call('copy', v[0], v[1]); c.call('copy', v[2], v[1]); return {V_(0): 'a', V_(2): 'b'}
def clash2(c, given):
    v = [c.call('add_virtual_target') for _ in range(2)]; c.call('copy', c.call('mul', v[0], v[0]), v[1]); return {V_(0): 'a', V_(1): 'b'}
def clash3(c, given):
    v = [c.call('add_virtual_target') for _ in range(2)]; x = c.call('mul', v[0], v[0]); y = c.call('mul', v[1], v[1]); c.call('copy', x, y); return {V_(0): 'a', V_(1): 'b'}
def clash4(c, given):
    p = lst(c.call('add_public_inputs', 2)); v = c.call('add_virtual_target'); c.call('copy', p[1], v); return {P_(1): 'a', V_(0): 'b'}
def joinpi(c, given):
    p = lst(c.call('add_public_inputs', 3)); c.call('copy', p[0], p[2]); c.call('inv', p[2]); return {P_(0): 'a'}
CIRC = dict(chain=chain, stuck=stuck, pis=pis, pisv=pisv, split=split, zero=zero, const=const, joinpi=joinpi)
CLASH = dict(clash=clash, clash2=clash2, clash3=clash3, clash4=clash4)

def gdeps(I, g): return [tkey(x) for x in lst(I.dispatch(('adt', g.tag, list(g.targs)), 'WitnessGenerator', [SF], 'dependencies', [], [Ref([g], 0)]))]
def gen_ob(ctx, fill, order, bits, drop=None, clash=False):
    n = [0, 0]
    def run(st):
        st.g = {}
        def f(c): st.g = fill(c, None)
        st.c, st.I, st.out, st.cap = circuit(ctx, st, f); I = st.I
        if drop is not None: st.g.pop(sorted(st.g)[drop % len(st.g)])
        st.inp = {k: st.fe('S', v) if isinstance(v, str) else st.fconst('S', v) for k, v in st.g.items()}
        I.hashorder = ORD[order]
        st.pw = [I.inherent(CT, 'generate_partial_witness', [], [Ref([st.out], 0), mkpw(I, st.inp)[0]])[0]]
        st.dense = [m.dr(I.inherent(CT, 'generate_witness', [], [Ref([st.out], 0), mkpw(I, st.inp)[0]])[0])] if not clash and order == 'insertion' else None
        I.hashorder = None
    for st, res in ctx.explore(FLD(), run):
        w = 'witness generation, ' + order + ' order'
        if res[0] == 'panic':
            if clash: n[1] += 1
            elif str(res[1]).endswith('on None'): continue     # inverse of zero: the documented precondition of inv
            else: ctx.no_panic(st, res, w)
        c, I, out = st.c, st.I, st.out; nw, nr = kconst(I, 'NUM_WIRES'), kconst(I, 'NUM_ROUTED_WIRES'); off = int(field(out, 'num_gates_without_pis')); deg = st.cap['degree']
        npi = int(st.c.field('public_input_index')) if False else int(field(out, 'num_public_inputs')); npg = -(-npi // nw)
        # the specification: least fixpoint over the classes
        cs = [(route(I, out, a), route(I, out, b)) for a, b in st.copies] + [(P_(i), route(I, out, P_(i))) for i in range(npi)]
        keys = {k for p in cs for k in p}; u = UF(keys)
        for a, b in cs: u.union(a, b)
        cls = {k: sorted(u.cls(k)) for k in keys}
        val = {}; conf = []
        def put(k, x):
            for t in cls.get(k, [k]):
                if t in val: conf.append(P.sub(val[t].p, x.p))
                else:
                    val[t] = x
                    if t[0] == 'w' and off < t[1] < off + 2*npg and (t[1] - off) % 2 == 1 and t[2] < nw - nr and ('w', t[1]-1, nr + t[2]) not in val: put(('w', t[1]-1, nr + t[2]), x)
        for k, x in st.inp.items():
            if k[0] == 'p': put(('w', off + 2*(k[1] // nw), k[1] % nw), x)
            else: put(k, x)
        gens = [m.dr(x) for x in lst(field(out, 'generators'))]; rows = field(out, 'gate_constants'); ran = set(); prog = True; rnd = {}
        while prog:
            prog = False
            for i, g in enumerate(gens):
                if i in ran or not all(d in val for d in gdeps(I, g)): continue
                ran.add(i); prog = True
                r = I.dispatch(('adt', g.tag, list(g.targs)), 'WitnessGenerator', [SF], 'generate', [], [Ref([g], 0), sl(lst(rows)), Ref(mkpw(I, val), 0)])
                for e in r.f[0].d.values():
                    k = tkey(e[0])
                    if 'Random' in g.tag: rnd[k] = 1
                    put(k, e[1])
        f = st.fs('S'); stat = [f.status(p) for p in conf]
        if res[0] == 'panic':
            ctx.concrete('nonzero' in stat, w + ': rejected only when a class receives two values', {'panic': str(res[1]), 'conflicts': str(stat)}); continue
        n[0] += 1
        for p in conf: ctx.zero(st, 'S', p, w + ': two values for one class are rejected')
        got = dump(st.pw)
        ctx.concrete(set(got) == set(val), w + ': exactly the reachable targets are populated', {'missing': str(sorted(set(val) - set(got))), 'unexpected': str(sorted(set(got) - set(val)))})
        for k, x in val.items():
            if k not in rnd: ctx.feq(st, got[k], x, w + ': value of %r' % (k,))
        if st.dense:
            dr = [lst(r) for r in lst(field(st.dense[0], 'wire_values'))]; ctx.concrete(len(dr) == deg, w + ': rows of the dense witness'); z = st.fconst('S', 0)
            for j in range(deg):
                for i in range(nw):
                    if W_(j, i) not in rnd: ctx.feq(st, dr[j][i], val.get(W_(j, i), z), w + ': dense wire (%d, %d)' % (j, i))
    ctx.concrete(n[0] > 0, 'a witness is generated')
    if clash: ctx.concrete(n[1] > 0, 'conflicting inputs are rejected')

def obligations(crates, tier):
    t = tier != 'quick'; obs = [Ob('new and default', new_ob, bounded='the empty map')]
    bases = ([], [W_(0, 0)], BASE, [V_(0), P_(0), V_(1)])
    B = 'maps of up to 9 targets, enumerated keys, all values'
    for b in bases:
        obs.append(Ob('queries on %r' % (b,), lambda ctx, b=b: get_ob(ctx, b), bounded=B))
        for k in BASE + [W_(5, 8)]:
            obs.append(Ob('set_target %r on %r' % (k, b), lambda ctx, b=b, k=k: set_ob(ctx, 'set_target', [k], b), bounded=B))
            if k[0] == 'w': obs.append(Ob('set_wire %r on %r' % (k, b), lambda ctx, b=b, k=k: set_ob(ctx, 'set_wire', [k], b), bounded=B))
        for ks in ([], [V_(0), W_(0, 0)], [V_(5), V_(5)], [P_(1), V_(7), W_(2, 2)]):
            for fn in ('set_targets', 'extend'): obs.append(Ob('%s %r on %r' % (fn, ks, b), lambda ctx, b=b, ks=ks, fn=fn: set_ob(ctx, fn, ks, b), bounded=B))
    for fn in ('get_target', 'get_targets', 'get_wire'):
        for k in BASE + [W_(9, 1)]:
            if fn != 'get_wire' or k[0] == 'w': obs.append(Ob('%s of the unset %r' % (fn, k), lambda ctx, fn=fn, k=k: miss_ob(ctx, fn, k), bounded=B))
    for n in (1, 3):
        for cf in (0, 1, 2): obs.append(Ob('points, %d, conflict %d' % (n, cf), lambda ctx, n=n, cf=cf: point_ob(ctx, n, cf), bounded=B))
    for mode in ('set', 'decode'): obs.append(Ob('ordering targets, ' + mode, lambda ctx, mode=mode: ord_ob(ctx, mode), bounded=B))
    for deg, ks in ((1, []), (2, [W_(0, 8), W_(1, 0), V_(3), P_(0)]), (4, [W_(0, 0), W_(2, 7), W_(3, 8), W_(5, 1)])): obs.append(Ob('dense witness of %d rows' % deg, lambda ctx, deg=deg, ks=ks: dense_ob(ctx, deg, ks), bounded='up to 4 rows'))
    for nm, fl in CIRC.items():
        for o in ORD: obs.append(Ob('generation, %s, %s' % (nm, o), lambda ctx, fl=fl, o=o: gen_ob(ctx, fl, o, t), bounded='8 circuits of up to 16 rows, 3 iteration orders, all input values', timeout=300))
        if nm in ('chain', 'pis', 'stuck'):
            for dr in (0, 1): obs.append(Ob('generation, %s, input %d unknown' % (nm, dr), lambda ctx, fl=fl, dr=dr: gen_ob(ctx, fl, 'insertion', t, drop=dr), bounded='enumerated circuits', timeout=300))
    for nm, fl in CLASH.items():
        for o in ORD: obs.append(Ob('conflict, %s, %s' % (nm, o), lambda ctx, fl=fl, o=o: gen_ob(ctx, fl, o, t, clash=True), bounded='4 circuits, 3 iteration orders, all input values', timeout=300))
    return obs
