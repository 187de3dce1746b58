from contracts.circ import *
from contracts.C21 import circuit, tgt, pt_, field, build_over
from contracts.polys import wpow, roots, coefs, pl, conv
from engine.state import FieldInfo
import engine.poly as P
LEVEL = 'other'
NOTE = 'the index arithmetic is proved for every index and offset; circuits with up to 30 public inputs are enumerated (bounded)'
FUNCTIONS = ['PublicInput::{new, original_wire, routable_target, convert}', 'CircuitBuilder::{add_public_input(s), append_public_input_gates, route_public_inputs, build}', 'PartialWitness::{replace_public_inputs, copy_buffer_to_pi_gate}', 'Circuit::get_public_inputs', 'verifier::{public_inputs_to_wires_vec, public_inputs_to_polynomial}', 'Gate<PublicInputGate>::evaluate_unfiltered', 'util::ceil_div_usize']
EXPLAIN = ('original_wire runs on a symbolic index and offset: row = offset + 2 q and column = r with NUM_WIRES q + r = index, hence injective; routable_target is the same wire when it is routed and the matching wire of the next row otherwise. '
           'Circuits with n public inputs are built by the real builder: the rows at these positions carry the public-input and buffer selectors, assuming the gate constraints the original wire and the routable wire of every index hold the same value, and no other routed wire is shared. '
           'get_public_inputs, replace_public_inputs and copy_buffer_to_pi_gate run on indeterminate values. The verifier\'s polynomial is evaluated at every power of the root of unity and compared with the values at the same rows and columns.')
ASSUMPTIONS = ['field operations meet their contracts (C01)', 'interpolation meets its contract (C12)', 'HashMap behaves as a finite map', 'the copy constraints are enforced (C21, C34)']
PIT = ('adt', 'target::PublicInput', [SF]); PW = ('adt', 'witness::PartialWitness', [SF])
def inh(I, T, fn, args, margs=()):
    r = I.inherent(T, fn, list(margs), args)
    if r is None: raise Unsupported('lost anchor: ' + fn)
    return m.dr(r[0])
def wparts(w):
    w = m.dr(w)
    if w.tag == 'Target':
        if w.var != 'Wire': raise Refuted('the routable target is not a wire')
        w = w.f[0]
    if w.tag != 'Wire': raise Unsupported('lost anchor: Wire')
    return w.f[w.names.index('gate')] if w.names else w.f[0], w.f[w.names.index('input')] if w.names else w.f[1]

def wire_ob(ctx):
    seen = set()
    def run(st):
        I = ctx.interp(st); st.NW, st.NR = kconst(I, 'NUM_WIRES'), kconst(I, 'NUM_ROUTED_WIRES')
        st.off = st.int_atom('offset', 0, 2**40); st.ix = st.int_atom('index', 0, 2**40)
        pi = [inh(I, PIT, 'new', [st.ix])]
        st.o = wparts(inh(I, PIT, 'original_wire', [Ref(pi, 0), st.off])); st.r = wparts(inh(I, PIT, 'routable_target', [Ref(pi, 0), st.off]))
        st.routed = st.decide(m.ige(st, st.NR - 1, st.o[1])) if False else st.decide(m.ige(st, m.mk(P.const(st.NR - 1)), st.o[1]))
        # row = offset + 2 q with an integer q
        d = st.expand(P.sub(m.ip(st.o[0]), m.ip(st.off))); st.q = P.scale(d, 1); st.half = {k: c // 2 for k, c in d.items()}; st.even = all(c % 2 == 0 for c in d.values())
    for st, res in ctx.explore(FLD(), run):
        ctx.no_panic(st, res, 'original_wire'); seen.add(st.routed)
        ctx.concrete(st.even, 'public input rows are every second row from the offset')
        i, r = m.ip(st.o[1]), m.ip(st.ix)
        rec = st.expand(P.sub(P.add(P.scale(st.half, st.NW), i), r))
        ctx.concrete(not rec, 'index = NUM_WIRES * row number + column', {'difference': P.show(rec, st.aname)})
        ctx.ge0(st, i, 'column at least 0'); ctx.ge0(st, P.sub(P.const(st.NW - 1), i), 'column below NUM_WIRES')
        dg = st.expand(P.sub(m.ip(st.r[0]), m.ip(st.o[0]))); di = st.expand(P.sub(m.ip(st.r[1]), i))
        want = (0, 0) if st.routed else (1, -st.NR)
        ctx.concrete(P.isconst(dg) and P.isconst(di) and (P.cval(dg), P.cval(di)) == want, 'routable wire of a %s column' % ('routed' if st.routed else 'unrouted'), {'row': P.show(dg, st.aname), 'column': P.show(di, st.aname)})
        ctx.ge0(st, P.sub(P.const(st.NR - 1), m.ip(st.r[1])), 'the routable wire is routed')
    ctx.concrete(seen == {True, False}, 'both kinds of column reached')

def pos(i, off, nw): return off + 2*(i // nw), i % nw
def built(ctx, st, n, extra=0):
    def fill(c):
        for _ in range(extra): c.call('add_virtual_target')
        for k in range(extra): c.call('inv', tvirt(k))
        st.ts = lst(c.call('add_public_inputs', n)) if n % 2 else [c.call('add_public_input') for _ in range(n)]
        st.vt = [c.call('add_virtual_target') for _ in range(n)]; st.v0 = extra
        for t, v in zip(st.ts, st.vt): c.call('copy', t, v)
    return circuit(ctx, st, fill)

def layout_ob(ctx, n, extra):
    def run(st): st.r = built(ctx, st, n, extra)
    for st, res in ctx.explore(FLD(), run):
        w = '%d public inputs' % n; ctx.no_panic(st, res, w); c, I, out, cap = st.r
        NWI, NRO = kconst(I, 'NUM_WIRES'), kconst(I, 'NUM_ROUTED_WIRES')
        ctx.concrete(sorted(tkey(t) for t in st.ts) == [('p', i) for i in range(n)] and [tkey(t)[1] for t in st.ts] == list(range(n)), w + ': targets are numbered in order')
        ctx.concrete(int(field(out, 'num_public_inputs')) == n, w + ': count in the circuit')
        off = int(field(out, 'num_gates_without_pis'))
        rows = [lst(x) for x in lst(field(out, 'gate_constants'))]; g = -(-n // NWI)
        for k, r in enumerate(rows):
            gs = c.row_gate(r); pi = off <= k < off + 2*g and (k - off) % 2 == 0
            ctx.concrete(('PublicInputGate' in gs) == pi, w + ': row %d %s a public-input row' % (k, 'is' if pi else 'is not'), {'row': str(k), 'gates': str(gs)})
        # constraints of the appended rows: original wire = routable wire
        st2 = st; val = {}
        def v(j, x): return val.setdefault((j, x), st.fe('S', 'w%d.%d' % (j, x)))
        rules = []
        for j in range(off, off + 2*g, 2):
            lv = [[v(jj, x) for x in range(NWI)] for jj in (j, j+1, j+65)]
            rules += [x.p for x in gate_native(I, 'PublicInputGate', rows[j], *lv)]
        f = st.fs('S')
        for p in rules: f.orient(f.norm(p))
        tp = [field(out, 'routing_target_partitions')]; used = {}
        for i in range(n):
            o = pos(i, off, NWI); r = (o[0], o[1]) if o[1] < NRO else (o[0] + 1, o[1] - NRO)
            ctx.feq(st, v(*o), v(*r), w + ': constraints copy the original wire of input %d to its routable wire' % i)
            ls = [tkey(x) for x in lst(I.inherent(('adt', 'partition::TargetPartitions', [SF]), 'get_partition', [], [Ref(tp, 0), st.vt[i]])[0])]
            ws = sorted((k[1], k[2]) for k in ls if k[0] == 'w')
            ctx.concrete(ws == [r], w + ': input %d is routed to its own wire' % i, {'wires': str(ws), 'want': str(r)}); used[r] = i
        ctx.concrete(len(used) == n, w + ': no two public inputs share a wire')
        # reading
        W = Ref([inh(I, ('adt', 'witness::Witness', [SF]), 'new', [VecV([VecV([st.fe('S', 'v%d.%d' % (j, x)) for x in range(NWI)]) for j in range(len(rows))])])], 0)
        wv = [lst(x) for x in lst(field(W.get(), 'wire_values'))]
        got = lst(inh(I, ('adt', 'plonk::Circuit', [OUT]), 'get_public_inputs', [Ref([out], 0), W]))
        ctx.concrete(len(got) == n, w + ': number of values read')
        for i in range(n):
            o = pos(i, off, NWI); ctx.feq(st, got[i], wv[o[0]][o[1]], w + ': value %d is read from its own wire' % i)

def repl_ob(ctx, n, off):
    def run(st):
        I = ctx.interp(st, **circ_cfg(st)); st.I = I; st.pw = [inh(I, PW, 'new', [])]
        st.o = [st.fe('S', 'o0'), st.fe('S', 'o1')]
        inh(I, PW, 'set_target', [Ref(st.pw, 0), twire(0, 3), st.o[0]]); inh(I, PW, 'set_target', [Ref(st.pw, 0), tvirt(0), st.o[1]])
        st.v = wires(st, 'v', n)
        for i in range(n): inh(I, PW, 'set_target', [Ref(st.pw, 0), pt_(('p', i)), st.v[i]])
        inh(I, PW, 'replace_public_inputs', [Ref(st.pw, 0), off])
    for st, res in ctx.explore(FLD(), run):
        w = 'replace_public_inputs of %d at offset %d' % (n, off); ctx.no_panic(st, res, w); I = st.I; nw = kconst(I, 'NUM_WIRES')
        d = {tkey(e[0]): e[1] for e in field(st.pw[0], 'wire_values').d.values()}
        want = {('w', 0, 3): st.o[0], ('v', 0): st.o[1]}; want.update({('w',) + pos(i, off, nw): st.v[i] for i in range(n)})
        extra = [k for k in d if k not in want and k[0] != 'p']
        ctx.concrete(not extra and all(k in d for k in want), w + ': exactly the substituted wires are set', {'set': str(sorted(map(str, d)))})
        for k, x in want.items(): ctx.feq(st, d[k], x, w + ': value at %r' % (k,))

def buf_ob(ctx, off, rows):
    """the values of buffer rows are copied back to the unrouted wires of the preceding public-input row"""
    def run(st):
        I = ctx.interp(st, **circ_cfg(st)); st.I = I; st.pw = [inh(I, PW, 'new', [])]; st.s = {}
        for g in rows:
            for i in range(kconst(I, 'NUM_WIRES')):
                st.s[('w', g, i)] = st.fe('S', 's%d.%d' % (g, i)); inh(I, PW, 'set_target', [Ref(st.pw, 0), twire(g, i), st.s[('w', g, i)]])
        inh(I, PW, 'copy_buffer_to_pi_gate', [Ref(st.pw, 0), off])
    for st, res in ctx.explore(FLD(), run):
        w = 'copy_buffer_to_pi_gate at offset %d' % off; ctx.no_panic(st, res, w); I = st.I; NRO = kconst(I, 'NUM_ROUTED_WIRES'); NA = kconst(I, 'NUM_WIRES') - NRO
        d = {tkey(e[0]): e[1] for e in field(st.pw[0], 'wire_values').d.values()}
        want = dict(st.s)
        for g in rows:
            if g > off and (g - off) % 2 == 1:
                for i in range(NA): want[('w', g-1, NRO + i)] = st.s[('w', g, i)]
        ctx.concrete(set(d) == set(want), w + ': exactly the unrouted wires of public-input rows are added', {'keys': str(sorted(set(d) ^ set(want)))})
        for k, x in want.items(): ctx.feq(st, d[k], x, w + ': value at %r' % (k,))

def poly_ob(ctx, n, off, K):
    """verifier side"""
    D = 1 << K
    def run(st):
        cap = {}
        def fe(I, T, a): cap['ev'] = [FE('S', st.fs('S').norm(m.dr(x).p)) for x in lst(a[0])]; return Opaque('poly')
        I = ctx.interp(st, **circ_cfg(st, over={'Polynomial::from_evaluations': fe, 'fft-fft_precompute': lambda I, T, a: Opaque('fft', int(a[0]))})); st.cap = cap; st.I = I
        st.v = wires(st, 'v', n); st.al = st.fe('S', 'alpha')
        pre = A('Option', 'Some', [Ref([Opaque('pre')], 0)]) if n % 2 else A('Option', 'None', [])
        for c in I.crates:
            k = 'verifier-public_inputs_to_polynomial'
            if k in c.files: I.run(c, c.body(k), {c.generics(k)[0]: SF}, [sl(st.v), st.al, D, off, pre]); break
        else: raise Unsupported('lost anchor')
    for st, res in ctx.explore(FLD(), run):
        w = 'public_inputs_to_polynomial(%d inputs, offset %d, degree %d)' % (n, off, D); ctx.no_panic(st, res, w); nw = kconst(st.I, 'NUM_WIRES')
        ev = st.cap.get('ev'); ctx.concrete(ev is not None and len(ev) == D, w + ': one value per row', {'len': str(ev and len(ev))})
        want = [{} for _ in range(D)]
        for i in range(n):
            g, c = pos(i, off, nw); want[g] = P.add(want[g], P.mul(st.v[i].p, P.pw(st.al.p, c) if c else P.const(1)))
        for k in range(D): ctx.zero(st, 'S', P.sub(ev[k].p, want[k]), w + ': row %d' % k)

def obligations(crates, tier):
    t = tier != 'quick'; obs = [Ob('original_wire and routable_target, any index and offset', wire_ob)]
    for n in (list(range(0, 12)) + [17, 18, 19, 27, 28] if not t else range(0, 40)):
        for ex in ((0,) if n % 3 else (0, 3)): obs.append(Ob('circuit with %d public inputs after %d inversions' % (n, ex), lambda ctx, n=n, ex=ex: layout_ob(ctx, n, ex), bounded='up to %d public inputs' % (39 if t else 28), timeout=300))
    for n in (0, 1, 6, 7, 9, 10, 18, 19):
        for off in (0, 5, 8): obs.append(Ob('replace_public_inputs of %d, offset %d' % (n, off), lambda ctx, n=n, off=off: repl_ob(ctx, n, off), bounded='up to 19 public inputs'))
    for off, rows in ((0, (0, 1)), (3, (0, 1, 2, 3, 4)), (2, (2, 3, 5)), (4, (5, 7, 6)), (5, (1, 3, 4))): obs.append(Ob('copy_buffer_to_pi_gate, offset %d, rows %r' % (off, rows), lambda ctx, off=off, rows=rows: buf_ob(ctx, off, rows), bounded='up to 5 rows'))
    for n, off, K in ((0, 3, 2), (1, 3, 3), (8, 4, 3), (9, 3, 3), (10, 4, 3), (11, 11, 4), (18, 4, 3), (19, 5, 4), (27, 10, 4), (30, 0, 3)):
        obs.append(Ob('public_inputs_to_polynomial of %d, offset %d, degree %d' % (n, off, 1 << K), lambda ctx, n=n, off=off, K=K: poly_ob(ctx, n, off, K), bounded='up to 30 public inputs'))
    return obs
