from contracts.circ import *
from contracts.common import CURVE, aff, prj
from engine.interp import loop_heads
from engine.state import FieldInfo
import engine.poly as P
LEVEL = 'proof'
FUNCTIONS = ['Challenger::{new, observe_element, observe_elements, observe_affine_point(s), observe_proj_point(s), get_challenge, get_2_challenges, get_3_challenges, get_n_challenges, absorb_buffered_inputs}',
             'RecursiveChallenger::{new, observe_element, observe_elements, observe_affine_point(s), get_challenge, get_2_challenges, get_3_challenges, get_n_challenges, absorb_buffered_inputs}']
EXPLAIN = ('The permutation is uninterpreted (equal arguments give equal results, nothing else is known). Each operation is proved against a duplex-sponge model from an arbitrary state (any sponge state, any pending inputs, any buffered outputs) that satisfies the invariant "pending inputs or buffered outputs, not both"; '
           'the absorption loop is cut with the state after any number of chunks. The initial state is the model\'s, so by induction every history of calls agrees, for the native and for the in-circuit challenger. Whole histories through the public interface are run as well (bounded).')
ASSUMPTIONS = ['the permutation is treated as an uninterpreted function (C16); that its outputs do not repeat is a property of Rescue, not proved', 'in-circuit addition and permutation meet their contracts (C28, C16)', 'points are observed by their coordinates: conversion meets its contract (C08)']
W, RATE = 4, 3
class Done(Infeasible): pass

def perm(st, state, bits):
    f = st.fs('S'); k = ('perm', str(bits), tuple(P.key(f.norm(x.p)) for x in state))
    if k not in st.ucache:
        st.nperm = getattr(st, 'nperm', 0) + 1
        st.ucache[k] = [st.fe('S', 'perm%d.%d.' % (st.nperm, i)) for i in range(len(state))]
    return list(st.ucache[k])
class Model:
    """duplex sponge: pending inputs are absorbed RATE at a time when an output is requested; outputs are taken from the end of the rate part"""
    def __init__(s, st, bits, state=None, inp=(), out=()): s.st = st; s.bits = bits; s.s = state or [st.fconst('S', 0)] * W; s.i = list(inp); s.o = list(out)
    def observe(s, x): s.o = []; s.i.append(x)
    def get(s):
        if s.i:
            for k in range(0, len(s.i), RATE):
                c = s.i[k:k+RATE]
                s.s = perm(s.st, [FE('S', P.add(x.p, c[i].p)) if i < len(c) else x for i, x in enumerate(s.s)], s.bits)
            s.i = []; s.o = s.s[:RATE]
        elif not s.o:
            s.s = perm(s.st, s.s, s.bits); s.o = s.s[:RATE]
        s.o = list(s.o); return s.o.pop()

CH = {False: ('adt', 'plonk_challenger::Challenger', [SF]), True: ('adt', 'plonk_challenger::RecursiveChallenger', [SF])}
def setup(ctx, st, rec, loops=None):
    o = fe_builder() if rec else {}
    st.bits = 'builder' if rec else 128
    def nperm(I, T, a):
        ctx.concrete(m.conc(a[1]) and int(a[1]) == 128, 'the permutation is called with the challenger\'s security level')
        return VecV(perm(st, lst(a[0]), st.bits))
    o['rescue-rescue_permutation'] = nperm
    o['CircuitBuilder::rescue_permutation'] = lambda I, T, a: VecV(perm(st, lst(a[1]), st.bits))
    def zp(I, T, a):
        p = m.dr(a[0]); k = tuple(P.key(x.p) for x in p.f[:3]); return AFFOF(st, p)
    o['ProjectivePoint::to_affine'] = zp
    o['ProjectivePoint::batch_to_affine'] = lambda I, T, a: VecV([AFFOF(st, m.dr(p)) for p in lst(a[0])])
    I = ctx.interp(st, loops=loops or {}, **circ_cfg(st, over=o)); st.I = I; st.builder = [Opaque('builder')]
    return I
def AFFOF(st, p):
    k = ('aff',) + tuple(P.key(x.p) for x in p.f[:3])
    if k not in st.ucache: st.ucache[k] = (st.fe('S', 'px'), st.fe('S', 'py'))
    x, y = st.ucache[k]; return aff(x, y, False)
def new(I, st, rec): return I.inherent(CH[rec], 'new', [OUT] if rec else [], [Ref(st.builder, 0)] if rec else [128])[0]
def call(I, st, rec, c, fn, *args, b=False):
    r = I.inherent(CH[rec], fn, [OUT] if rec and (b or 'point' in fn) else ([INN] if 'point' in fn else []), [Ref(c, 0)] + ([Ref(st.builder, 0)] if rec and b else []) + list(args))
    if r is None: raise Unsupported('lost anchor: ' + fn)
    return r[0]
FIELDS_ = ('sponge_state', 'input_buffer', 'output_buffer')
def get(c, nm):
    a = c[0]
    if not a.names or nm not in a.names: raise Unsupported('lost anchor: field ' + nm)
    return a.f[a.names.index(nm)]
def put(c, nm, l): get(c, nm).l[:] = l
def same(ctx, st, a, b, what):
    ctx.concrete(len(a) == len(b), what + ': length', {'got': str(len(a)), 'want': str(len(b))})
    for i, (x, y) in enumerate(zip(a, b)):
        if isinstance(x, Opaque) or isinstance(y, Opaque): ctx.concrete(x is y, '%s: entry %d' % (what, i))
        else: ctx.zero(st, 'S', P.sub(m.dr(x).p, m.dr(y).p), '%s: entry %d' % (what, i))
def match(ctx, st, c, mo, what):
    for nm, l in zip(FIELDS_, (mo.s, mo.i, mo.o)): same(ctx, st, lst(get(c, nm)), l, '%s: %s' % (what, nm))

# ---------------------------------------------------------------- one operation from an arbitrary state
def arb(st, I, rec, shape):
    c = [new(I, st, rec)]
    s = [st.fe('S', 's%d' % i) for i in range(W)]
    i = [st.fe('S', 'i%d' % k) for k in range(shape[0])]; o = [st.fe('S', 'o%d' % k) for k in range(shape[1])]
    put(c, 'sponge_state', s); put(c, 'input_buffer', i); put(c, 'output_buffer', o)
    return c, Model(st, st.bits, s, i, o)

def new_ob(ctx, rec):
    def run(st):
        I = setup(ctx, st, rec); return [new(I, st, rec)]
    for st, res in ctx.explore(FLD(), run):
        ctx.no_panic(st, res, 'new'); match(ctx, st, res[1], Model(st, st.bits), 'initial state')

def observe_ob(ctx, rec):
    for pend in ('none', 'some'):
        for nout in (0, 1, 2, 3):
            if pend == 'some' and nout: continue
            def run(st):
                I = setup(ctx, st, rec); c, mo = arb(st, I, rec, (0, nout)); st.mark = Opaque('earlier inputs'); st.x = st.fe('S', 'x')
                if pend == 'some': put(c, 'input_buffer', [st.mark])
                st.mo = mo
                if pend == 'some': mo.i = [st.mark]
                call(I, st, rec, c, 'observe_element', st.x); mo.observe(st.x); return c
            for st, res in ctx.explore(FLD(), run):
                w = 'observe_element with %s pending and %d buffered outputs' % (pend, nout); ctx.no_panic(st, res, w); match(ctx, st, res[1], st.mo, w)

def get_ob(ctx, rec, shapes):
    for shape in shapes:
        def run(st):
            I = setup(ctx, st, rec); c, mo = arb(st, I, rec, shape); st.mo = mo; st.r = call(I, st, rec, c, 'get_challenge', b=True); st.want = mo.get(); return c
        for st, res in ctx.explore(FLD(), run):
            w = 'get_challenge with %d pending inputs and %d buffered outputs' % shape; ctx.no_panic(st, res, w)
            ctx.zero(st, 'S', P.sub(m.dr(st.r).p, st.want.p), w + ': challenge'); match(ctx, st, res[1], st.mo, w)

def absorb_cut(ctx, rec):
    """any number of pending inputs: the loop over chunks is cut; its state is the sponge state after the chunks consumed so far"""
    key = None; seen = set()
    for cr in ctx.crates:
        for k in cr.files:
            if k.endswith('-absorb_buffered_inputs'):
                h = [x for x in (cr.body(k).locals[1],) if ('Recursive' in repr(x)) == rec]
                if h: key = k
    if key is None: raise Unsupported('lost anchor: absorb_buffered_inputs')
    def run(st):
        st.n = 0
        def lp(I, Fr):
            lh = loop_heads(Fr.body); nm = Fr.body.names
            outer = [h for h in lh if not any(h in lh[g] for g in lh if g != h)]
            if len(outer) != 1: raise Unsupported('lost anchor: the loop over chunks')
            def head(I, Fr, bb):
                st.n += 1; c = st.c
                it = [v for v in {id(v.it): v for v in reversed(Fr.L) if isinstance(v, ItV)}.values()]
                if st.n == 1:
                    if len(it) != 1: raise Unsupported('lost anchor: the chunk iterator %r' % (it,))
                    same(ctx, st, lst(get(c, 'sponge_state')), st.s0, 'no chunk absorbed yet'); seen.add('base')
                    chunks = it[0].it.rest() if hasattr(it[0].it, 'rest') else None
                    ctx.concrete(chunks is not None and len(chunks) == 2 and [len(lst(x)) for x in chunks] == [RATE, 1], 'the pending inputs are taken in chunks of the rate')
                    st.cur = [st.fe('S', 'cur%d' % i) for i in range(W)]; put(c, 'sponge_state', list(st.cur))
                    st.k = st.choose(RATE + 1)      # size of the next chunk, 0: no more
                    st.ch = [st.fe('S', 'ch%d' % i) for i in range(st.k)]
                    nx = m.ListIt([sl(st.ch)] if st.k else [])
                    for v in Fr.L:
                        if isinstance(v, ItV): v.it = nx
                else:
                    want = perm(st, [FE('S', P.add(x.p, st.ch[i].p)) if i < st.k else x for i, x in enumerate(st.cur)], st.bits)
                    same(ctx, st, lst(get(c, 'sponge_state')), want, 'a chunk of %d is added and permuted' % st.k); seen.add('step%d' % st.k); raise Done()
            return {outer[0]: head}
        I = setup(ctx, st, rec, {key: lp}); st.c, mo = arb(st, I, rec, (RATE + 1, 0)); st.s0 = list(lst(get(st.c, 'sponge_state')))
        call(I, st, rec, st.c, 'absorb_buffered_inputs', b=True); return st.c
    for st, res in ctx.explore(FLD(), run):
        ctx.no_panic(st, res, 'absorb_buffered_inputs'); seen.add('end'); c = res[1]
        same(ctx, st, lst(get(c, 'sponge_state')), st.cur, 'all chunks absorbed: the state is kept'); same(ctx, st, lst(get(c, 'input_buffer')), [], 'nothing is pending any more')
        same(ctx, st, lst(get(c, 'output_buffer')), st.cur[:RATE], 'the rate part becomes the output buffer')
    ctx.concrete(seen == {'base', 'end', 'step1', 'step2', 'step3'}, 'all cases reached', {'seen': str(sorted(seen))})

# ---------------------------------------------------------------- whole histories
def histories(depth, ops):
    if depth == 0: yield (); return
    for h in histories(depth - 1, ops):
        for o in ops: yield h + (o,)
def hist_ob(ctx, rec, hs):
    for h in hs:
        def run(st):
            I = setup(ctx, st, rec); c = [new(I, st, rec)]; mo = Model(st, st.bits); st.pairs = []
            x = lambda: st.fe('S', 'x')
            for op in h:
                if op[0] == 'o': e = x(); call(I, st, rec, c, 'observe_element', e); mo.observe(e)
                elif op[0] == 'l':
                    es = [x() for _ in range(int(op[1:]))]; call(I, st, rec, c, 'observe_elements', sl(es)); [mo.observe(e) for e in es]
                elif op[0] == 'p':
                    n = int(op[1:] or 1); ps = [(x(), x()) for _ in range(n)]
                    mk = (lambda a, b: A('AffinePointTarget', None, [a, b], (OUT,), ['x', 'y'])) if rec else (lambda a, b: aff(a, b, False))
                    if op == 'p': call(I, st, rec, c, 'observe_affine_point', mk(*ps[0]))
                    else: call(I, st, rec, c, 'observe_affine_points', sl([mk(*q) for q in ps]))
                    for q in ps: mo.observe(q[0]); mo.observe(q[1])
                elif op[0] == 'j':
                    n = int(op[1:] or 1); ps = [prj(x(), x(), x()) for _ in range(n)]
                    if op == 'j': call(I, st, rec, c, 'observe_proj_point', ps[0])
                    else: call(I, st, rec, c, 'observe_proj_points', sl(ps))
                    for q in ps: a = AFFOF(st, q); mo.observe(a.f[0]); mo.observe(a.f[1])
                elif op == 'g': st.pairs.append((call(I, st, rec, c, 'get_challenge', b=True), mo.get()))
                elif op in ('g2', 'g3'):
                    r = call(I, st, rec, c, 'get_%s_challenges' % op[1], b=True)
                    for y in r.f: st.pairs.append((y, mo.get()))
                else:
                    n = int(op[1:]); r = lst(call(I, st, rec, c, 'get_n_challenges', n, b=True)); ctx.concrete(len(r) == n, 'get_n_challenges returns n')
                    for y in r: st.pairs.append((y, mo.get()))
        for st, res in ctx.explore(FLD(), run):
            w = 'history %s' % ' '.join(h); ctx.no_panic(st, res, w); seen = set()
            for i, (a, b) in enumerate(st.pairs):
                ctx.zero(st, 'S', P.sub(m.dr(a).p, b.p), '%s: challenge %d' % (w, i))
                k = P.key(b.p); ctx.concrete(k not in seen, '%s: challenge %d is fresh' % (w, i)); seen.add(k)

def obligations(crates, tier):
    t = tier != 'quick'; obs = []
    for rec in (False, True):
        n = 'RecursiveChallenger' if rec else 'Challenger'
        obs.append(Ob(n + '::new', lambda ctx, rec=rec: new_ob(ctx, rec)))
        obs.append(Ob(n + '::observe_element from any state', lambda ctx, rec=rec: observe_ob(ctx, rec)))
        obs.append(Ob(n + '::get_challenge from any state without pending inputs', lambda ctx, rec=rec: get_ob(ctx, rec, [(0, 0), (0, 1), (0, 2), (0, 3)])))
        obs.append(Ob(n + '::absorb_buffered_inputs, any number of pending inputs', lambda ctx, rec=rec: absorb_cut(ctx, rec), soft=True))
        obs.append(Ob(n + '::get_challenge with pending inputs', lambda ctx, rec=rec: get_ob(ctx, rec, [(k, 0) for k in range(1, 14)]), bounded='up to 13 pending inputs'))
        ops = ['o', 'l4', 'g', 'g2'] + (['l3'] if t else [])
        for d in range(1, 5):
            hs = list(histories(d, ops)); k = max(1, len(hs) // 80)
            for i in range(k): obs.append(Ob('%s histories of %d operations (%d/%d)' % (n, d, i+1, k), lambda ctx, rec=rec, hs=hs, i=i, k=k: hist_ob(ctx, rec, hs[i::k]), bounded='histories up to 4 operations', timeout=200))
        extra = [('l0', 'g'), ('l1', 'g3', 'g3'), ('l2', 'g3', 'o', 'g'), ('l5', 'n7', 'l3', 'n4'), ('n0', 'n1', 'n2', 'n9'), ('p', 'g'), ('p2', 'g2'), ('p0', 'g'), ('p3', 'n5', 'p', 'g')]
        if not rec: extra += [('j', 'g'), ('j2', 'g2'), ('j3', 'o', 'g'), ('p', 'j', 'g')]
        obs.append(Ob('%s: lists, points and several challenges' % n, lambda ctx, rec=rec, e=extra: hist_ob(ctx, rec, e), bounded='the listed histories'))
    return obs
