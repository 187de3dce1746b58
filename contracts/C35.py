from contracts.circ import *
from contracts.C34 import rec_over
from engine.interp import loop_heads
from engine.models import SymL, SymIt
from engine.state import FieldInfo
import engine.poly as P
LEVEL = 'other'
NOTE = 'halo_g and halo_g_recursive are proved for every number of challenges (loop cut, with the squared powers and partial products); halo_s is proved for one arbitrary challenge and position (cut) and enumerated for 0 to 7 challenges'
FUNCTIONS = ['plonk_util::{halo_s, halo_g}', 'plonk_recursion::halo_g_recursive']
EXPLAIN = ('halo_g is cut at its loop: the product starts at 1 and the power at x, an arbitrary step multiplies by u x^(2^j) + 1/u and squares the power, the challenges being consumed from the last to the first; the product after j steps is then, by induction, the evaluation of the coefficient vector of the last j challenges, '
           'because prod over j (u_j x^(2^j) + 1/u_j) expands into the sum over i of x^i prod over j (bit j of i ? u_j : 1/u_j). halo_s is cut at its outer loop, an arbitrary challenge index and table being multiplied entry by entry according to the bit. For 0 to 7 challenges both run without cuts on indeterminate challenges and point, and the evaluation of the vector must be the product identically. '
           'halo_g_recursive runs over the contracts of the builder operations.')
ASSUMPTIONS = ['challenges are nonzero (they come from the transcript; the inverse of zero is a panic or an unsatisfiable circuit)', 'field operations and inversions meet their contracts (C01, C02)', 'builder operations meet their contracts (C28)']
class Done(Infeasible): pass
k_ = lambda p: tuple(sorted(p.items()))

def us_(st, k, fid='F'):
    l = []
    for i in range(k):
        u = st.fe(fid, 'u%d' % i); st.fs(fid).assume_nonzero(u.p); l.append(u)
    return l
def inv(st, u, fid='F'): return st.fs(fid).inverse(u.p)
def coeff(st, us, i, fid='F'):
    r = P.const(1); k = len(us)
    for j in range(k): r = P.mul(r, us[k-1-j].p if i >> j & 1 else inv(st, us[k-1-j], fid))
    return r
def batch_over(st):
    def bi(I, T, a): return VecV([FE('F', inv(st, m.dr(x))) for x in lst(a[0])])
    def one(I, T, a): return FE('F', inv(st, m.dr(a[0])))
    return {'Field::batch_multiplicative_inverse': bi, 'Field::multiplicative_inverse_assuming_nonzero': one}
def s_ob(ctx, k):
    def run(st):
        st.us = us_(st, k); I = ctx.interp(st, over=batch_over(st)); return own_body(I, 'plonk_util-halo_s', {'F': F}, [SliceRef(list(st.us), 0, k)])
    for st, res in ctx.explore({'F': FieldInfo('F')}, run):
        w = 'halo_s, %d challenges' % k; ctx.no_panic(st, res, w); r = lst(res[1]); ctx.concrete(len(r) == 1 << k, w + ': length')
        for i, x in enumerate(r): ctx.zero(st, 'F', P.sub(x.p, coeff(st, st.us, i)), w + ': coefficient %d is prod_j (bit j ? u : 1/u)' % i)
def g_ob(ctx, k, rec):
    fid = 'S' if rec else 'F'
    def run(st):
        st.us = us_(st, k, fid); st.x = st.fe(fid, 'x')
        if rec:
            o = fe_builder(); o.update(rec_over(st)); I = ctx.interp(st, **circ_cfg(st, over=o)); b = I.inherent(BUILDER, 'new', [], [128])[0]
            return own_body(I, 'plonk_recursion-halo_g_recursive', {'C': OUT}, [Ref([b], 0), st.x, SliceRef(list(st.us), 0, k)])
        I = ctx.interp(st, over=batch_over(st)); return own_body(I, 'plonk_util-halo_g', {'F': F}, [st.x, SliceRef(list(st.us), 0, k)])
    for st, res in ctx.explore({fid: FieldInfo(fid)}, run):
        w = '%s, %d challenges' % ('halo_g_recursive' if rec else 'halo_g', k); ctx.no_panic(st, res, w); s = {}
        for i in range(1 << k): s = P.add(s, P.mul(coeff(st, st.us, i, fid), P.pw(st.x.p, i)))
        ctx.zero(st, fid, P.sub(m.dr(res[1]).p, s), w + ': the evaluation of the coefficient vector at x')
def accs(Fr, names): 
    l = []
    for n in names:
        if n not in Fr.body.names: raise Unsupported('lost anchor: %s' % n)
        l.append(Fr.body.names[n])
    return l
def gcut_ob(ctx, rec):
    """the loop over the challenges, any number of them"""
    fid = 'S' if rec else 'F'; key = 'plonk_recursion-halo_g_recursive' if rec else 'plonk_util-halo_g'; seen = set()
    def run(st):
        st.vis = 0
        def lp(I, Fr):
            a, q = accs(Fr, ['product', 'x_power']); lh = loop_heads(Fr.body)
            if len(lh) != 1: raise Unsupported('lost anchor: the loop of halo_g')
            def head(I, Fr, bb):
                st.vis += 1; V = lambda i: m.dr(Fr.L[i]).p
                if st.vis == 1:
                    ctx.zero(st, fid, P.sub(V(a), P.const(1)), 'the product starts at 1'); ctx.zero(st, fid, P.sub(V(q), st.x.p), 'the power starts at x'); seen.add('base')
                    it = Fr.L[accs(Fr, ['iter'])[0]]
                    if not isinstance(it, ItV) or not isinstance(it.it, SymIt): raise Unsupported('lost anchor: the iterator of halo_g')
                    t = st.int_atom('t', 0, 2**30); st.add_con('ge0', P.sub(st.n.p, t.p)); st.t = t.p; it.it.pos = t.p
                    st.A, st.Q = st.fe(fid, 'A'), st.fe(fid, 'Q'); Fr.L[a], Fr.L[q] = st.A, st.Q
                else:
                    u = st.u(P.sub(P.sub(st.n.p, P.const(1)), st.t)); 
                    ctx.zero(st, fid, P.sub(V(a), P.mul(st.A.p, P.add(P.mul(u.p, st.Q.p), inv(st, u, fid)))), 'the product is multiplied by u x^(2^j) + 1/u, u taken from the end'); ctx.zero(st, fid, P.sub(V(q), P.mul(st.Q.p, st.Q.p)), 'the power is squared'); seen.add('step'); raise Done()
            return {next(iter(lh)): head}
        d = {}
        def u(p):
            k = k_(p)
            if k not in d: d[k] = st.fe(fid, 'u[%d]' % len(d)); st.fs(fid).assume_nonzero(d[k].p)
            return d[k]
        st.u = u; st.x = st.fe(fid, 'x'); st.n = st.int_atom('n', 0, 2**30)
        if rec: o = fe_builder(); o.update(rec_over(st)); I = ctx.interp(st, loops={key: lp}, **circ_cfg(st, over=o))
        else: I = ctx.interp(st, over=batch_over(st), loops={key: lp})
        l = SliceRef(SymL(I, st.n, u), 0, st.n)
        if not rec: return own_body(I, key, {'F': F}, [st.x, l])
        b = I.inherent(BUILDER, 'new', [], [128])[0]; return own_body(I, key, {'C': OUT}, [Ref([b], 0), st.x, l])
    for st, res in ctx.explore({fid: FieldInfo(fid)}, run):
        ctx.no_panic(st, res, key); ctx.zero(st, fid, P.sub(m.dr(res[1]).p, st.A.p), 'the product is returned'); seen.add('end'); ctx.ge0(st, P.sub(st.t, st.n.p), 'every challenge is consumed')
    ctx.concrete(seen == {'base', 'step', 'end'}, 'base, step and exit reached', {'seen': str(sorted(seen))})
def outermost(Fr):
    its = {id(x.it): x for x in Fr.L if isinstance(x, ItV)}; inner = set()
    def walk(x):
        for y in vars(x).values():
            if isinstance(y, m.It): inner.add(id(y)); walk(y)
    for x in its.values(): walk(x.it)
    l = [x for k, x in its.items() if k not in inner]
    if len(l) != 1: raise Unsupported('lost anchor: the iterator over the challenges')
    return l[0]
def scut_ob(ctx, ks):
    """one arbitrary challenge and one arbitrary position of the table, for every number of challenges up to 32"""
    key = 'plonk_util-halo_s'; seen = set()
    def run(st):
        st.ov = 0; st.iv = 0; st.head = None; k = st.k = ks[st.choose(len(ks))]
        def lp(I, Fr):
            lh = loop_heads(Fr.body); res, = accs(Fr, ['res'])
            if len(lh) != 2: raise Unsupported('lost anchor: the loops of halo_s')
            def outer(I, Fr, bb):
                st.ov += 1; v = Fr.L[res]
                if st.ov == 1:
                    it = outermost(Fr)
                    if not isinstance(v, VecV) or not isinstance(v.l, SymL): raise Unsupported('lost anchor: the table of halo_s')
                    ctx.concrete(m.ip(v.l.size()) == P.const(1 << k), 'the table has 2^k entries'); ctx.zero(st, 'F', P.sub(v.l.at(st.i).p, P.const(1)), 'every entry starts at 1'); seen.add('base')
                    st.j = st.choose(k+1); st.cell = v.l.ref(st.i)[0]; st.R = st.fe('F', 'R'); list.__setitem__(st.cell, 0, st.R); st.res = v
                    for _ in range(st.j):
                        if it.it.nxt() is m.STOP: raise Undischarged('fewer than k steps')
                else:
                    bit = st.decide(m.ieq(st, m.mk(st.bitsof_[st.j]), 1))
                    u = st.us[k-1-st.j]; ctx.zero(st, 'F', P.sub(st.cell[0].p, P.mul(st.R.p, u.p if bit else inv(st, u))), 'entry i is multiplied by bit j of i ? u : 1/u, u taken from the end'); seen.add('step1' if bit else 'step0'); raise Done()
            def inner(I, Fr, bb):
                st.iv += 1
                if st.iv > 1: return
                c = [x for x in {id(x): x for x in Fr.L if isinstance(x, ItV)}.values() if isinstance(x.it, SymIt)]
                for it in c:
                    item = it.it.fn(m.ip(st.i)); ref = next((x for x in item.f if isinstance(x, Ref)), None) if isinstance(item, A) else None
                    if ref is not None and ref.c is st.cell: break
                else: raise Unsupported('lost anchor: the items of the inner loop')
                for n_, x in enumerate(item.f):
                    if isinstance(x, SI) and k_(x.p) == k_(m.ip(st.i)): item.f[n_] = st.i     # the same number, its bits known
                cell = [st.cell[0]]; st.cell = cell; item.f[[i for i, x in enumerate(item.f) if x is ref][0]] = Ref(cell, 0); it.it = m.ListIt([item])
            def head(I, Fr, bb):
                if st.head is None: st.head = bb
                return (outer if bb == st.head else inner)(I, Fr, bb)
            return {h: head for h in lh}
        I = ctx.interp(st, over=batch_over(st), loops={key: lp}); I.cfg['lazyvec'] = True; st.us = us_(st, k); st.bitsof_ = [st.int_atom('b%d' % j, 0, 1).p for j in range(k)]; st.i = m.frombits(st.bitsof_ + [{}]*(64-k))
        return own_body(I, key, {'F': F}, [SliceRef(list(st.us), 0, k)])
    for st, res in ctx.explore({'F': FieldInfo('F')}, run, max_paths=20000):
        w = 'halo_s, %d challenges' % st.k; ctx.no_panic(st, res, w); ctx.concrete(res[1] is st.res and st.j == st.k, w + ': the table is returned after every challenge'); ctx.feq(st, st.cell[0], st.R, w + ': entry kept'); seen.add('end')
    ctx.concrete({'base', 'step0', 'step1', 'end'} <= seen or ks == [0], 'base, step and exit reached', {'seen': str(sorted(seen))})
def obligations(crates, tier):
    obs = []
    for rec in (False, True): obs.append(Ob('%s: one arbitrary challenge of any list' % ('halo_g_recursive' if rec else 'halo_g'), lambda ctx, rec=rec: gcut_ob(ctx, rec), soft=True))
    for i in range(4): obs.append(Ob('halo_s: one arbitrary challenge and entry, %d to %d challenges' % (8*i+1, 8*i+8), lambda ctx, i=i: scut_ob(ctx, list(range(8*i+1, 8*i+9))), soft=True, bounded='up to 32 challenges'))
    for k in range(8):
        obs.append(Ob('halo_s, %d challenges' % k, lambda ctx, k=k: s_ob(ctx, k), bounded='%d challenges' % k))
        for rec in (False, True): obs.append(Ob('%s, %d challenges' % ('halo_g_recursive' if rec else 'halo_g', k), lambda ctx, k=k, rec=rec: g_ob(ctx, k, rec), bounded='%d challenges' % k))
    return obs
