from contracts.module import *
import itertools
LEVEL = 'other'
NOTE = 'single commitments are proved for every coefficient list (opaque list handed to the sum of C10); batches up to 4 polynomials and explicit lists up to 5 coefficients are enumerated'
FUNCTIONS = ['PolynomialCommitment::{coeffs_to_commitment, coeffs_vec_to_commitments, batch_to_affine, to_affine, commitments_to_affine_vec, From<AffinePoint>}', 'pedersen_hash', 'pedersen_commit', 'commit_polynomials', 'Polynomial::commit']
EXPLAIN = ('Points are elements of a free module over the scalar field with indeterminate coefficients; the real code is interpreted on it and its result compared coordinate by coordinate: the coefficient of every generator is the polynomial coefficient, '
           'the coefficient of the blinding generator is the reported randomness, which is a fresh random value when blinding and zero otherwise.')
ASSUMPTIONS = ['curve operations act linearly on the denoted point (C07, C08, C10)', 'batch conversion keeps every point (C08)', 'Field::rand returns an arbitrary element']
TRUSTED = ['Field::rand']
PC = ('adt', 'poly_commit::PolynomialCommitment', [CURVE]); PO = ('adt', 'polynomial::Polynomial', [SF])
def inh(I, T, fn, args, margs=()):
    r = I.inherent(T, fn, list(margs), args)
    if r is None: raise Unsupported('lost anchor: ' + fn)
    return m.dr(r[0])
def rng(st):
    st.rs = []
    def r(I, T, a): st.rs.append(st.fe('S', 'r%d' % len(st.rs))); return st.rs[-1]
    return {'Field::rand': r, 'Field::rand_from_rng': r}
def fld(v, nm):
    v = m.dr(v)
    if not v.names or nm not in v.names: raise Unsupported('lost anchor: field ' + nm)
    return m.dr(v.f[v.names.index(nm)])
def point(c):
    v = fld(c, 'commitment'); return v.var, mpt(v.f[0])
def mkc(st, pt, aff_, r): return A('PolynomialCommitment', None, [A('CurvePoint', 'Affine' if aff_ else 'Projective', [pt], (CURVE,)), r], (CURVE,), ('commitment', 'randomness'))
def tabl(n): return Opaque('msm table', [mbasis('G%d' % i) for i in range(n)])
def slist(l): return SliceRef(l, 0, len(l))
H = lambda: mbasis('H', 'A')
def check(ctx, st, c, coeffs, table, blind, k, w, affine=None):
    """c commits to coeffs with randomness st.rs[k] (k None: unblinded)"""
    var, p = point(c); r = fld(c, 'randomness')
    if blind: ctx.concrete(k < len(st.rs), w + ': randomness is drawn'); ctx.feq(st, r, st.rs[k], w + ': reports the drawn randomness')
    else: ctx.feq(st, r, st.fconst('S', 0), w + ': zero randomness when unblinded')
    if isinstance(coeffs, Opaque): want = mbasis(('msm', id(table.d), coeffs.what))
    else: want = msum(st, list(zip(coeffs, table.d)))
    mfeq(ctx, st, p, madd(st, want, mscale(st, mbasis('H'), r)), w)
    if affine is not None: ctx.concrete(var == affine, w + ': representation')

def single_ob(ctx, n, blind, via):
    def run(st):
        I = ctx.interp(st, **mcfg(st, rng(st))); st.t = Opaque('msm table', [mbasis('G%d' % i) for i in range(n)]) if n is not None else Opaque('msm table', ['any number of generators'])
        st.c = [st.fe('S', 'c%d' % i) for i in range(n)] if n is not None else Opaque('all coefficients')
        a = slist(st.c) if n is not None else Ref([st.c], 0)
        if via == 'direct': st.r = inh(I, PC, 'coeffs_to_commitment', [a, Ref([st.t], 0), H(), blind])
        elif via == 'commit': st.r = inh(I, PO, 'commit', [Ref([A('Polynomial', None, [VecV(list(st.c))], (SF,))], 0), Ref([st.t], 0), H(), blind], [CURVE])
        elif via == 'hash': st.r = mpt(own_body(I, 'plonk_util-pedersen_hash', {'C': CURVE}, [a, Ref([st.t], 0)]))
        else: st.o = st.fe('S', 'opening'); st.r = mpt(own_body(I, 'plonk_util-pedersen_commit', {'C': CURVE}, [a, st.o, H(), Ref([st.t], 0)]))
    for st, res in ctx.explore(MFI(), run):
        w = '%s of %s coefficients%s' % (via, 'all' if n is None else n, ', blinded' if blind else ''); ctx.no_panic(st, res, w)
        if via in ('direct', 'commit'): ctx.concrete(len(st.rs) == int(blind), w + ': draws of randomness', {'draws': str(len(st.rs))}); check(ctx, st, st.r, st.c, st.t, blind, 0, w)
        else:
            want = mbasis(('msm', id(st.t.d), st.c.what)) if n is None else msum(st, list(zip(st.c, st.t.d)))
            if via == 'pcommit': want = madd(st, want, mscale(st, mbasis('H'), st.o))
            mfeq(ctx, st, st.r, want, w)
def batch_ob(ctx, k, n, blind, via):
    def run(st):
        I = ctx.interp(st, **mcfg(st, rng(st))); st.t = tabl(n); st.c = [[st.fe('S', 'c%d.%d' % (j, i)) for i in range(n)] for j in range(k)]
        if via == 'vec': st.r = lst(inh(I, PC, 'coeffs_vec_to_commitments', [slist([slist(c) for c in st.c]), Ref([st.t], 0), H(), blind]))
        else: st.r = lst(own_body(I, 'plonk_util-commit_polynomials', {'C': CURVE}, [slist([A('Polynomial', None, [VecV(list(c))], (SF,)) for c in st.c]), Ref([st.t], 0), H(), blind]))
        st.a = lst(inh(I, PC, 'commitments_to_affine_vec', [slist(st.r)]))
    for st, res in ctx.explore(MFI(), run):
        w = '%s of %d polynomials%s' % (via, k, ', blinded' if blind else ''); ctx.no_panic(st, res, w)
        ctx.concrete(len(st.r) == k and len(st.a) == k, w + ': one commitment each'); used = []
        for j, c in enumerate(st.r):
            i = j
            if blind: # any of the draws, each used once
                r = fld(c, 'randomness'); i = next((i for i, x in enumerate(st.rs) if x.p == r.p), None)
                ctx.concrete(i is not None and i not in used, w + ': commitment %d has its own randomness' % j); used.append(i)
            check(ctx, st, c, st.c[j], st.t, blind, i, w + ': commitment %d' % j); mfeq(ctx, st, st.a[j], point(c)[1], w + ': affine point %d' % j)
def conv_ob(ctx, pat):
    def run(st):
        I = ctx.interp(st, **mcfg(st, rng(st))); st.p = [mbasis('P%d' % i, 'A' if a else 'P') for i, a in enumerate(pat)]; st.s = [st.fe('S', 's%d' % i) for i in range(len(pat))]
        mk = lambda: [mkc(st, p, a, s) for p, a, s in zip(st.p, pat, st.s)]
        st.l0 = mk(); st.a1 = [inh(I, PC, 'to_affine', [Ref(st.l0, i)]) for i in range(len(pat))]; st.v1 = lst(inh(I, PC, 'commitments_to_affine_vec', [slist(st.l0)]))
        st.l = mk(); inh(I, PC, 'batch_to_affine', [slist(st.l)]); st.v2 = lst(inh(I, PC, 'commitments_to_affine_vec', [slist(st.l)]))
    for st, res in ctx.explore(MFI(), run):
        w = 'conversions of %r' % (pat,); ctx.no_panic(st, res, w); ctx.concrete(len(st.l) == len(st.v1) == len(st.v2) == len(pat), w + ': lengths')
        for i in range(len(pat)):
            for x in (st.a1[i], st.v1[i], st.v2[i], point(st.l[i])[1]): mfeq(ctx, st, x, st.p[i], w + ': point %d' % i)
            ctx.concrete(point(st.l[i])[0] == 'Affine', w + ': %d is affine after the batch conversion' % i); ctx.feq(st, fld(st.l[i], 'randomness'), st.s[i], w + ': randomness %d is kept' % i)
def from_ob(ctx):
    def run(st): I = ctx.interp(st, **mcfg(st, rng(st))); st.r = m.dr(I.dispatch(PC, 'From', [APT], 'from', [], [mbasis('P', 'A')]))
    for st, res in ctx.explore(MFI(), run):
        ctx.no_panic(st, res, 'from'); mfeq(ctx, st, point(st.r)[1], mbasis('P'), 'From<AffinePoint> keeps the point'); ctx.feq(st, fld(st.r, 'randomness'), st.fconst('S', 0), 'From<AffinePoint>: zero randomness')

def obligations(crates, tier):
    obs = [Ob('From<AffinePoint>', from_ob)]; B = 'up to 5 coefficients'
    for bl in (False, True):
        obs.append(Ob('coeffs_to_commitment of any list%s' % (', blinded' if bl else ''), lambda ctx, bl=bl: single_ob(ctx, None, bl, 'direct'), soft=True))
        for n in range(6):
            for via in ('direct', 'commit'): obs.append(Ob('%s of %d coefficients%s' % (via, n, ', blinded' if bl else ''), lambda ctx, n=n, bl=bl, via=via: single_ob(ctx, n, bl, via), bounded=B))
        for k in range(5):
            for via in ('vec', 'polynomials'): obs.append(Ob('batch %s, %d%s' % (via, k, ', blinded' if bl else ''), lambda ctx, k=k, bl=bl, via=via: batch_ob(ctx, k, 3, bl, via), bounded='up to 4 polynomials of 3 coefficients'))
    for via in ('hash', 'pcommit'):
        obs.append(Ob('%s of any list' % via, lambda ctx, via=via: single_ob(ctx, None, False, via), soft=True))
        for n in range(5): obs.append(Ob('%s of %d coefficients' % (via, n), lambda ctx, n=n, via=via: single_ob(ctx, n, False, via), bounded=B))
    for k in range(5):
        for pat in itertools.product((False, True), repeat=k): obs.append(Ob('conversions of %r' % (pat,), lambda ctx, pat=pat: conv_ob(ctx, pat), bounded='up to 4 commitments'))
    return obs
