from contracts.module import *
LEVEL = 'other'
NOTE = ('the verifier equation (verify_ipa, verify_all_ipas) is proved for every number of rounds a circuit can have (0 to 32, the 2-adicity bound) and for all points, scalars and challenges; '
        'the round trip with the prover is enumerated up to degree 8')
FUNCTIONS = ['halo::verify_ipa', 'halo::batch_opening_proof', 'halo::build_halo_b', 'halo::schnorr_protocol', 'verifier::verify_all_ipas', 'plonk_util::{halo_g, powers, reduce_with_powers}']
EXPLAIN = ('Points are elements of a free module over the scalar field with indeterminate coefficients. verify_ipa is interpreted on indeterminate points, scalars and challenges; the comparison it makes is compared coordinate by coordinate with the protocol equation and its result with the outcome of '
           'that comparison. The prover is interpreted with indeterminate polynomials, blinding factors and challenges, and the real verifier equation on its output must vanish identically.')
ASSUMPTIONS = ['curve operations and multi-scalar multiplication act linearly on the denoted point (C07, C08, C10)', 'challenges u_i are nonzero (n is injective away from 0, C11)', 'halo_n_mul(s, P) = [halo_n(s)]P (C11)', 'a challenge whose image n(r) is not a square is retried by the prover']
TRUSTED = ['Field::rand']
PROOF = ('adt', 'plonk_proof::Proof', [CURVE])
ADICITY = 32

class Bits:
    """contract of to_canonical_bool_vec: an opaque bit string of its argument, 256 long"""
    def __init__(s, x): s.x = x
def bits_over(st, extra=None):
    """halo_n on the leading bits of an element is an unknown scalar determined by element and length (C11)"""
    def bv(I, T, a):
        x = m.dr(a[0]); return VecV([Opaque('bit', (x, i)) for i in range(256)])
    def nval(v):
        l = lst(v)
        if not l: raise Unsupported('halo_n of no bits')
        x = l[0].d[0]
        for i, b in enumerate(l):
            if not (isinstance(b, Opaque) and b.what == 'bit' and b.d[0] is x and b.d[1] == i): raise Unsupported('halo_n of something other than the leading bits of one element')
        return nof(st, x, len(l))
    def conv(I, T, a):
        x = m.dr(a[0])
        return A('Result', 'Ok', [conv_(st, x)])
    o = {'Field::to_canonical_bool_vec': bv, 'plonk_util-halo_n': lambda I, T, a: nval(a[0]), 'plonk_util-halo_n_mul': lambda I, T, a: mscale(st, mpt(a[1]), nval(a[0]), 'A'), 'Field::try_convert': conv}
    o.update(extra or {}); return o
def nof(st, x, n):
    d = st.ucache.setdefault(('halo_n', x.fid, tuple(sorted(x.p.items())), n), None)
    k = ('halo_n', x.fid, tuple(sorted(x.p.items())), n)
    if d is None: d = st.ucache[k] = st.fe('S', 'n%d(%s)' % (n, st.show('S', x.p) if hasattr(st, 'show') else len(st.ucache)))
    return d
def conv_(st, x):
    k = ('conv', x.fid, tuple(sorted(x.p.items())))
    if k not in st.ucache: st.ucache[k] = st.fe('S' if x.fid == 'F' else 'F', 'conv%d' % len(st.ucache))
    return st.ucache[k]
def chal_over(st):
    """the challenger by contract (C15): a challenge is an arbitrary element determined by everything observed before it"""
    def lg(a): return m.dr(a[0]).d
    def get(I, T, a):
        x = st.fe('F', 'c%d' % len(st.ucache)); st.ucache[('chal', len(st.ucache))] = x; lg(a).append(('get', x)); return x
    return {'Challenger::new': lambda I, T, a: Opaque('challenger', []), 'Challenger::observe_element': lambda I, T, a: lg(a).append(('el', m.dr(a[1]))) or unit(),
            'Challenger::observe_affine_point': lambda I, T, a: lg(a).append(('pt', mpt(a[1]))) or unit(), 'Challenger::get_challenge': get,
            'Clone::clone': lambda I, T, a: Opaque('challenger', list(m.dr(a[0]).d)) if isinstance(m.dr(a[0]), Opaque) and m.dr(a[0]).what == 'challenger' else (m.dr(a[0]) if isinstance(m.dr(a[0]), MPt) else NotImplemented)}
def unit(): return m.unit() if hasattr(m, 'unit') else Tup([])
def mkproof(I, st, **kw):
    """a proof value with the fields of the real struct"""
    for c in I.crates:
        if 'Proof' in c.structs and c.crate == 'plonky': names = [n for n, _ in c.structs['Proof'][1]]; break
    miss = [n for n in names if n not in kw]
    if miss or len(names) != len(kw): raise Unsupported('fields of Proof: %r' % (names,))
    return A('Proof', None, [kw[n] for n in names], (CURVE,), tuple(names))
def mkstruct(I, name, targs, **kw):
    for c in I.crates:
        if name in c.structs: names = [n for n, _ in c.structs[name][1]]; break
    else: raise Unsupported('lost anchor: struct ' + name)
    if set(names) != set(kw): raise Unsupported('fields of %s: %r' % (name, names))
    return A(name, None, [kw[n] for n in names], targs, tuple(names))
def slist(l): return SliceRef(l, 0, len(l))
def inv(st, p): return st.fs('S').inverse(p)
def nz(st, x): st.fs('S').assume_nonzero(x.p); return x
def ipa_args(st, k):
    b = lambda n: mbasis(n, 'A')
    return dict(l=[b('L%d' % i) for i in range(k)], r=[b('R%d' % i) for i in range(k)], g=b('G'), P=mbasis('P'), v=st.fe('S', 'value'), b=st.fe('S', 'b'), us=[nz(st, st.fe('S', 'u%d' % i)) for i in range(k)],
                U=mbasis("U'"), H=b('H'), c=st.fe('S', 'c'), R=b('R'), z1=st.fe('S', 'z1'), z2=st.fe('S', 'z2'))
def equation(st, d):
    """c(P + value U' + sum u^2 L + u^-2 R) + R - z1(G + b U') - z2 H"""
    q = madd(st, d['P'], mscale(st, d['U'], d['v']))
    for u, L, R in zip(d['us'], d['l'], d['r']):
        u2 = P.mul(u.p, u.p); ui = inv(st, u.p); q = madd(st, q, madd(st, mscale(st, L, u2), mscale(st, R, P.mul(ui, ui))))
    e = madd(st, mscale(st, q, d['c']), d['R']); w = madd(st, mscale(st, madd(st, d['g'], mscale(st, d['U'], d['b'])), d['z1']), mscale(st, d['H'], d['z2']))
    return madd(st, e, mscale(st, w, -1))
def run_ipa(I, st, d):
    sp = mkstruct(I, 'SchnorrProof', (CURVE,), r=d['R'], z1=d['z1'], z2=d['z2'])
    return own_body(I, 'halo-verify_ipa', {'C': CURVE}, [slist(d['l']), slist(d['r']), d['g'], d['P'], d['v'], d['b'], slist(d['us']), d['U'], d['H'], d['c'], sp])
def eq_checked(ctx, st, want, res, w):
    """exactly one comparison of points was made; it is the wanted equation and the result is its outcome"""
    ctx.concrete(len(st.eqs) == 1, w + ': one comparison of points', {'comparisons': str(len(st.eqs))})
    x, y = st.eqs[0]; d = madd(st, x, mscale(st, y, -1)); f = st.fs('S')
    # the same equation up to sign
    neg = any(True for k in d.d if f.norm(P.sub(d.d[k], want.d.get(k, {}))))
    if neg and all(not f.norm(P.add(d.d.get(k, {}), want.d.get(k, {}))) for k in set(d.d) | set(want.d)): d = mscale(st, d, -1)
    mfeq(ctx, st, d, want, w)
    ctx.concrete(res == st.holds, w + ': accepts exactly when the equation holds', {'equation holds': str(st.holds), 'accepted': str(res)})
def eq_over(st):
    """points are compared once; the outcome is arbitrary"""
    st.holds = None
    def eq(I, T, a):
        if not (ismpt(a[0]) and ismpt(a[1])): return NotImplemented
        st.eqs.append((mpt(a[0]), mpt(a[1]))); st.holds = bool(st.choose(2)); return st.holds
    return {'PartialEq::eq': eq, 'PartialEq::ne': lambda I, T, a: (lambda r: r if r is NotImplemented else not r)(eq(I, T, a))}
def ver_ob(ctx, k):
    def run(st):
        I = ctx.interp(st, **mcfg(st, eq_over(st))); st.d = ipa_args(st, k); st.r = run_ipa(I, st, st.d)
        if isinstance(st.r, SB): st.r = st.decide(st.r)
    seen = set()
    for st, res in ctx.explore(MFI(), run):
        w = 'verify_ipa with %d rounds' % k; ctx.no_panic(st, res, w); eq_checked(ctx, st, equation(st, st.d), st.r, w); seen.add(st.r)
    ctx.concrete(seen == {True, False}, 'both outcomes are reachable')

# ------------------------------------------------------------------ prover round trip
def prover_over(st, retry):
    def rand(I, T, a): x = st.fe('S', 'r%d' % st.nr); st.nr += 1; return x
    def sqrt(I, T, a):
        x = m.dr(a[0])
        if retry and st.retries < 1 and st.choose(2): st.retries += 1; return none()
        u = nz(st, st.fe('S', 'u%d' % len(st.us))); st.assume(SB('fz', 'S', P.sub(x.p, P.mul(u.p, u.p))), True); st.us.append(u); return some(u)
    st.nr = 0; st.us = []; st.retries = 0
    o = bits_over(st, {'Field::rand': rand, 'Field::square_root': sqrt}); o.update(chal_over(st)); return o
def prover_ob(ctx, lg, k, npts, retry=False):
    n = 1 << lg; SEC = 8
    def run(st):
        I = ctx.interp(st, **mcfg(st, prover_over(st, retry))); fe = lambda nm: st.fe('S', nm)
        polys = [[fe('f%d.%d' % (j, i)) for i in range(n)] for j in range(k)]; rs = [fe('rho%d' % j) for j in range(k)]
        pts = [fe('x%d' % i) for i in range(npts)]; u, v, us = fe('u'), fe('v'), fe('usc'); U, H = mbasis('U', 'A'), mbasis('H'); G = [mbasis('G%d' % i, 'A') for i in range(n)]
        cm = [mkstruct(I, 'PolynomialCommitment', (CURVE,), commitment=A('CurvePoint', 'Affine', [mbasis('C%d' % j, 'A')], (CURVE,)), randomness=rs[j]) for j in range(k)]
        ch = [Opaque('challenger', [])]
        r = own_body(I, 'halo-batch_opening_proof', {'C': CURVE}, [slist([slist(p) for p in polys]), slist(cm), slist(pts), slist(G), H, U, u, v, us, n, SEC, Ref(ch, 0)])
        if r.var != 'Ok': raise Panic('prover failed')
        pf = m.dr(r.f[0]); fld = lambda o, nm: m.dr(o.f[o.names.index(nm)]); sp = fld(pf, 'schnorr_proof')
        st.pf = dict(l=[mpt(x) for x in lst(fld(pf, 'halo_l'))], r=[mpt(x) for x in lst(fld(pf, 'halo_r'))], g=mpt(fld(pf, 'halo_g')), R=mpt(fld(sp, 'r')), z1=fld(sp, 'z1'), z2=fld(sp, 'z2')); st.log = ch[0].d if isinstance(ch[0], Opaque) else m.dr(ch[0]).d
        # what the verifier computes for the same polynomials
        up = P.const(1); sc = []
        for j in range(k): sc.append(nof(st, FE('S', st.fs('S').norm(up)), SEC)); up = P.mul(up, u.p)
        com = MPt({}); vals = []
        for j in range(k):
            cj = msum(st, list(zip(polys[j], G))); com = madd(st, com, mscale(st, madd(st, cj, mscale(st, H, rs[j])), sc[j]))
        for x in pts:
            t = {}
            for j in range(k):
                e = {}
                for c in reversed(polys[j]): e = P.add(P.mul(e, x.p), c.p)
                t = P.add(t, P.mul(sc[j].p, e))
            vals.append(t)
        red = lambda l: (lambda acc: acc)(__import__('functools').reduce(lambda a, x: P.add(P.mul(a, v.p), x), reversed(l), {}))
        bs = []
        for x in pts:
            g = own_body(I, 'plonk_util-halo_g', {'F': SF}, [x, slist(list(st.us))]); bs.append(g.p)
        nrm = st.fs('S').norm; st.d = dict(st.pf, P=com, v=FE('S', nrm(red(vals))), b=FE('S', nrm(red(bs))), us=list(st.us), U=mscale(st, U, nof(st, us, SEC)), H=H)
        gets = [x for t, x in st.log if t == 'get']
        ctx.concrete(len(gets) == lg + 1, 'one challenge per round and one for the Schnorr proof'); st.d['c'] = conv_(st, gets[-1])
    for st, res in ctx.explore(MFI(), run):
        w = 'opening proof, degree %d, %d polynomials, %d points%s' % (n, k, npts, ', after a retry' if retry and st.retries else ''); ctx.no_panic(st, res, w)
        ctx.concrete(len(st.pf['l']) == lg and len(st.pf['r']) == lg, w + ': one L and R per round')
        mfeq(ctx, st, equation(st, st.d), MPt({}), w + ': the verifier equation holds')
        # the transcript the verifier replays
        want = []
        for i in range(lg): want += [('pt', st.pf['l'][i]), ('pt', st.pf['r'][i]), ('get', None)]
        want += [('pt', st.pf['R']), ('get', None)]
        ctx.concrete([t for t, _ in want] == [t for t, _ in st.log], w + ': transcript shape', {'log': str([t for t, _ in st.log])})
        for (t, a), (_, b) in zip(want, st.log):
            if t == 'pt': mfeq(ctx, st, b, a, w + ': transcript')
        gets = [x for t, x in st.log if t == 'get']
        for i, x in enumerate(gets[:-1]): ctx.zero(st, 'S', P.sub(P.mul(st.us[i].p, st.us[i].p), nof(st, conv_(st, x), SEC).p), w + ': challenge %d is the root of n(transcript challenge)' % i)

# ------------------------------------------------------------------ verify_all_ipas: what it hands to verify_ipa
def opening(I, st, nm, k):
    fe = lambda n: [st.fe('S', '%s.%s%d' % (nm, n, i)) for i in range(k[n])]
    d = dict(o_constants=fe('k'), o_plonk_sigmas=fe('s'), o_wires=fe('w'), o_plonk_z=st.fe('S', nm + '.z'), o_plonk_t=fe('t'), o_old_proofs=fe('o'), o_pi_quotient=st.fe('S', nm + '.q'))
    flat = d['o_constants'] + d['o_plonk_sigmas'] + d['o_wires'] + [d['o_plonk_z']] + d['o_plonk_t'] + d['o_old_proofs'] + [d['o_pi_quotient']]
    return mkstruct(I, 'OpeningSet', (SF,), **{k_: VecV(x) if isinstance(x, list) else x for k_, x in d.items()}), flat, d
def sproof(I, st, k, rounds):
    """an indeterminate proof of the given shape; k: lengths of constants, sigmas, wires, t, old"""
    pts = lambda n, c: [mbasis('%s%d' % (n, i), 'A') for i in range(c)]
    d = dict(c_wires=pts('cw', k['w']), c_plonk_z=mbasis('cz', 'A'), c_plonk_t=pts('ct', k['t']), c_pis_quotient=mbasis('cq', 'A'), halo_l=pts('L', rounds), halo_r=pts('R', rounds), halo_g=mbasis('hg', 'A'))
    st.sr = (mbasis('Rs', 'A'), st.fe('S', 'z1'), st.fe('S', 'z2')); st.open = [opening(I, st, nm, k) for nm in ('loc', 'rgt', 'bel')]
    pr = mkproof(I, st, o_local=st.open[0][0], o_right=st.open[1][0], o_below=st.open[2][0], schnorr_proof=mkstruct(I, 'SchnorrProof', (CURVE,), r=st.sr[0], z1=st.sr[1], z2=st.sr[2]), **{n: VecV(list(x)) if isinstance(x, list) else x for n, x in d.items()})
    return pr, d
def oldp(I, st, j, rounds): return mkstruct(I, 'OldProof', (CURVE,), halo_g=mbasis('old%d' % j, 'A'), halo_us=VecV([nz(st, st.fe('S', 'ou%d.%d' % (j, i))) for i in range(rounds)]))
def all_ob(ctx, rounds, nold, full):
    def run(st):
        def vi(I, T, a): st.args = a; st.ncall = getattr(st, 'ncall', 0) + 1; st.out = bool(st.choose(2)); return st.out
        I = ctx.interp(st, **mcfg(st, bits_over(st, {'halo-verify_ipa': vi}))); kc = lambda n: int(I.const_by_path('plonk::' + n, []))
        SEC = 128; GW = kc('GRID_WIDTH') if full else kc('GRID_WIDTH')
        k = dict(k=kc('NUM_CONSTANTS'), s=kc('NUM_ROUTED_WIRES'), w=kc('NUM_WIRES'), t=kc('QUOTIENT_POLYNOMIAL_DEGREE_MULTIPLIER'), o=nold) if full else dict(k=2, s=1, w=2, t=2, o=nold)
        pr, st.pd = sproof(I, st, k, rounds); st.olds = [oldp(I, st, j, 2) for j in range(nold)]; fe = lambda n: st.fe('S', n)
        ck, cs = [mbasis('ck%d' % i, 'A') for i in range(k['k'])], [mbasis('cs%d' % i, 'A') for i in range(k['s'])]; st.v, st.u, st.usc, st.z, st.g, st.c = fe('v'), fe('u'), fe('usc'), fe('zeta'), fe('g'), fe('c')
        st.us = [nz(st, fe('u%d' % i)) for i in range(rounds)]; U, H = mbasis('U', 'A'), mbasis('H', 'A')
        st.r = own_body(I, 'verifier-verify_all_ipas', {'C': CURVE}, [slist(ck), slist(cs), st.g, U, H, Ref([pr], 0), slist(st.olds), st.u, st.v, st.usc, st.z, slist(st.us), st.c, SEC])
        # expected
        pts = ck + cs + st.pd['c_wires'] + [st.pd['c_plonk_z']] + st.pd['c_plonk_t'] + [mbasis('old%d' % j) for j in range(nold)] + [st.pd['c_pis_quotient']]
        nrm = st.fs('S').norm; up = P.const(1); sc = []
        for _ in pts: sc.append(nof(st, FE('S', nrm(up)), SEC)); up = nrm(P.mul(up, st.u.p))
        st.com = msum(st, list(zip(sc, pts))); val, vp = {}, P.const(1); hb = {}
        for i, (_, flat, _) in enumerate(st.open):
            if len(flat) != len(sc): raise Unsupported('openings and commitments differ in number')
            for a, b in zip(flat, sc): val = P.add(val, P.mul(vp, P.mul(a.p, b.p)))
            e = [0, 1, GW][i]; x = nrm(P.mul(st.z.p, P.pw(st.g.p, e)))
            hb = P.add(hb, P.mul(vp, gprod(st, x, st.us))); vp = P.mul(vp, st.v.p)
        st.val, st.hb, st.Up = nrm(val), nrm(hb), mscale(st, U, nof(st, st.usc, SEC))
    for st, res in ctx.explore(MFI(), run):
        w = 'verify_all_ipas, %d rounds, %d old proofs%s' % (rounds, nold, ', real shape' if full else ''); ctx.no_panic(st, res, w)
        ctx.concrete(st.ncall == 1 and st.r == st.out, w + ': returns the verdict of verify_ipa'); a = st.args
        for nm, i in (('halo_l', 0), ('halo_r', 1)):
            ctx.concrete(len(lst(a[i])) == rounds, w + ': number of ' + nm)
            for x, y in zip(lst(a[i]), st.pd[nm]): mfeq(ctx, st, x, y, w + ': ' + nm)
        mfeq(ctx, st, a[2], st.pd['halo_g'], w + ': halo_g'); mfeq(ctx, st, a[3], st.com, w + ': reduced commitment')
        ctx.zero(st, 'S', P.sub(m.dr(a[4]).p, st.val), w + ': reduced opening'); ctx.zero(st, 'S', P.sub(m.dr(a[5]).p, st.hb), w + ': evaluation of the folded b vector')
        ctx.concrete(len(lst(a[6])) == rounds, w + ': challenges')
        for x, y in zip(lst(a[6]), st.us): ctx.feq(st, m.dr(x), y, w + ': challenges')
        mfeq(ctx, st, a[7], st.Up, w + ": U'"); mfeq(ctx, st, a[8], mbasis('H'), w + ': H'); ctx.feq(st, m.dr(a[9]), st.c, w + ': Schnorr challenge')
        sp = m.dr(a[10]); mfeq(ctx, st, sp.f[sp.names.index('r')], st.sr[0], w + ': Schnorr point')
        for i, nm in ((1, 'z1'), (2, 'z2')): ctx.feq(st, m.dr(sp.f[sp.names.index(nm)]), st.sr[i], w + ': ' + nm)
def gprod(st, x, us):
    """prod (u_i x^(2^(k-1-i)) + u_i^-1)"""
    r = P.const(1); f = st.fs('S'); xp = x
    for u in reversed(us): r = f.norm(P.mul(r, P.add(P.mul(u.p, xp), inv(st, u.p)))); xp = f.norm(P.mul(xp, xp))
    return r

def obligations(crates, tier):
    obs = [Ob('verify_ipa with %d rounds' % k, lambda ctx, k=k: ver_ob(ctx, k)) for k in range(ADICITY + 1)]
    for rounds, nold, full in ((0, 0, False), (1, 0, False), (1, 1, False), (2, 2, False), (3, 0, False), (0, 0, True), (1, 2, True)):
        obs.append(Ob('verify_all_ipas, %d rounds, %d old%s' % (rounds, nold, ', real shape' if full else ''), lambda ctx, r=rounds, o=nold, f=full: all_ob(ctx, r, o, f), bounded='up to 3 rounds and 2 old proofs; folded b for any number of rounds is C35'))
    for lg, k, n in ((0, 1, 1), (0, 2, 2), (1, 1, 1), (1, 2, 2), (1, 3, 3), (2, 1, 1), (2, 2, 1), (2, 2, 3)) + (((3, 1, 1), (3, 2, 2)) if tier == 'thorough' else ((3, 1, 1),)):
        obs.append(Ob('prover round trip, degree %d, %d polynomials, %d points' % (1 << lg, k, n), lambda ctx, lg=lg, k=k, n=n: prover_ob(ctx, lg, k, n), bounded='degree up to 8, up to 3 polynomials and points'))
    obs.append(Ob('prover round trip with a retry', lambda ctx: prover_ob(ctx, 1, 1, 1, True), bounded='degree 2, one retry'))
    return obs
