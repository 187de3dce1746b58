from contracts.C27 import *
from contracts.polys import roots, wpow, sl, coefs, poly, pl
PLOOKUP = True
LEVEL = 'other'
NOTE = ('verify is proved for every proof, opening, challenge and outcome of its steps at the stated proof sizes (up to n = 31); grand product, sorting and vanishing terms for every choice of elements at table sizes up to 8; shapes above are not covered by an obligation')
FUNCTIONS = ['plookup::{prove, pad_inputs, pad_table, sort_by, insert_into, grand_polynomial, vanishing_polynomial, eval_l_i, padded}', 'verifier::{verify, verify_all_ipas}', 'PlookupProof::{get_challenges, from}', 'PlookupProofChallenge', 'PlookupOpenings::{to_vec, local, right}', 'open_all_polynomials', 'Table::{from_function, from_function_cartesian, to_vec, to_vecs_with_row_witnesses, to_vecs_with_column_witnesses, prove_row, prove_column, verify}']
EXPLAIN = ('The helpers run on indeterminate field elements, every equality pattern between lookups and table entries enumerated; the grand product must satisfy the step relation and close at one identically in the challenges and table elements. '
           'vanishing_polynomial runs with its evaluations replaced by indeterminates and each of its values must be the batched four-term formula of the protocol; verify runs with each sub-step replaced by its contract, both outcomes explored, and must accept only when every step succeeds and the quotient equation over the openings is an identity of the path. '
           'prove and get_challenges run with a recording challenger: the two transcripts, and what is sent and committed, are compared item by item.')
ASSUMPTIONS = ['verify_ipa decides the protocol equation (C26)', 'the challenger meets its contract (C15)', 'eval_domain, from_evaluations, the inverse transform and divide_by_z_h meet their contracts (C12, C13, C14)', 'commitments act linearly (C25)', 'exp_usize and primitive_root_of_unity meet their contracts (C05)',
               'the assertions that the vanishing terms are zero on the subgroup, compiled only in debug builds, are taken to hold in vanishing_polynomial and are discharged separately for honest inputs']
TRUSTED = ['itertools multi_cartesian_product, slice sort_by (stable)']
FE1 = lambda: {'F': FieldInfo('F')}
E1 = {'F': F}
pn = lambda st, fid, p: st.fs(fid).norm(p)

# ------------------------------------------------------------------ padding, sorting
def pad_ob(ctx, nf, nt):
    def run(st):
        st.f = coefs(st, 'f', nf); st.t = coefs(st, 't', nt); I = ctx.interp(st)
        return own_body(I, 'plookup-pad_inputs', E1, [sl(st.f), sl(st.t)])
    for st, res in ctx.explore(FE1(), run):
        w = 'pad_inputs of %d lookups, %d entries' % (nf, nt); ctx.no_panic(st, res, w); n, f, t = res[1].f if hasattr(res[1], 'f') else res[1]
        f, t = lst(f), lst(t); ctx.concrete(isinstance(n, int) and (n+1) & n == 0 and n >= 1 and n >= nf and n+1 >= nt, w + ': size', {'n': str(n)})
        ctx.concrete(len(f) == n and len(t) == n+1, w + ': lengths', {'f': str(len(f)), 't': str(len(t))})
        for nm, got, orig in (('f', f, st.f), ('t', t, st.t)):
            for i, x in enumerate(got): ctx.feq(st, m.dr(x), orig[i] if i < len(orig) else st.t[-1], w + ': element %d of %s' % (i, nm))
def padz_ob(ctx):
    for k in range(5):
        for n in range(k, 9):
            def run(st): st.f = coefs(st, 'f', k); return own_body(ctx.interp(st), 'plookup-padded', E1, [sl(st.f), n])
            for st, res in ctx.explore(FE1(), run):
                w = 'padded(%d elements, %d)' % (k, n); ctx.no_panic(st, res, w); l = lst(res[1]); ctx.concrete(len(l) == n, w + ': length')
                for i, x in enumerate(l): ctx.zero(st, 'F', P.sub(m.dr(x).p, st.f[i].p if i < k else {}), w)
def distinct(st, xs):
    for i, x in enumerate(xs):
        for y in xs[:i]: st.fs('F').assume_nonzero(P.sub(x.p, y.p))
def pat(nt, nd):
    """assignments of nt positions to classes, canonical, at most nd classes"""
    def go(i, k):
        if i == nt: yield []; return
        for c in range(min(k+1, nd)):
            for r in go(i+1, max(k, c+1)): yield [c] + r
    return go(0, 0)
def sorting_ob(ctx, nt, nf):
    """every equality pattern of the table, every choice of lookups in it"""
    import itertools
    for tp in pat(nt, nt):
        cl = max(tp) + 1
        for fp in itertools.product(range(cl), repeat=nf):
            def run(st):
                xs = coefs(st, 'x', cl); distinct(st, xs); st.xs = xs; I = ctx.interp(st); t = [xs[c] for c in tp]; f = VecV([xs[c] for c in fp])
                own_body(I, 'plookup-sort_by', E1, [sl(f.l), sl(t)]); st.f = list(f.l)
                return own_body(I, 'plookup-insert_into', E1, [sl(f.l), sl(t)])
            want = sorted(fp, key=lambda c: tp.index(c)); ws = []; rest = list(want)
            for c in tp:
                ws.append(c)
                while rest and rest[0] == c: ws.append(rest.pop(0))
            for st, res in ctx.explore(FE1(), run):
                w = 'table pattern %s, lookups %s' % (tp, list(fp)); ctx.no_panic(st, res, w); s = [m.dr(x) for x in lst(res[1])]; name = lambda l: [[i for i, y in enumerate(st.xs) if y.p == m.dr(x).p] for x in l]
                ctx.concrete(name(st.f) == [[c] for c in want], w + ': sorted by the table', {'got': str(name(st.f))})
                g = name(s); ctx.concrete(sorted(g) == sorted([c] for c in list(tp) + list(fp)), w + ': the sorted list holds exactly the lookups and the table', {'got': str(g)})
                # what the protocol needs of s: its adjacent pairs are those of t plus (x, x) per lookup
                pr = sorted((a[0], b[0]) for a, b in zip(g, g[1:])); need = sorted(list(zip(tp, tp[1:])) + [(c, c) for c in fp])
                ctx.concrete(pr == need, w + ': adjacent pairs', {'got': str(g)})

# ------------------------------------------------------------------ grand product
def grand_ob(ctx, n):
    def run(st):
        st.f = coefs(st, 'f', n); st.t = coefs(st, 't', n+1); st.s = coefs(st, 's', 2*n+1); st.b, st.g = st.fe('F', 'beta'), st.fe('F', 'gamma')
        I = ctx.interp(st); return own_body(I, 'plookup-grand_polynomial', E1, [sl(st.f), sl(st.t), sl(st.s), st.b, st.g])
    ok = 0
    for st, res in ctx.explore(FE1(), run):
        w = 'grand product, n = %d' % n
        if res[0] == 'panic' and (str(res[1]).endswith('on None') or 'division by zero' in str(res[1])): continue   # a denominator vanishes for these challenges: no proof is produced
        ctx.no_panic(st, res, w); z = [m.dr(x) for x in lst(res[1])]; ok += 1
        ctx.concrete(len(z) == n+1, w + ': length', {'got': str(len(z))}); ctx.zero(st, 'F', P.sub(z[0].p, P.const(1)), w + ': starts at one'); ctx.zero(st, 'F', P.sub(z[n].p, P.const(1)), w + ': ends at one')
        b1 = P.add(st.b.p, P.const(1)); gb = P.mul(st.g.p, b1)
        for i in range(n-1):
            a, c = step(st, b1, gb, st.f[i], st.t[i:i+2], st.s[i:i+2], st.s[n+i:n+i+2])
            ctx.zero(st, 'F', P.sub(P.mul(z[i].p, a), P.mul(z[i+1].p, c)), w + ': step %d' % i)
    ctx.concrete(ok >= 1, 'a grand product is returned')
def step(st, b1, gb, f, t, h1, h2):
    lin = lambda a, b: P.add(gb, P.add(a.p, P.mul(st.b.p, b.p))); nr = st.fs('F').norm
    return nr(P.mul(P.mul(b1, P.add(st.g.p, f.p)), lin(*t))), nr(P.mul(lin(*h1), lin(*h2)))
def closes_ob(ctx, nt, nf):
    """honest inputs: the last step closes at one and the two halves of s overlap, for the padded and sorted lists of the real prover helpers"""
    import itertools
    for tp in pat(nt, nt):
        cl = max(tp) + 1
        for fp in itertools.combinations_with_replacement(range(cl), nf):
            def run(st):
                xs = coefs(st, 'x', cl); distinct(st, xs); I = ctx.interp(st); r = own_body(I, 'plookup-pad_inputs', E1, [sl([xs[c] for c in fp]), sl([xs[c] for c in tp])]); n, f, t = r.f if hasattr(r, 'f') else r
                st.f, st.t = lst(f), lst(t); sf = VecV(list(st.f)); own_body(I, 'plookup-sort_by', E1, [sl(sf.l), sl(st.t)])
                st.s = [m.dr(x) for x in lst(own_body(I, 'plookup-insert_into', E1, [sl(sf.l), sl(st.t)]))]; st.n = n; st.b, st.g = st.fe('F', 'beta'), st.fe('F', 'gamma')
            for st, res in ctx.explore(FE1(), run):
                w = 'table %s, lookups %s' % (tp, list(fp)); ctx.no_panic(st, res, w); n = st.n; nr = st.fs('F').norm
                ctx.concrete(len(st.s) == 2*n+1, w + ': length of the sorted list'); b1 = P.add(st.b.p, P.const(1)); gb = P.mul(st.g.p, b1)
                # compare the factor multisets: prod over i of numerators = prod of denominators
                lin = lambda a, b: key(nr(P.add(gb, P.add(a.p, P.mul(st.b.p, b.p)))))
                num = [key(nr(P.mul(b1, P.add(st.g.p, x.p)))) for x in map(m.dr, st.f)] + [lin(m.dr(st.t[i]), m.dr(st.t[i+1])) for i in range(n)]
                den = [lin(st.s[i], st.s[i+1]) for i in range(2*n)]
                ctx.concrete(sorted(num) == sorted(den), w + ': the grand product closes at one', {'n': str(n)})

# ------------------------------------------------------------------ vanishing polynomial
def four(st, fid, c, x, last_pt, l0, ln, o, nx):
    """the batched vanishing terms; o: openings at x, nx: at the next point"""
    nr = st.fs(fid).norm; b1 = P.add(c['beta'], P.const(1)); gb = nr(P.mul(c['gamma'], b1)); lin = lambda a, b: P.add(gb, P.add(a, P.mul(c['beta'], b)))
    t1 = P.mul(l0, P.sub(o['z'], P.const(1))); d = P.sub(x, last_pt)
    A_ = nr(P.mul(nr(P.mul(o['z'], P.mul(b1, P.add(c['gamma'], o['f'])))), lin(o['t'], nx['t']))); B_ = nr(P.mul(nr(P.mul(nx['z'], lin(o['h1'], nx['h1']))), lin(o['h2'], nx['h2'])))
    t2 = nr(P.mul(d, P.sub(A_, B_))); t3 = P.mul(ln, P.sub(o['h1'], nx['h2'])); t4 = P.mul(ln, P.sub(o['z'], P.const(1)))
    r, ap = {}, P.const(1)
    for t in (t1, t2, t3, t4): r = P.add(r, nr(P.mul(ap, nr(t)))); ap = P.mul(ap, c['alpha'])
    return nr(r)
NM = ['f', 't', 'h1', 'h2', 'z']
def vanish_ob(ctx, n):
    N = n+1; order = 4*N; K = order.bit_length()-1; setup, over0 = roots(K)
    def run(st):
        setup(st); over = dict(over0); st.calls = []; ps = {nm: A('Polynomial', None, [VecV([Opaque(nm)])], (F,)) for nm in NM}
        st.ev = {nm: [st.fe('F', '%s@%d' % (nm, i)) for i in range(order)] for nm in NM}
        def nmof(v): return lst(m.dr(v).f[0])[0].what
        def prec(I, T, a): st.calls.append(a[0]); return Opaque('fft', a[0])
        def ed(I, T, a):
            if m.dr(a[1]).d != order: raise Refuted('vanishing polynomial evaluated on a domain of another order')
            return VecV(list(st.ev[nmof(a[0])]))
        def fe_(I, T, a):
            if m.dr(a[1]).d != order: raise Refuted('interpolated on another domain')
            return Opaque('interpolant', [m.dr(x) for x in lst(a[0])])
        def li(I, T, a):
            nn, i, g, x = a; k = ('L', int(nn), int(i), key(m.dr(g).p), key(m.dr(x).p))
            if k not in st.ucache: st.ucache[k] = st.fe('F', 'L%d' % len(st.ucache))
            return st.ucache[k]
        def eq(I, T, a):
            x, y = m.dr(a[0]), m.dr(a[1])
            if isinstance(y, FE) and not y.p: return True
            return NotImplemented
        over.update({'fft-fft_precompute': prec, 'Polynomial::eval_domain': ed, 'Polynomial::from_evaluations': fe_, 'plookup-eval_l_i': li, 'PartialEq::eq': eq})
        I = ctx.interp(st, over=over); st.c = {x: st.fe('F', x) for x in ('beta', 'gamma', 'alpha')}
        return own_body(I, 'plookup-vanishing_polynomial', E1, [Ref([ps[x]], 0) for x in NM] + [st.c['beta'], st.c['gamma'], st.c['alpha'], n])
    for st, res in ctx.explore(FE1(), run):
        w = 'vanishing polynomial, n = %d' % n; ctx.no_panic(st, res, w); v = m.dr(res[1]).d; ctx.concrete(len(v) == order, w + ': number of values'); c = {k: x.p for k, x in st.c.items()}
        g = wpow(st, 4, K)
        for i in range(order):
            x = wpow(st, i, K); L = lambda j: st.ucache.get(('L', N, j, key(g.p), key(x.p))); ctx.concrete(L(0) is not None and L(n) is not None, w + ': Lagrange values at point %d' % i)
            o = {k: l[i].p for k, l in st.ev.items()}; nx = {k: l[(i+4) % order].p for k, l in st.ev.items()}
            ctx.zero(st, 'F', P.sub(v[i].p, four(st, 'F', c, x.p, wpow(st, 4*n, K).p, L(0).p, L(n).p, o, nx)), w + ': value %d' % i)

# ------------------------------------------------------------------ openings
ONM = ['f', 't', 'h1', 'h2', 'z', 'quotient']
OPN = ('adt', 'openings::PlookupOpenings', [SF])
def openings(I, st, fid='S', tag=''):
    T = SF if fid == 'S' else F
    st.o = {x: (st.fe(fid, x + '.local'), st.fe(fid, x + '.right')) for x in ONM}
    return mkstruct(I, 'PlookupOpenings', (T,), **{x: mkstruct(I, 'Opening', (T,), local=a, right=b) for x, (a, b) in st.o.items()})
def lists_ob(ctx):
    for fn in ('to_vec', 'local', 'right'):
        def run(st):
            I = ctx.interp(st); o = openings(I, st, 'F'); return I.inherent(('adt', 'openings::PlookupOpenings', [F]), fn, [], [Ref([o], 0)])[0]
        for st, res in ctx.explore(FE1(), run):
            ctx.no_panic(st, res, fn); l = [m.dr(x).p for x in lst(res[1])]; want = {'to_vec': [y.p for x in ONM for y in st.o[x]], 'local': [st.o[x][0].p for x in ONM], 'right': [st.o[x][1].p for x in ONM]}[fn]
            ctx.concrete(sorted(map(P.key, l)) == sorted(map(P.key, want)), 'PlookupOpenings::%s holds every opening once' % fn)
            if fn != 'to_vec': ctx.concrete(l == want, 'PlookupOpenings::%s in the order of the commitments' % fn)
def openall_ob(ctx):
    def run(st):
        st.seen = {}
        def ev(I, T, a):
            k = (lst(m.dr(a[0]).f[0])[0].what, key(st.fs('F').norm(m.dr(a[1]).p)))
            if k not in st.seen: st.seen[k] = st.fe('F', 'e%d' % len(st.seen))
            return st.seen[k]
        I = ctx.interp(st, over={'Polynomial::eval': ev}); st.z, st.g = st.fe('F', 'zeta'), st.fe('F', 'g')
        return own_body(I, 'openings-open_all_polynomials', E1, [Ref([A('Polynomial', None, [VecV([Opaque(x)])], (F,))], 0) for x in ONM] + [st.z, st.g])
    for st, res in ctx.explore(FE1(), run):
        ctx.no_panic(st, res, 'open_all_polynomials'); r = m.dr(res[1])
        for x in ONM:
            for side, pt in (('local', st.z.p), ('right', P.mul(st.z.p, st.g.p))):
                k = (x, key(st.fs('F').norm(pt))); ctx.concrete(k in st.seen, '%s is evaluated at the %s point' % (x, side)); ctx.feq(st, fld(fld(r, x), side), st.seen[k], 'opening %s.%s' % (x, side))
CNM = ['c_f', 'c_t', 'c_h1', 'c_h2', 'c_z', 'c_quotient']
PP = ('adt', 'proof::PlookupProof', [CURVE])
def from_ob(ctx):
    def run(st):
        I = ctx.interp(st, **mcfg(st, {'PolynomialCommitment::to_affine': lambda I, T, a: mscale(st, mpt(fld(a[0], 'commitment')), 1, 'A'), 'PolynomialCommitment::batch_to_affine': lambda I, T, a: unit()}))
        cs = [mkstruct(I, 'PolynomialCommitment', (CURVE,), commitment=mbasis(x), randomness=st.fe('S', 'r' + x)) for x in CNM]
        st.op, st.hp = Opaque('openings'), Opaque('halo proof')
        return I.dispatch(PP, 'From', [('tuple', [('adt', 'alloc::vec::Vec', [('adt', 'poly_commit::PolynomialCommitment', [CURVE])]), OPN, ('adt', 'halo::OpeningProof', [CURVE]), ('prim', 'usize')])], 'from', [], [m.tup(VecV(cs), st.op, st.hp, 7)])
    for st, res in ctx.explore(MFI(), run):
        ctx.no_panic(st, res, 'PlookupProof::from'); r = m.dr(res[1])
        for x in CNM: mfeq(ctx, st, fld(r, x), mbasis(x), 'commitment ' + x)
        ctx.concrete(fld(r, 'openings') is st.op and fld(r, 'halo_proof') is st.hp and fld(r, 'n') == 7, 'openings, opening proof and size are kept')

# ------------------------------------------------------------------ verifier
def pproof(I, st, n, nl, nr):
    st.op = openings(I, st); pts = lambda nm, k: [mbasis('%s%d' % (nm, i), 'A') for i in range(k)]
    st.pd = {x: mbasis(x, 'A') for x in CNM}; st.hl, st.hr = pts('L', nl), pts('R', nr); st.sr = (mbasis('Rs', 'A'), st.fe('S', 'z1'), st.fe('S', 'z2'))
    sp = mkstruct(I, 'SchnorrProof', (CURVE,), r=st.sr[0], z1=st.sr[1], z2=st.sr[2]); hp = mkstruct(I, 'OpeningProof', (CURVE,), halo_l=VecV(list(st.hl)), halo_r=VecV(list(st.hr)), halo_g=mbasis('hg', 'A'), schnorr_proof=sp)
    return mkstruct(I, 'PlookupProof', (CURVE,), openings=st.op, halo_proof=hp, n=n, **st.pd)
H = lambda i: mbasis(('hash', key(m.ip(i))), 'A')
def hash_over(): return {'hash_to_curve-blake_hash_usize_to_curve': lambda I, T, a: H(a[0])}
CH = ('beta', 'gamma', 'alpha', 'zeta', 'v', 'u', 'u_scaling', 'schnorr_challenge')
def verify_ob(ctx, n, nt, nl=None, nr=None):
    good = isinstance(n, int) and n >= 1 and (n+1) & n == 0; rounds = (2*n+2).bit_length()-1 if good else 0; nl = rounds if nl is None else nl; nr = rounds if nr is None else nr
    shape_ok = good and 1 <= nt <= n+1 and nl == rounds and nr == rounds
    def run(st):
        st.fail = []; st.seen = {}; f = st.fs('S')
        def chal(I, T, a):
            st.seen['challenges'] = m.dr(a[0])
            if st.choose(2): return okr(st.ch)
            st.fail.append('challenges'); return E()
        def expn(I, T, a):
            x, e = m.dr(a[0]), m.ip(a[1]); k = ('exp', key(f.norm(x.p)), key(e))
            if k not in st.ucache: st.ucache[k] = st.fe('S', 'pow%d' % len(st.ucache))
            return st.ucache[k]
        def root(I, T, a): st.seen['log'] = a[0]; return st.gen
        def pre(I, T, a): return Opaque('fft', a[0])
        def ifft(I, T, a):
            st.seen['ifft'] = ([m.dr(x) for x in lst(a[0])], m.dr(a[1]).d); return VecV([Opaque('coef', i) for i in range(len(lst(a[0])))])
        def com(I, T, a):
            t = m.dr(a[1]); st.seen['commit'] = ([x.d for x in lst(a[0]) if isinstance(x, Opaque) and x.what == 'coef'], t.d if isinstance(t, Opaque) and t.what == 'msm table' else None, mpt(a[2]), a[3]); return mkstruct(I, 'PolynomialCommitment', (CURVE,), commitment=mbasis('table commitment'), randomness=st.fconst('S', 0))
        def eq(I, T, a):
            if not (ismpt(a[0]) and ismpt(a[1])): return NotImplemented
            st.seen['ct'] = (mpt(a[0]), mpt(a[1]))
            if st.choose(2): return True
            st.fail.append('table'); return False
        def ipas(I, T, a):
            st.seen['ipas'] = a
            if st.choose(2): return True
            st.fail.append('openings'); return False
        def li(I, T, a):
            k = ('L', a[0], a[1], key(m.dr(a[2]).p), key(m.dr(a[3]).p))
            if k not in st.ucache: st.ucache[k] = st.fe('S', 'L%d' % len(st.ucache))
            return st.ucache[k]
        over = dict(hash_over(), **{'PlookupProof::get_challenges': chal, 'Field::exp_usize': expn, 'Field::primitive_root_of_unity': root, 'fft-fft_precompute': pre, 'fft-ifft_with_precomputation_power_of_2': ifft, 'PolynomialCommitment::coeffs_to_commitment': com,
                'PolynomialCommitment::to_affine': lambda I, T, a: mscale(st, mpt(fld(a[0], 'commitment')), 1, 'A'), 'PartialEq::eq': eq, 'PartialEq::ne': lambda I, T, a: (lambda r: r if r is NotImplemented else not r)(eq(I, T, a)), 'verifier-verify_all_ipas': ipas, 'plookup-eval_l_i': li})
        I = ctx.interp(st, **mcfg(st, over)); st.gen = st.fe('S', 'g'); st.pr = pproof(I, st, n, nl, nr)
        st.cv = {x: st.fe('S', x) for x in CH}; st.us = [nz(st, st.fe('S', 'u%d' % i)) for i in range(nl)]; st.ch = mkstruct(I, 'PlookupProofChallenge', (CURVE,), halo_us=VecV(list(st.us)), **st.cv)
        st.t = [st.fe('S', 't%d' % i) for i in range(nt)]
        st.SB = int(I.const_by_path('plookup::SECURITY_BITS', []))
        st.r = own_body(I, 'verifier-verify', {'C': CURVE}, [slist(st.t), Ref([st.pr], 0)])
    kinds = set()
    for st, res in ctx.explore(MFI(), run):
        w = 'plookup verify, n = %s, %d table entries' % (n, nt); f = st.fs('S'); nr_ = f.norm
        if not shape_ok: ctx.concrete(res[0] == 'panic' or st.r.var == 'Err', w + ': rejected'); ctx.concrete(res[0] != 'panic', w + ': rejected without a panic', {'panic': str(res[1])}); continue
        if res[0] == 'panic' and (str(res[1]).endswith('on None') or 'division by zero' in str(res[1])): continue
        ctx.no_panic(st, res, w); c = {k: v.p for k, v in st.cv.items()}; z = c['zeta']
        def quot():
            g = lambda x, e: st.ucache.get(('exp', key(nr_(x)), key(P.const(e)))); L = lambda j: st.ucache.get(('L', n+1, j, key(st.gen.p), key(z)))
            need = [g(st.gen.p, n), g(z, n+1), L(0), L(n)]
            if None in need: return None
            o = {k: v[0].p for k, v in st.o.items()}; nx = {k: v[1].p for k, v in st.o.items()}
            num = four(st, 'S', c, z, need[0].p, need[2].p, need[3].p, o, nx)
            return nr_(P.sub(num, P.mul(P.sub(need[1].p, P.const(1)), o['quotient'])))
        q = quot()
        if st.r.var == 'Ok':
            kinds.add('ok'); ctx.concrete(not st.fail, w + ': accepted although a step failed', {'failed': str(st.fail)})
            ctx.concrete(all(k in st.seen for k in ('challenges', 'ifft', 'commit', 'ct', 'ipas', 'log')), w + ': every step was performed', {'performed': str(sorted(st.seen))}); ctx.concrete(q is not None, w + ': the vanishing terms are computed'); ctx.zero(st, 'S', q, w + ': quotient equation on an accepted proof')
            ctx.concrete(st.seen['challenges'] is st.pr, w + ': challenges of this proof'); ctx.concrete(st.seen['log'] == (n+1).bit_length()-1, w + ': order of the generator')
            vals, o = st.seen['ifft']; ctx.concrete(len(vals) == n+1 and o == n+1, w + ': table polynomial of degree n')
            for i, x in enumerate(vals): ctx.feq(st, x, st.t[min(i, nt-1)], w + ': table entry %d' % i)
            cf, tab, hh, bl = st.seen['commit']; ctx.concrete(cf == list(range(n+1)) and bl is False and hh.d == H(2*n+2).d and tab is not None and len(tab) == n+1 and all(p.d == H(i).d for i, p in enumerate(tab)), w + ': the table commitment is recomputed over the generators, unblinded')
            ctx.concrete(sorted(sorted(map(str, x.d)) for x in st.seen['ct']) == [['c_t'], ['table commitment']], w + ': the proof must carry that commitment')
            a = st.seen['ipas']
            for nm, good_ in (('commitments', len(lst(a[0])) == 6 and all(same_pt(x, st.pd[y]) for x, y in zip(lst(a[0]), CNM))), ('generator', m.dr(a[1]).p == st.gen.p), ('U', same_pt(a[2], H(2*n+3))), ('H', same_pt(a[3], H(2*n+2))), ('proof', m.dr(m.dr(a[4])) is st.pr), ('u', m.dr(a[5]).p == c['u']),
                              ('v', m.dr(a[6]).p == c['v']), ('u scaling', m.dr(a[7]).p == c['u_scaling']), ('zeta', m.dr(a[8]).p == z), ('challenges', [m.dr(x).p for x in lst(a[9])] == [x.p for x in st.us]), ('Schnorr challenge', m.dr(a[10]).p == c['schnorr_challenge']), ('security level', a[11] == st.SB)):
                ctx.concrete(good_, w + ': openings are verified with the right ' + nm)
        else:
            if st.fail: kinds.add(st.fail[0]); ctx.concrete(True, w); continue
            ctx.concrete(q is not None and f.status(q) == 'nonzero', w + ': rejected only when a check fails'); kinds.add('quotient')
    if shape_ok: ctx.concrete({'ok', 'table', 'challenges', 'quotient', 'openings'} <= kinds, 'every outcome is reached', {'reached': str(sorted(kinds))})

def ipas_ob(ctx, rounds):
    def run(st):
        def vi(I, T, a): st.args = a; st.ncall = getattr(st, 'ncall', 0) + 1; st.out = bool(st.choose(2)); return st.out
        I = ctx.interp(st, **mcfg(st, bits_over(st, {'halo-verify_ipa': vi}))); SEC = 128; fe = lambda x: st.fe('S', x); pr = pproof(I, st, 3, rounds, rounds)
        st.v, st.u, st.usc, st.z, st.g, st.c = fe('v'), fe('u'), fe('usc'), fe('zeta'), fe('g'), fe('c'); st.us = [nz(st, fe('u%d' % i)) for i in range(rounds)]; U, Hh = mbasis('U', 'A'), mbasis('H', 'A')
        pts = [st.pd[x] for x in CNM]
        st.r = own_body(I, 'verifier-verify_all_ipas', {'C': CURVE}, [slist(pts), st.g, U, Hh, Ref([pr], 0), st.u, st.v, st.usc, st.z, slist(st.us), st.c, SEC])
        nrm = st.fs('S').norm; up = P.const(1); sc = []
        for _ in pts: sc.append(nof(st, FE('S', nrm(up)), SEC)); up = nrm(P.mul(up, st.u.p))
        st.com = msum(st, list(zip(sc, pts))); val, vp, hb = {}, P.const(1), {}
        for i in range(2):
            for nm, b in zip(ONM, sc): val = P.add(val, P.mul(vp, P.mul(st.o[nm][i].p, b.p)))
            hb = P.add(hb, P.mul(vp, gprod(st, nrm(P.mul(st.z.p, P.pw(st.g.p, i) if i else P.const(1))), st.us))); vp = P.mul(vp, st.v.p)
        st.val, st.hb, st.Up = nrm(val), nrm(hb), mscale(st, U, nof(st, st.usc, SEC))
    for st, res in ctx.explore(MFI(), run):
        w = 'plookup verify_all_ipas, %d rounds' % rounds; ctx.no_panic(st, res, w); ctx.concrete(st.ncall == 1 and st.r == st.out, w + ': returns the verdict of verify_ipa'); a = st.args
        for l, g in ((st.hl, a[0]), (st.hr, a[1])):
            ctx.concrete(len(lst(g)) == rounds, w + ': number of L and R')
            for x, y in zip(lst(g), l): mfeq(ctx, st, x, y, w + ': L and R')
        mfeq(ctx, st, a[2], mbasis('hg'), w + ': halo_g'); mfeq(ctx, st, a[3], st.com, w + ': reduced commitment')
        ctx.zero(st, 'S', P.sub(m.dr(a[4]).p, st.val), w + ': reduced opening'); ctx.zero(st, 'S', P.sub(m.dr(a[5]).p, st.hb), w + ': evaluation of the folded b vector')
        ctx.concrete([m.dr(x).p for x in lst(a[6])] == [x.p for x in st.us], w + ': challenges'); mfeq(ctx, st, a[7], st.Up, w + ": U'"); mfeq(ctx, st, a[8], mbasis('H'), w + ': H'); ctx.feq(st, m.dr(a[9]), st.c, w + ': Schnorr challenge')
        for i, nm in enumerate(('r', 'z1', 'z2')):
            if i: ctx.feq(st, fld(a[10], nm), st.sr[i], w + ': ' + nm)
            else: mfeq(ctx, st, fld(a[10], nm), st.sr[0], w + ': Schnorr point')

# ------------------------------------------------------------------ transcripts
def conv_over(st):
    def conv(I, T, a):
        x = m.dr(a[0])
        if st.choose(2): return okr(conv_(st, x))
        st.bad.append('conversion'); return E()
    return conv
def chal_ob(ctx, rounds):
    def run(st):
        st.bad = []
        def sq(I, T, a):
            x = m.dr(a[0])
            if st.choose(2): return some(st.ucache.setdefault(('root', key(x.p)), st.fe('S', 'root%d' % len(st.ucache))))
            st.bad.append('root'); return none()
        o = bits_over(st, {'Field::square_root': sq}); o.update(chal_over(st)); o['Field::try_convert'] = conv_over(st); st.log = Opaque('challenger', [])
        def new(I, T, a): st.sec = m.ip(a[0]); st.nnew = getattr(st, 'nnew', 0) + 1; return st.log
        o['Challenger::new'] = new; I = ctx.interp(st, **mcfg(st, o)); pr = pproof(I, st, 1, rounds, rounds); st.SB = int(I.const_by_path('plookup::SECURITY_BITS', []))
        st.r = m.dr(I.inherent(PP, 'get_challenges', [], [Ref([pr], 0)])[0])
    n = 0
    for st, res in ctx.explore(MFI(), run):
        w = 'plookup get_challenges, %d rounds' % rounds
        if res[0] == 'panic' and st.bad: ctx.concrete(True, w); continue
        ctx.no_panic(st, res, w)
        if st.r.var == 'Err': ctx.concrete(bool(st.bad), w + ': fails only when a conversion or a root fails'); continue
        n += 1; ctx.concrete(not st.bad, w + ': success although a conversion or root failed'); ctx.concrete(st.nnew == 1 and P.isconst(st.sec) and P.cval(st.sec) == st.SB, w + ': one challenger at the security level')
        seq = transcript(st); 
        for i in range(rounds): seq += [('pt', st.hl[i]), ('pt', st.hr[i]), ('get', i)]
        seq += [('pt', st.sr[0]), ('get', 'schnorr_challenge')]
        ctx.concrete([t for t, _ in st.log.d] == [t for t, _ in seq], w + ': order of messages and challenges', {'transcript': ' '.join(t for t, _ in st.log.d)})
        us = [m.dr(x) for x in lst(fld(st.r.f[0], 'halo_us'))]; ctx.concrete(len(us) == rounds, w + ': one challenge per round')
        for (t, x), (_, y) in zip(st.log.d, seq):
            if t == 'pt': mfeq(ctx, st, x, y, w + ': observed point')
            elif t == 'el': ctx.feq(st, x, y, w + ': observed element')
            elif isinstance(y, str): ctx.feq(st, fld(st.r.f[0], y), conv_(st, x), w + ': ' + y)
            else: ctx.feq(st, us[y], st.ucache[('root', key(nof(st, conv_(st, x), st.SB).p))], w + ': round challenge %d' % y)
    ctx.concrete(n == 1, 'success is reached')
def transcript(st):
    pt = lambda *l: [('pt', st.pd[x]) for x in l]
    return pt('c_f', 'c_t', 'c_h1', 'c_h2') + [('get', 'beta'), ('get', 'gamma')] + pt('c_z') + [('get', 'alpha')] + pt('c_quotient') + [('get', 'zeta')] + [('el', conv_(st, y)) for x in ONM for y in st.o[x]] + [('get', 'v'), ('get', 'u'), ('get', 'u_scaling')]

def prove_ob(ctx, nf, nt, final):
    """the prover with its helpers replaced by contracts: what it commits to, sends and hands to the opening proof"""
    def run(st):
        st.bad = []; st.log = Opaque('challenger', []); st.polys = {}; st.pd = {}; st.got = {}
        o = chal_over(st); o['Challenger::new'] = lambda I, T, a: st.log
        def conv(I, T, a): return okr(conv_(st, m.dr(a[0])))
        def mkpoly(nm, n): return A('Polynomial', None, [VecV([Opaque('coef', (nm, i)) for i in range(n)])], (SF,))
        def nmof(v):
            l = [x for x in lst(m.dr(v).f[0]) if isinstance(x, Opaque)]; return l[0].d[0] if l else None
        def fromev(I, T, a):
            vals = [m.dr(x) for x in lst(a[0])]; nm = 'poly%d' % len(st.polys); st.polys[nm] = (vals, m.dr(a[1]).d); return mkpoly(nm, len(vals))
        def commit(I, T, a):
            nm = nmof(a[0]); tab = m.dr(a[1]).d; C = mbasis(('com', nm)); st.got[('com', nm)] = (len(lst(m.dr(a[0]).f[0])), tab, mpt(a[2]), a[3]); return mkstruct(I, 'PolynomialCommitment', (CURVE,), commitment=C, randomness=st.fe('S', 'rho' + nm))
        def grand(I, T, a): st.got['grand'] = a; st.zv = [st.fe('S', 'zv%d' % i) for i in range(len(lst(a[0])) + 1)]; return VecV(list(st.zv))
        def van(I, T, a): st.got['vanish'] = [nmof(x) for x in a[:5]] + list(a[5:]); return mkpoly('vanishing', 4)
        def div(I, T, a): st.got['divide'] = (nmof(a[0]), a[1]); return mkpoly('quotient', 3)
        def opa(I, T, a): st.got['open'] = [nmof(x) for x in a[:6]] + list(a[6:]); return openings(I, st)
        def bop(I, T, a): st.got['opening'] = a; st.hp = Opaque('halo proof'); return okr(st.hp)
        o.update(hash_over()); o.update({'Field::try_convert': conv, 'fft-fft_precompute': lambda I, T, a: Opaque('fft', a[0]), 'Polynomial::from_evaluations': fromev, 'Polynomial::commit': commit, 'plookup-grand_polynomial': grand, 'plookup-vanishing_polynomial': van, 'Polynomial::divide_by_z_h': div,
              'Polynomial::trim': lambda I, T, a: unit(), 'openings-open_all_polynomials': opa, 'halo-batch_opening_proof': bop, 'PolynomialCommitment::to_affine': lambda I, T, a: mscale(st, mpt(fld(a[0], 'commitment')), 1, 'A'), 'PolynomialCommitment::batch_to_affine': lambda I, T, a: unit(), 'Field::primitive_root_of_unity': lambda I, T, a: st.got.__setitem__('log', a[0]) or st.gen})
        def eq(I, T, a): return NotImplemented
        I = ctx.interp(st, **mcfg(st, o)); st.gen = st.fe('S', 'g'); st.t = [st.fe('S', 't%d' % i) for i in range(nt)]
        for i, x in enumerate(st.t):
            for y in st.t[:i]: st.fs('S').assume_nonzero(P.sub(x.p, y.p))
        st.f = [st.t[i % nt] for i in range(nf)]; st.SB = int(I.const_by_path('plookup::SECURITY_BITS', []))
        st.r = own_body(I, 'plookup-prove', {'C': CURVE}, [slist(st.f), slist(st.t)])
    for st, res in ctx.explore(MFI(), run):
        w = 'plookup prove, %d lookups in %d entries' % (nf, nt); ctx.no_panic(st, res, w); ctx.concrete(st.r.var == 'Ok', w + ': a proof is returned'); pr = m.dr(st.r.f[0]); G = st.got
        n = fld(pr, 'n'); want = max(nf+1, nt, 2); N = 1
        while N < want: N *= 2
        ctx.concrete(n == N-1, w + ': size', {'n': str(n)})
        f = st.f + [st.t[-1]]*(n-nf); t = st.t + [st.t[-1]]*(N-nt); key_ = lambda l: [key(m.dr(x).p) for x in l]
        s = []; rest = sorted(range(n), key=lambda i: [j for j, y in enumerate(t) if y.p == f[i].p][0]); rest = [f[i] for i in rest]
        for x in t:
            s.append(x)
            while rest and rest[0].p == x.p: s.append(rest.pop(0))
        byvals = {}
        for nm, (vals, o) in st.polys.items(): ctx.concrete(o == N, w + ': interpolation domain'); byvals.setdefault(tuple(key_(vals)), nm)
        wantv = dict(f=f, t=t, h1=s[:n+1], h2=s[n:], z=st.zv)
        names = {}
        for nm, v in wantv.items():
            kv = key_(v); c = [x for x in st.polys if key_(st.polys[x][0])[:len(kv)] == kv and len(st.polys[x][0]) == (n+1)] if nm == 'f' else [x for x in st.polys if key_(st.polys[x][0]) == kv]
            c = [x for x in c if x not in names.values()] or c
            ctx.concrete(bool(c), w + ': the polynomial %s interpolates its values' % nm); names[nm] = c[0]
        names['quotient'] = 'quotient'
        for x in ONM:
            k = G.get(('com', names[x])); ctx.concrete(k is not None, w + ': %s is committed' % x); ln, tab, hh, bl = k
            sz = 2*n+2 if x == 'quotient' else N
            ctx.concrete(ln <= len(tab) == sz and all(p.d == H(i).d for i, p in enumerate(tab)) and hh.d == H(2*n+2).d and bl is (x != 't'), w + ': commitment of %s' % x)
            st.pd['c_' + x] = mbasis(('com', names[x]))
            mfeq(ctx, st, fld(pr, 'c_' + x), st.pd['c_' + x], w + ': proof carries the commitment of %s' % x)
        ctx.concrete(fld(pr, 'halo_proof') is st.hp, w + ': proof carries the opening proof')
        seq = transcript(st); ctx.concrete([x for x, _ in st.log.d] == [x for x, _ in seq], w + ': order of messages and challenges', {'transcript': ' '.join(x for x, _ in st.log.d)}); c = {}
        for (k, x), (_, y) in zip(st.log.d, seq):
            if k == 'pt': mfeq(ctx, st, x, y, w + ': observed point')
            elif k == 'el': ctx.feq(st, x, y, w + ': observed element')
            else: c[y] = conv_(st, x)
        a = G['grand']; ctx.concrete(key_(lst(a[0])) == key_(f) and key_(lst(a[1])) == key_(t) and key_(lst(a[2])) == key_(s), w + ': grand product of the padded lists'); ctx.feq(st, m.dr(a[3]), c['beta'], w + ': beta'); ctx.feq(st, m.dr(a[4]), c['gamma'], w + ': gamma')
        a = G['vanish']; ctx.concrete(a[:5] == [names[x] for x in NM] and a[8] == n, w + ': vanishing polynomial of f, t, h1, h2, z')
        for x, y in zip(a[5:8], ('beta', 'gamma', 'alpha')): ctx.feq(st, m.dr(x), c[y], w + ': ' + y + ' of the vanishing polynomial')
        ctx.concrete(G['divide'] == ('vanishing', N), w + ': quotient by x^(n+1) - 1'); ctx.concrete(G['log'] == N.bit_length()-1, w + ': order of the generator')
        a = G['open']; ctx.concrete(a[:6] == [names[x] for x in ONM], w + ': openings of all polynomials'); ctx.feq(st, m.dr(a[6]), c['zeta'], w + ': opened at zeta'); ctx.feq(st, m.dr(a[7]), st.gen, w + ': and the next point')
        for x in ONM:
            for i, sd in enumerate(('local', 'right')): ctx.feq(st, fld(fld(fld(pr, 'openings'), x), sd), st.o[x][i], w + ': opening %s.%s' % (x, sd))
        a = G['opening']; M = 2*n+2
        cf = [lst(x) for x in lst(a[0])]; good = len(cf) == 6
        for x, l in zip(ONM, cf):
            k = len([1 for y in l if isinstance(y, Opaque)]); good = good and len(l) == M and k >= 1 and all(isinstance(y, Opaque) and y.d == (names[x], i) for i, y in enumerate(l[:k])) and all(isinstance(m.dr(y), FE) and not m.dr(y).p for y in l[k:])
        ctx.concrete(good, w + ': coefficients handed to the opening proof')
        ctx.concrete([tuple(mpt(fld(x, 'commitment')).d) for x in lst(a[1])] == [tuple(st.pd['c_' + x].d) for x in ONM], w + ': commitments handed to the opening proof')
        pts = lst(a[2]); ctx.concrete(len(pts) == 2, w + ': two opening points'); ctx.feq(st, m.dr(pts[0]), c['zeta'], w + ': first point'); ctx.zero(st, 'S', P.sub(m.dr(pts[1]).p, P.mul(c['zeta'].p, st.gen.p)), w + ': second point')
        ctx.concrete(len(lst(a[3])) == M and all(mpt(p).d == H(i).d for i, p in enumerate(lst(a[3]))) and mpt(a[4]).d == H(M).d and mpt(a[5]).d == H(M+1).d and a[9] == M and a[10] == st.SB, w + ': generators, degree and security level of the opening proof')
        for i, x in ((6, 'u'), (7, 'v'), (8, 'u_scaling')): ctx.feq(st, m.dr(a[i]), c[x], w + ': ' + x)
        ctx.concrete(m.dr(a[11]) is st.log, w + ': the opening proof continues the transcript')

# ------------------------------------------------------------------ tables
def table(rows): return A('Table', None, [VecV([Arr(list(r)) for r in rows])], (F,))
def table_ob(ctx, N, rows, ws, fn):
    T_ = ('adt', 'table::Table', [F, ('const', ('int', N, ('prim', 'usize')))])
    def run(st):
        st.log = Opaque('challenger', []); o = chal_over(st); o['Challenger::new'] = lambda I, T, a: st.log
        def pv(I, T, a): st.args = (lst(a[0]), lst(a[1])); return okr(Opaque('proof'))
        def vf(I, T, a): st.args = (lst(a[0]),); st.same = m.dr(a[1]) is st.pf; return okr(unit())
        o.update({'plookup-prove': pv, 'verifier-verify': vf}); I = ctx.interp(st, over=o, assoc={('C', 'BaseField'): ('absfield', 'B'), ('C', 'ScalarField'): F}); st.t = [coefs(st, 't%d.' % i, N) for i in range(rows)]; st.w = [coefs(st, 'w%d.' % i, N) for i in range(ws)]; st.pf = Opaque('proof')
        t = Ref([table(st.t)], 0); args = [t]; margs = [CURVE] if fn in ('prove_row', 'prove_column', 'verify') else []
        if fn in ('to_vecs_with_row_witnesses', 'prove_row'): args.append(Ref([table(st.w)], 0))
        if fn in ('to_vecs_with_column_witnesses', 'prove_column'): args.append(Ref([Arr([VecV([st.w[i][j] for i in range(ws)]) for j in range(N)])], 0))
        if fn == 'verify': args.append(Ref([st.pf], 0))
        return I.inherent(T_, fn, margs, args)[0]
    for st, res in ctx.explore({'F': FieldInfo('F'), 'B': FieldInfo('B')}, run):
        w = 'Table::%s, %d columns, %d rows, %d lookups' % (fn, N, rows, ws); ctx.no_panic(st, res, w)
        r = res[1]
        obs = [x for k, x in st.log.d if k == 'el']; gets = [x for k, x in st.log.d if k == 'get']; ctx.concrete([k for k, _ in st.log.d] == ['el']*(N*rows) + ['get'], w + ': one challenge after every entry of the table')
        for x, y in zip(obs, [y for row in st.t for y in row]): ctx.feq(st, x, y, w + ': observed entry')
        al = FE('F', gets[0].p)
        red = lambda row: st.fs('F').norm(__import__('functools').reduce(lambda acc, x: P.add(P.mul(acc, al.p), x.p), row, {}))
        tv, wv = [red(x) for x in st.t], [red(x) for x in st.w]
        if fn == 'to_vec': got, want = [lst(r)], [tv]
        elif fn.startswith('to_vecs'): got, want = [lst(x) for x in (r.f if hasattr(r, 'f') else r)], [tv, wv]
        elif fn == 'verify': got, want = list(st.args), [tv]; ctx.concrete(st.same, w + ': the proof is passed on')
        else: got, want = list(st.args), [wv, tv]
        ctx.concrete(len(got) == len(want), w)
        for g, x in zip(got, want):
            ctx.concrete(len(g) == len(x), w + ': number of values')
            for a, b in zip(g, x): ctx.zero(st, 'F', P.sub(m.dr(a).p, b), w + ': the row reduced with the challenge')
def from_ob2(ctx, N, k, cart):
    M = N-1; T_ = ('adt', 'table::Table', [F, ('const', ('int', N, ('prim', 'usize')))])
    def run(st):
        st.dom = coefs(st, 'd', k) if cart else [coefs(st, 'd%d.' % i, M) for i in range(k)]; st.img = {}
        def f(x):
            l = [m.dr(y) for y in lst(x)]; kk = tuple(key(x.p) for x in l)
            if kk not in st.img: st.img[kk] = st.fe('F', 'f%d' % len(st.img))
            return st.img[kk]
        I = ctx.interp(st); fo = Ref([f], 0)
        d = sl(list(st.dom)) if cart else sl([Arr(list(x)) for x in st.dom])
        return I.inherent(T_, 'from_function_cartesian' if cart else 'from_function', [('const', ('int', M, ('prim', 'usize')))], [fo, d])[0]
    import itertools
    for st, res in ctx.explore(FE1(), run):
        w = 'table from a function of %d variables on %d points%s' % (M, k, ', cartesian' if cart else ''); ctx.no_panic(st, res, w); rows = [lst(x) for x in lst(m.dr(res[1]).f[0])]
        want = [list(x) for x in itertools.product(st.dom, repeat=M)] if cart else st.dom
        ctx.concrete(len(rows) == len(want), w + ': one row per point'); 
        got = [tuple(key(m.dr(x).p) for x in r) for r in rows]; exp = []
        for x in want:
            kk = tuple(key(y.p) for y in x); ctx.concrete(kk in st.img, w + ': the function is applied to every point'); exp.append(kk + (key(st.img[kk].p),))
        ctx.concrete(got == exp if not cart else sorted(got) == sorted(exp), w + ': rows are points with their images')

def obligations(crates, tier):
    obs = [Ob('padded, lengths up to 8', padz_ob, bounded='lengths up to 8')]
    for nf in range(10):
        obs.append(Ob('pad_inputs, %d lookups' % nf, lambda ctx, nf=nf: [pad_ob(ctx, nf, nt) for nt in (1, 2, 3, 4, 5, 7, 8, 9, 16)], bounded='up to 9 lookups and 16 table entries'))
    for nt, nf in ((1, 1), (2, 1), (2, 3), (3, 2), (4, 2)) + (((4, 3),) if tier == 'quick' else ((4, 4), (5, 3))): obs.append(Ob('sorting, %d entries, %d lookups' % (nt, nf), lambda ctx, a=nt, b=nf: sorting_ob(ctx, a, b), bounded='every pattern of up to 5 entries and 4 lookups', timeout=300))
    for n in (1, 2, 3, 4) + ((5,) if tier != 'quick' else ()): obs.append(Ob('grand product, n = %d' % n, lambda ctx, n=n: grand_ob(ctx, n), bounded='n up to 5', timeout=300))
    for nt in range(1, 6 if tier == 'quick' else 8):
        for nf in range(0, 4): obs.append(Ob('grand product closes, %d entries, %d lookups' % (nt, nf), lambda ctx, a=nt, b=nf: closes_ob(ctx, a, b), bounded='every pattern of up to %d entries and 3 lookups' % (5 if tier == 'quick' else 7), timeout=300))
    for n in (1, 3, 7) + ((15,) if tier != 'quick' else ()): obs.append(Ob('vanishing polynomial, n = %d' % n, lambda ctx, n=n: vanish_ob(ctx, n), bounded='n up to 15', timeout=300))
    obs += [Ob('lists of openings', lists_ob), Ob('open_all_polynomials', openall_ob), Ob('PlookupProof::from', from_ob)]
    for n in (1, 3, 7, 31):
        for nt in sorted({1, 2, n, n+1}): obs.append(Ob('verify, n = %d, %d entries' % (n, nt), lambda ctx, n=n, nt=nt: verify_ob(ctx, n, nt), bounded='n up to 31'))
    for n, nt, nl, nr in ((0, 1, 1, 1), (2, 2, 2, 2), (4, 2, 3, 3), (6, 2, 3, 3), (2**64-1, 1, 0, 0), (3, 0, 3, 3), (3, 5, 3, 3), (3, 4, 2, 3), (3, 4, 3, 2), (3, 4, 4, 3), (3, 4, 3, 4), (3, 4, 4, 4), (3, 4, 2, 2), (3, 4, 0, 0), (1, 3, 2, 2)):
        obs.append(Ob('verify rejects n = %d, %d entries, %d and %d rounds' % (n, nt, nl, nr), lambda ctx, a=(n, nt, nl, nr): verify_ob(ctx, *a), bounded='the stated shapes'))
    for r in range(5): obs.append(Ob('verify_all_ipas, %d rounds' % r, lambda ctx, r=r: ipas_ob(ctx, r), bounded='up to 4 rounds'))
    for r in (0, 1, 2, 4): obs.append(Ob('get_challenges, %d rounds' % r, lambda ctx, r=r: chal_ob(ctx, r), bounded='up to 4 rounds', timeout=300))
    for nf, nt in ((0, 1), (1, 1), (1, 2), (2, 3), (3, 4), (5, 4)): obs.append(Ob('prove, %d lookups, %d entries' % (nf, nt), lambda ctx, a=nf, b=nt: prove_ob(ctx, a, b, True), bounded='up to 5 lookups', timeout=300))
    for fn in ('to_vec', 'to_vecs_with_row_witnesses', 'to_vecs_with_column_witnesses', 'prove_row', 'prove_column', 'verify'):
        for N, r, k in ((1, 2, 1), (2, 3, 2), (3, 1, 4)): obs.append(Ob('Table::%s, %d columns' % (fn, N), lambda ctx, a=(N, r, k, fn): table_ob(ctx, *a), bounded='up to 3 columns and 4 rows'))
    for N, k in ((2, 3), (3, 2)):
        for cart in (False, True): obs.append(Ob('Table from a function, %d columns%s' % (N, ', cartesian' if cart else ''), lambda ctx, a=(N, k, cart): from_ob2(ctx, *a), bounded='up to 3 columns'))
    return obs
