from contracts.C26 import *
from contracts import C26
LEVEL = 'other'
NOTE = ('verify_proof is proved for every degree, proof, challenge and outcome of its steps, for up to 30 public inputs; shape and transcript checks are run on proofs of the real shape with up to 4 rounds and 3 old proofs')
FUNCTIONS = ['verifier::{verify_proof, check_proof_parameters, verify_old_proof_evaluation, verify_all_ipas}', 'Proof::{get_challenges, all_opening_sets}', 'OpeningSet::to_vec', 'plonk_util::reduce_with_powers', 'util::ceil_div_usize']
EXPLAIN = ('verify_proof is interpreted on an indeterminate proof of the real shape with a symbolic degree; each sub-step is replaced by its contract with both outcomes explored and its arguments recorded. On every accepting path all steps succeeded on the arguments they are specified for, '
           'the quotient equation and the public-input quotient equation are zero polynomials on that path, and the returned value carries the G point and challenges of the proof; on every rejecting path a step failed or one of the two equations is nonzero. '
           'check_proof_parameters runs with an arbitrary verdict for every point and element, get_challenges with a recording challenger, and every challenge is the conversion of the transcript challenge drawn after all earlier messages.')
ASSUMPTIONS = ['evaluate_all_constraints is the combined constraint evaluation (C17, C18)', 'public_inputs_to_polynomial interpolates the public inputs at their wires (C22)', 'is_valid and is_valid_canonical_u64 decide validity (C07, C03)', 'the challenger meets its contract (C15)', 'verify_ipa decides the protocol equation (C26)', 'halo_s and halo_g agree (C35)', 'exp_usize and from_canonical_usize meet their contracts (C05, C03)']
TRUSTED = []
E = lambda *a: A('Result', 'Err', [Opaque('error')])
def okr(x): return A('Result', 'Ok', [x])
def fld(o, nm):
    o = m.dr(o)
    if nm not in (o.names or ()): raise Unsupported('lost anchor: field ' + nm)
    return m.dr(o.f[o.names.index(nm)])
def same_pt(a, b):
    a, b = mpt(a), mpt(b); return a.d == b.d
def kc(I, n): return int(I.const_by_path('plonk::' + n, []))
def shape(I, nold): return dict(k=kc(I, 'NUM_CONSTANTS'), s=kc(I, 'NUM_ROUTED_WIRES'), w=kc(I, 'NUM_WIRES'), t=kc(I, 'QUOTIENT_POLYNOMIAL_DEGREE_MULTIPLIER'), o=nold)
def key(p): return tuple(sorted(p.items()))

def verify_ob(ctx, npi, nold, vg, match=True):
    def run(st):
        st.fail = []; st.seen = {}; f = st.fs('S')
        def step(nm, good=lambda: unit(), bad=None):
            def h(I, T, a):
                if nm in st.seen: raise Refuted(nm + ' is called twice')
                st.seen[nm] = a
                if st.choose(2): return okr(good())
                st.fail.append(nm); return E()
            return h
        def expn(I, T, a):
            x, n = m.dr(a[0]), m.ip(a[1]); k = ('exp', x.fid, key(f.norm(x.p)), key(n))
            if k not in st.ucache: st.ucache[k] = st.fe(x.fid, 'pow%d' % len(st.ucache))
            return st.ucache[k]
        def lg(I, T, a): st.seen.setdefault('log', []).append(key(m.ip(a[0]))); return st.logd
        def root(I, T, a):
            if m.dr(a[0]) is not st.logd and key(m.ip(a[0])) != key(m.ip(st.logd)): raise Refuted('the subgroup generator has another order')
            return st.gen
        def cons(I, T, a): st.seen['constraints'] = a; return VecV(list(st.terms))
        def pip(I, T, a): st.seen['pi'] = a; return Opaque('pi polynomial')
        def ev(I, T, a):
            if not (isinstance(m.dr(a[0]), Opaque) and m.dr(a[0]).what == 'pi polynomial'): return NotImplemented
            st.seen['pi at'] = a[1]; return st.pie
        def ipas(I, T, a):
            st.seen['ipas'] = a
            if st.choose(2): return True
            st.fail.append('openings'); return False
        def eq(I, T, a):
            if not (ismpt(a[0]) and ismpt(a[1])): return NotImplemented
            st.seen['g'] = (mpt(a[0]), mpt(a[1]))
            if st.choose(2): return True
            st.fail.append('G'); return False
        def hs(I, T, a): st.seen['halo_s'] = lst(a[0]); return VecV([Opaque('halo_s')])
        def ph(I, T, a):
            t = m.dr(a[1]); st.seen['table'] = [mpt(x) for x in t.d] if isinstance(t, Opaque) and t.what == 'msm table' else None
            c = lst(a[0]); st.seen['hashed'] = len(c) == 1 and isinstance(c[0], Opaque) and c[0].what == 'halo_s'
            return mbasis('pedersen')
        over = {'verifier-check_proof_parameters': step('parameters'), 'verifier-verify_old_proof_evaluation': step('old proofs'), 'Proof::get_challenges': step('challenges', lambda: st.ch), 'Field::exp_usize': expn, 'util-log2_strict': lg, 'Field::primitive_root_of_unity': root,
                'gates-evaluate_all_constraints': cons, 'verifier-public_inputs_to_polynomial': pip, 'Polynomial::eval': ev, 'verifier-verify_all_ipas': ipas, 'plonk_util-halo_s': hs, 'plonk_util-pedersen_hash': ph,
                'PartialEq::eq': eq, 'PartialEq::ne': lambda I, T, a: (lambda r: r if r is NotImplemented else not r)(eq(I, T, a))}
        over['hash_to_curve-blake_hash_usize_to_curve'] = lambda I, T, a: mbasis(('hash', key(m.ip(a[0]))), 'A')
        over['plonk_util-get_subgroup_shift'] = over['partition-get_subgroup_shift'] = lambda I, T, a: st.ucache.setdefault(('shift', int(a[0])), st.fe('S', 'k%d' % int(a[0])))
        st.eqs = []
        cfg = mcfg(st, over); cfg['assoc'].update({('D', 'BaseField'): SF, ('D', 'ScalarField'): ('absfield', 'T')})
        I = ctx.interp(st, **cfg); st.I = I; fe = lambda n: st.fe('S', n)
        st.deg = 4 if vg else st.int_atom('degree', 1, 2**40); st.off = st.int_atom('gates', 0, 2**40); st.logd = st.int_atom('log degree', 0, 40); st.gen = fe('g'); st.pie = fe('pi(zeta)'); st.terms = [fe('con%d' % i) for i in range(3)]
        pr, st.pd = sproof(I, st, shape(I, nold), 2); st.pr = [pr]; st.olds = [oldp(I, st, j, 1) for j in range(nold)]
        st.cv = {n: fe(n) for n in ('beta', 'gamma', 'alpha', 'zeta', 'v', 'u', 'u_scaling', 'schnorr_challenge')}; st.us = [nz(st, fe('u%d' % i)) for i in range(2)]
        st.ch = mkstruct(I, 'ProofChallenge', (CURVE,), halo_us=VecV(list(st.us)), **st.cv)
        st.pis = [fe('pi%d' % i) for i in range(npi)]; st.n = npi if match else st.int_atom('declared', 0, 2**20)
        st.vkp = dict(c_constants=[mbasis('ck%d' % i, 'A') for i in range(2)], c_s_sigmas=[mbasis('cs%d' % i, 'A') for i in range(2)]); st.sec = st.int_atom('security', 0, 255); st.fft = [Opaque('fft table')]
        vk = mkstruct(I, 'VerificationKey', (CURVE,), degree=st.deg, num_public_inputs=st.n, num_gates_without_pis=st.off, security_bits=st.sec, pedersen_g_msm_precomputation=none(), fft_precomputation=some(st.fft[0]), **{k: VecV(list(v)) for k, v in st.vkp.items()})
        if not match: st.matched = st.decide(m.ieq(st, st.n, npi))
        else: st.matched = True
        if not st.matched: st.fail.append('count')
        st.r = own_body(I, 'verifier-verify_proof', {'C': CURVE, 'InnerC': ('abscurve', 'D')}, [slist(st.pis), Ref(st.pr, 0), slist(st.olds), Ref([vk], 0), vg])
    kinds = set()
    for st, res in ctx.explore(dict(MFI(), T=FieldInfo('T')), run):
        w = 'verify_proof, %d public inputs%s' % (npi, ', G verified' if vg else ''); f = st.fs('S'); I = st.I if hasattr(st, 'I') else None
        if res[0] == 'panic':
            if str(res[1]).endswith('on None') or 'division by zero' in str(res[1]): continue   # zeta in the evaluation domain: no success is returned
            ctx.no_panic(st, res, w)
        # the two equations, from the statement
        c = {k: v.p for k, v in st.cv.items()}; nrm = f.norm; loc, rgt, bel = (x[2] for x in st.open); z = c['zeta']
        ek = ('exp', 'S', key(nrm(z)), key(m.ip(st.deg)))
        okp = st.r.var == 'Ok'; ran = lambda n: n in st.seen
        def tpoly():
            if ek not in st.ucache: return None
            zd = st.ucache[ek].p; zh = P.sub(zd, P.const(1)); degf = m.lift(I, 'S', st.deg)
            l1 = P.mul(zh, f.inverse(nrm(P.mul(degf, P.sub(z, P.const(1))))))
            fp = gp = P.const(1)
            for i in range(len(loc['o_plonk_sigmas'])):
                wi = loc['o_wires'][i].p; ki = P.const(0) if False else st.ucache.setdefault(('shift', i), st.fe('S', 'k%d' % i)).p
                fp = nrm(P.mul(fp, P.add(P.add(wi, P.mul(c['beta'], P.mul(ki, z))), c['gamma']))); gp = nrm(P.mul(gp, P.add(P.add(wi, P.mul(c['beta'], loc['o_plonk_sigmas'][i].p)), c['gamma'])))
            terms = [P.mul(l1, P.sub(loc['o_plonk_z'].p, P.const(1))), P.sub(P.mul(fp, loc['o_plonk_z'].p), P.mul(gp, rgt['o_plonk_z'].p))] + [t.p for t in st.terms]
            lhs, ap = {}, P.const(1)
            for t in terms: lhs = P.add(lhs, P.mul(ap, t)); ap = P.mul(ap, c['alpha'])
            rhs, zp = {}, P.const(1)
            for t in loc['o_plonk_t']: rhs = P.add(rhs, P.mul(zp, t.p)); zp = P.mul(zp, zd)
            return nrm(P.sub(lhs, P.mul(rhs, zh)))
        def pipoly():
            den = P.const(1); nw = len(loc['o_wires'])
            for i in range(-(-npi // nw)):
                k = ('exp', 'S', key(nrm(st.gen.p)), key(P.add(m.ip(st.off), P.const(2*i))))
                if k not in st.ucache: return None
                den = nrm(P.mul(den, P.sub(z, st.ucache[k].p)))
            num, ap = P.neg(st.pie.p), P.const(1)
            for x in loc['o_wires']: num = P.add(num, P.mul(ap, x.p)); ap = P.mul(ap, c['alpha'])
            return nrm(P.sub(num, P.mul(den, loc['o_pi_quotient'].p)))
        if okp:
            kinds.add('ok'); ctx.concrete(st.matched, w + ': the number of public inputs matches')
            ctx.concrete(not st.fail, w + ': accepted although a step failed', {'failed': str(st.fail)})
            need = ['parameters', 'challenges', 'old proofs', 'constraints', 'pi', 'pi at', 'ipas'] + (['g', 'halo_s', 'table'] if vg else [])
            ctx.concrete(all(ran(n) for n in need), w + ': every step was performed', {'missing': str([n for n in need if not ran(n)])})
            t = tpoly(); ctx.concrete(t is not None, w + ': zeta^degree is computed'); ctx.zero(st, 'S', t, w + ': quotient equation on an accepted proof')
            q = pipoly(); ctx.concrete(q is not None, w + ': the public-input rows enter the denominator'); ctx.zero(st, 'S', q, w + ': public-input quotient equation on an accepted proof')
            # arguments of the steps
            S_ = st.seen; pr = st.pr[0]
            ctx.concrete(m.dr(S_['parameters'][0]) is pr and key(m.ip(S_['parameters'][1])) == key(m.ip(st.deg)), w + ': parameters of this proof and degree')
            a = S_['challenges']; ctx.concrete(m.dr(a[0]) is pr and [x.p for x in map(m.dr, lst(a[1]))] == [x.p for x in st.pis] and len(lst(a[2])) == nold and all(m.dr(x) is y for x, y in zip(lst(a[2]), st.olds)), w + ': challenges of this proof, its public inputs and old proofs')
            a = S_['old proofs']; ctx.concrete(len(lst(a[0])) == nold and all(m.dr(x) is y for x, y in zip(lst(a[0]), st.olds)) and m.dr(m.dr(a[1])) is pr and m.dr(a[2]).p == z, w + ': old proofs are checked at zeta')
            a = S_['constraints']; want = [loc['o_constants'], loc['o_wires'], rgt['o_wires'], bel['o_wires']]
            ctx.concrete(all([m.dr(x).p for x in lst(a[i])] == [x.p for x in want[i]] for i in range(4)), w + ': constraints are evaluated on the openings')
            a = S_['pi']; ft = m.dr(a[4]); ctx.concrete([m.dr(x).p for x in lst(a[0])] == [x.p for x in st.pis] and m.dr(a[1]).p == c['alpha'] and key(m.ip(a[2])) == key(m.ip(st.deg)) and key(m.ip(a[3])) == key(m.ip(st.off)) and m.dr(S_['pi at']).p == z and (ft.var == 'None' or m.dr(ft.f[0]) is st.fft[0]), w + ': public-input polynomial of these inputs at zeta')
            a = S_['ipas']; pts = lambda v, l: len(lst(v)) == len(l) and all(same_pt(x, y) for x, y in zip(lst(v), l))
            H = lambda d: mbasis(('hash', key(P.add(m.ip(st.deg), P.const(d)))), 'A')
            for nm, good in (('c_constants', pts(a[0], st.vkp['c_constants'])), ('c_s_sigmas', pts(a[1], st.vkp['c_s_sigmas'])), ('subgroup generator', m.dr(a[2]).p == st.gen.p), ('U', same_pt(a[3], H(1))), ('H', same_pt(a[4], H(0))), ('proof', m.dr(m.dr(a[5])) is pr),
                             ('old proofs', len(lst(a[6])) == nold and all(m.dr(x) is y for x, y in zip(lst(a[6]), st.olds))), ('u', m.dr(a[7]).p == c['u']), ('v', m.dr(a[8]).p == c['v']), ('u scaling', m.dr(a[9]).p == c['u_scaling']), ('zeta', m.dr(a[10]).p == z),
                             ('challenges', [m.dr(x).p for x in lst(a[11])] == [x.p for x in st.us]), ('Schnorr challenge', m.dr(a[12]).p == c['schnorr_challenge']), ('security', key(m.ip(a[13])) == key(m.ip(st.sec)))):
                ctx.concrete(good, w + ': openings are verified with the right ' + nm)
            ctx.concrete(all(k == key(m.ip(st.deg)) for k in st.seen.get('log', [])), w + ': order of the subgroup generator')
            o = m.dr(st.r.f[0])
            if vg:
                ctx.concrete(o.var == 'None', w + ': nothing is left to verify'); x, y = S_['g']; ds = sorted([sorted(x.d), sorted(y.d)])
                ctx.concrete(ds == sorted([['hg'], ['pedersen']]), w + ': the G point is compared with the commitment'); ctx.concrete([m.dr(x).p for x in S_['halo_s']] == [x.p for x in st.us] and S_['hashed'], w + ': commitment to the folding vector of the challenges')
                ctx.concrete(S_['table'] is not None and len(S_['table']) == st.deg and all(same_pt(p, mbasis(('hash', key(P.const(i))))) for i, p in enumerate(S_['table'])), w + ': commitment over the generators')
            else:
                ctx.concrete(o.var == 'Some', w + ': the G point is left to verify'); od = m.dr(o.f[0])
                ctx.concrete(same_pt(fld(od, 'halo_g'), st.pd['halo_g']) and [m.dr(x).p for x in lst(fld(od, 'halo_us'))] == [x.p for x in st.us], w + ': the returned claim is the proof\'s G point and challenges')
        else:
            if st.fail: kinds.add(st.fail[0]); ctx.concrete(True, w); continue
            bad = []
            for nm, q in (('t', tpoly()), ('pi', pipoly())):
                if q is not None and f.status(q) == 'nonzero': bad.append(nm); kinds.add(nm)
            ctx.concrete(bool(bad), w + ': rejected only when a check fails')
    want = {'ok', 'parameters', 'challenges', 'old proofs', 't', 'pi', 'openings'} | ({'G'} if vg else set()) | (set() if match else {'count'})
    ctx.concrete(want <= kinds, 'every outcome is reached', {'missing': str(sorted(want - kinds))})

# ------------------------------------------------------------------ shapes and validity
def param_ob(ctx, rounds, nold, wrong=None):
    def run(st):
        st.rec = []; st.okall = True
        def verdict(what):
            st.rec.append(what)
            if st.choose(2): return True
            st.okall = False; return False
        def mutdim(k): return {0: lambda n: n + 1, 1: lambda n: n - 1}[k]
        over = {'AffinePoint::is_valid': lambda I, T, a: verdict(('pt', key_pt(a[0]))), 'ProjectivePoint::is_valid': lambda I, T, a: verdict(('pt', key_pt(a[0]))), 'Field::to_canonical_u64_vec': lambda I, T, a: Opaque('u64s', m.dr(a[0])),
                'Field::is_valid_canonical_u64': lambda I, T, a: verdict(('el', key(m.dr(a[0]).d.p)))}
        I = ctx.interp(st, **mcfg(st, over)); k = shape(I, nold); pr, st.pd = sproof(I, st, k, rounds); st.I = I
        if wrong:
            tgt, d = wrong; o = pr
            for p in tgt[:-1]: o = fld(o, p)
            v = o.f[o.names.index(tgt[-1])]; l = v.l if hasattr(v, 'l') else lst(v)
            nl = list(l)
            if d > 0: nl += [nl[0] if nl else (mbasis('extra', 'A') if len(tgt) == 1 else st.fe('S', 'extra'))]
            elif nl: nl = nl[:-1]
            else: st.skip = True
            o.f[o.names.index(tgt[-1])] = VecV(nl)
        st.r = own_body(I, 'verifier-check_proof_parameters', {'C': CURVE}, [Ref([pr], 0), 1 << rounds])
    n = 0
    for st, res in ctx.explore(MFI(), run):
        w = 'check_proof_parameters, %d rounds%s' % (rounds, ', wrong length of %s' % '.'.join(wrong[0]) if wrong else '')
        if wrong:
            ctx.concrete(res[0] == 'panic' or st.r.var == 'Err', w + ': rejected'); continue
        ctx.no_panic(st, res, w)
        if st.r.var == 'Ok':
            n += 1; ctx.concrete(st.okall, w + ': accepted although a point or element is invalid'); rec = set(st.rec)
            for nm, v in list(st.pd.items()) + [('schnorr r', st.sr[0])]:
                for x in (v if isinstance(v, list) else [v]): ctx.concrete(('pt', key_pt(x)) in rec, w + ': point %s is checked' % nm)
            for nm, (_, flat, _) in zip(('local', 'right', 'below'), st.open):
                for i, x in enumerate(flat): ctx.concrete(('el', key(x.p)) in rec, w + ': opening %d of the %s set is checked' % (i, nm))
            for x in st.sr[1:]: ctx.concrete(('el', key(x.p)) in rec, w + ': Schnorr response is checked')
        else: ctx.concrete(not st.okall, w + ': rejected only for an invalid component')
    if not wrong: ctx.concrete(n == 1, 'a valid proof is accepted')
def key_pt(a): return tuple(sorted((str(k), tuple(sorted(v.items()))) for k, v in mpt(a).d.items()))

# ------------------------------------------------------------------ old proofs
def old_ob(ctx, nold, nopen):
    def run(st):
        st.g = {}
        def hg(I, T, a):
            k = (key(m.dr(a[0]).p), tuple(key(m.dr(x).p) for x in lst(a[1]))); 
            if k not in st.g: st.g[k] = st.fe('S', 'g%d' % len(st.g))
            return st.g[k]
        I = ctx.interp(st, **mcfg(st, {'plonk_util-halo_g': hg})); k = shape(I, nopen); pr, st.pd = sproof(I, st, k, 1); st.olds = [oldp(I, st, j, 1 + j % 2) for j in range(nold)]; st.z = st.fe('S', 'zeta')
        st.r = own_body(I, 'verifier-verify_old_proof_evaluation', {'C': CURVE}, [slist(st.olds), Ref([pr], 0), st.z])
    seen = set()
    for st, res in ctx.explore(MFI(), run):
        w = 'verify_old_proof_evaluation, %d old proofs, %d openings' % (nold, nopen); ctx.no_panic(st, res, w); f = st.fs('S'); seen.add(st.r.var)
        if nold != nopen: ctx.concrete(st.r.var == 'Err', w + ': rejected'); continue
        ds = []
        for j, o in enumerate(st.olds):
            k = (key(st.z.p), tuple(key(m.dr(x).p) for x in lst(fld(o, 'halo_us'))))
            ds.append(P.sub(st.g[k].p, st.open[0][2]['o_old_proofs'][j].p) if k in st.g else None)
        if st.r.var == 'Ok':
            ctx.concrete(None not in ds, w + ': every old proof is evaluated at zeta')
            for j, d in enumerate(ds): ctx.zero(st, 'S', d, w + ': opening %d' % j)
        else: ctx.concrete(any(d is not None and f.status(f.norm(d)) == 'nonzero' for d in ds), w + ': rejected only for a wrong opening')
    if nold == nopen: ctx.concrete(seen == ({'Ok', 'Err'} if nold else {'Ok'}), 'both outcomes are reached')

# ------------------------------------------------------------------ transcript
def chal_ob(ctx, rounds, npi, nold):
    def run(st):
        st.bad = []; st.conv = {}
        def conv(I, T, a):
            x = m.dr(a[0])
            if st.choose(2): return okr(conv_(st, x))
            st.bad.append('conversion'); return E()
        def sq(I, T, a):
            x = m.dr(a[0])
            if st.choose(2):
                u = st.ucache.setdefault(('root', key(x.p)), st.fe('S', 'root%d' % len(st.ucache))); return some(u)
            st.bad.append('root'); return none()
        o = bits_over(st, {'Field::square_root': sq}); o.update(chal_over(st)); o['Field::try_convert'] = conv; st.log = Opaque('challenger', [])
        def new(I, T, a): st.sec = m.ip(a[0]); st.nnew = getattr(st, 'nnew', 0) + 1; return st.log
        o['Challenger::new'] = new
        I = ctx.interp(st, **mcfg(st, o)); pr, st.pd = sproof(I, st, shape(I, nold), rounds); st.pis = [st.fe('S', 'pi%d' % i) for i in range(npi)]; st.olds = [oldp(I, st, j, 1) for j in range(nold)]
        st.SB = int(I.const_by_path('verifier::SECURITY_BITS', []))
        r = I.inherent(PROOF, 'get_challenges', [], [Ref([pr], 0), slist(st.pis), slist(st.olds)]); st.r = m.dr(r[0])
    n = 0
    for st, res in ctx.explore(MFI(), run):
        w = 'get_challenges, %d rounds, %d public inputs, %d old proofs' % (rounds, npi, nold)
        if res[0] == 'panic' and 'conversion' in st.bad: ctx.concrete(True, w); continue     # public inputs that do not fit both fields: documented precondition
        ctx.no_panic(st, res, w)
        if st.r.var == 'Err': ctx.concrete(bool(st.bad), w + ': fails only when a conversion or a root fails'); continue
        n += 1; ctx.concrete(not st.bad, w + ': success although a conversion or root failed', {'failed': str(st.bad)}); ctx.concrete(st.nnew == 1 and P.isconst(st.sec) and P.cval(st.sec) == st.SB, w + ': one challenger at the security level')
        d = st.pd; pt = lambda l: [('pt', x) for x in (l if isinstance(l, list) else [l])]; el = lambda l: [('el', conv_(st, x)) for x in l]
        seq = pt(d['c_wires']) + [('get', 'beta'), ('get', 'gamma')] + pt(d['c_plonk_z']) + [('get', 'alpha')] + pt(d['c_plonk_t']) + pt(d['c_pis_quotient']) + el(st.pis) + pt([mbasis('old%d' % j) for j in range(nold)]) + [('get', 'zeta')]
        for _, flat, _ in st.open: seq += el(flat)
        seq += [('get', x) for x in ('v', 'u', 'u_scaling')]
        for i in range(rounds): seq += pt(d['halo_l'][i]) + pt(d['halo_r'][i]) + [('get', i)]
        seq += pt(st.sr[0]) + [('get', 'schnorr_challenge')]
        ctx.concrete([t for t, _ in st.log.d] == [t for t, _ in seq], w + ': order of messages and challenges', {'transcript': ' '.join(t for t, _ in st.log.d)})
        us = [m.dr(x) for x in lst(fld(st.r.f[0], 'halo_us'))]; ctx.concrete(len(us) == rounds, w + ': one challenge per round')
        for (t, x), (_, y) in zip(st.log.d, seq):
            if t == 'pt': mfeq(ctx, st, x, y, w + ': observed point')
            elif t == 'el': ctx.feq(st, x, y, w + ': observed element')
            elif isinstance(y, str): ctx.feq(st, fld(st.r.f[0], y), conv_(st, x), w + ': ' + y)
            else: ctx.feq(st, us[y], st.ucache[('root', key(nof(st, conv_(st, x), st.SB).p))], w + ': round challenge %d' % y)
    ctx.concrete(n == 1, 'success is reached')

def obligations(crates, tier):
    obs = []
    for npi in (0, 1, 9, 10, 18, 30): obs.append(Ob('verify_proof with %d public inputs, any degree' % npi, lambda ctx, n=npi: verify_ob(ctx, n, n % 2, False), bounded='up to 30 public inputs' , timeout=300))
    for npi in (0, 3): obs.append(Ob('verify_proof with %d inputs and any declared number' % npi, lambda ctx, n=npi: verify_ob(ctx, n, 0, False, match=False), timeout=300, bounded='up to 3 given inputs'))
    for npi in (0, 2): obs.append(Ob('verify_proof with %d public inputs, G verified' % npi, lambda ctx, n=npi: verify_ob(ctx, n, 1, True), bounded='degree 4', timeout=300))
    S = 'real shape, up to 4 rounds and 3 old proofs'
    for r, o in ((0, 0), (1, 1), (3, 2), (4, 3)): obs.append(Ob('check_proof_parameters, %d rounds, %d old' % (r, o), lambda ctx, r=r, o=o: param_ob(ctx, r, o), bounded=S, timeout=300))
    vec = [('c_wires',), ('c_plonk_t',), ('halo_l',), ('halo_r',)] + [(s, x) for s in ('o_local', 'o_right', 'o_below') for x in ('o_constants', 'o_plonk_sigmas', 'o_wires', 'o_plonk_t', 'o_old_proofs')]
    for v in vec:
        for d in (1, -1):
            if v == ('o_local', 'o_old_proofs'): continue
            obs.append(Ob('check_proof_parameters, wrong length %+d of %s' % (d, '.'.join(v)), lambda ctx, v=v, d=d: param_ob(ctx, 2, 1, (v, d)), bounded='one vector too long or too short', timeout=300))
    for a in range(4):
        for b in range(4): obs.append(Ob('verify_old_proof_evaluation, %d old, %d openings' % (a, b), lambda ctx, a=a, b=b: old_ob(ctx, a, b), bounded='up to 3 old proofs'))
    for r, n, o in ((0, 0, 0), (1, 1, 0), (2, 3, 1), (4, 10, 2)): obs.append(Ob('get_challenges, %d rounds, %d public inputs, %d old' % (r, n, o), lambda ctx, r=r, n=n, o=o: chal_ob(ctx, r, n, o), bounded=S, timeout=300))
    for rounds, nold, full in ((1, 0, False), (2, 2, False), (0, 0, True), (1, 2, True)):
        obs.append(Ob('verify_all_ipas, %d rounds, %d old%s' % (rounds, nold, ', real shape' if full else ''), lambda ctx, r=rounds, o=nold, f=full: all_ob(ctx, r, o, f), bounded='up to 2 rounds and 2 old proofs'))
    return obs
