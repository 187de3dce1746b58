from contracts.circ import *
from contracts.polys import coefs, poly, pl, POLY, conv, roots, wpow, npow2
from contracts.C28 import gadget, outs
from engine.interp import loop_heads
from engine.state import FieldInfo
import engine.poly as P
PLOOKUP = True
LEVEL = 'other'
NOTE = 'point evaluations and list combinations are proved for every order and length; divide_by_z_h and the recursive forms are bounded'
FUNCTIONS = ['plonk_util::{eval_zero_poly, eval_l_1, reduce_with_powers, reduce_with_powers_recursive, powers, powers_recursive, eval_poly}', 'Polynomial::divide_by_z_h', 'plookup::eval_l_i', 'Field::inner_product']
EXPLAIN = ('eval_zero_poly, eval_l_1 and eval_l_i run with a symbolic order n, exp_usize replaced by its contract (the power, an indeterminate that is 1 at 1), on every outcome of their tests, so every point inside and outside every subgroup is covered. '
           'reduce_with_powers, eval_poly and powers are cut at their loop head: the invariant (Horner value of the elements consumed so far) holds initially and is preserved by one arbitrary iteration, for lists of every length; fixed lengths are also run without the cut. '
           'divide_by_z_h runs with an indeterminate quotient, root of unity and coset generator; its result times the i-th power of the generator must be the i-th quotient coefficient. The recursive forms are checked over the constraint system.')
ASSUMPTIONS = ['field operations and exp_usize meet their contracts (C01, C05)', 'batch inversion meets its contract (C02)', 'the generator of the multiplicative group is in no proper coset used: g^n w^(nj) != 1', 'n is nonzero in the field',
               'builder operations meet their contracts (C28)']
FI = lambda: {'F': FieldInfo('F')}
class Done(Infeasible): pass
E1 = {'F': F}

# ---------------------------------------------------------------- vanishing and Lagrange, any order
def exp_over(st, n, nm):
    """exp_usize(x, n) for the symbolic order: an indeterminate X; X = 1 when x = 1. small concrete exponents: the power"""
    def over(I, T, a):
        x = st.fs('F').norm(m.dr(a[0]).p)
        if a[1] is not n and not (isinstance(a[1], SI) and a[1].p == n.p):
            if m.conc(a[1]): return NotImplemented
            if isinstance(a[1], SI) and a[1].p == getattr(st, 'i', n).p: k = ('pow', 'i', P.key(x))
            else: raise Unsupported('power with another exponent')
        else: k = ('pow', 'n', P.key(x))
        if k not in st.ucache:
            if P.isconst(x) and P.cval(x) == 1: st.ucache[k] = st.fconst('F', 1)
            else: st.ucache[k] = st.fe('F', nm + k[1])
        return st.ucache[k]
    def canon(I, T, a):
        if isinstance(a[0], SI) and a[0].p == n.p:
            if not hasattr(st, 'N'): st.N = st.fe('F', 'n'); st.assume(SB('fz', 'F', st.N.p), False)
            return st.N
        return NotImplemented
    return {'Field::exp_usize': over, 'Field::from_canonical_usize': canon}

def vanish_ob(ctx, fn):
    kinds = set()
    def run(st):
        n = st.int_atom('n', 1, 2**40); st.n = n; st.x = st.fe('F', 'x'); o = exp_over(st, n, 'x^')
        st.N = st.fe('F', 'n'); st.assume(SB('fz', 'F', st.N.p), False)
        I = ctx.interp(st, over=o); st.I = I
        if fn == 'eval_l_i':
            st.i = st.int_atom('i', 0, 2**40); st.w = st.fe('F', 'w')
            st.g = o['Field::exp_usize'](I, F, [st.w, st.i]); st.assume(SB('fz', 'F', st.g.p), False)
            st.point = P.sub(st.x.p, st.g.p)
        else: st.point = P.sub(st.x.p, P.const(1))
        st.in1 = st.decide(SB('fz', 'F', st.point)) if fn != 'eval_zero_poly' else False
        st.X = o['Field::exp_usize'](I, F, [FE('F', st.fs('F').norm(st.x.p)), n])
        if st.in1 and fn == 'eval_l_i': st.ucache[('pow', 'n', P.key(st.fs('F').norm(st.x.p)))] = st.fconst('F', 1)   # w^i is in the subgroup
        if fn == 'eval_l_i': return own_body(I, 'plookup-eval_l_i', E1, [n, st.i, st.w, st.x])
        return own_body(I, 'plonk_util-' + fn, E1, [n, st.x])
    for st, res in ctx.explore(FI(), run):
        ctx.no_panic(st, res, fn); r = res[1].p; kinds.add(st.in1)
        if fn == 'eval_zero_poly': ctx.zero(st, 'F', P.sub(r, P.sub(st.X.p, P.const(1))), 'Z(x) = x^n - 1'); continue
        if st.in1: ctx.zero(st, 'F', P.sub(r, P.const(1)), '%s: the basis polynomial is 1 at its own point' % fn); continue
        g = st.g.p if fn == 'eval_l_i' else P.const(1)
        ctx.zero(st, 'F', P.sub(P.mul(r, P.mul(st.N.p, st.point)), P.mul(g, P.sub(st.X.p, P.const(1)))), '%s: L(x) n (x - w^i) = w^i (x^n - 1) away from its point' % fn)
    ctx.concrete(fn == 'eval_zero_poly' or kinds == {True, False}, fn + ': both cases reached')

def vanish_conc(ctx, fn, n):
    """fixed n: against the sum form of the basis polynomial, which needs no case split"""
    k = (n-1).bit_length()
    setup, over = roots(k)
    for i in range(n if fn == 'eval_l_i' else 1):
        def run(st):
            w = setup(st); st.x = st.fe('F', 'x'); I = ctx.interp(st, over=over); g = wpow(st, i, k); st.g = g
            if fn == 'eval_l_i': return own_body(I, 'plookup-eval_l_i', E1, [n, i, w, st.x])
            return own_body(I, 'plonk_util-' + fn, E1, [n, st.x])
        for st, res in ctx.explore(FI(), run):
            ctx.no_panic(st, res, fn)
            if fn == 'eval_zero_poly': want = P.sub(P.pw(st.x.p, n), P.const(1)); got = res[1].p
            else:
                want = {}; gi = wpow(st, -i, k)
                for j in range(n): want = P.add(want, P.mul(wpow(st, -i*j, k).p, P.pw(st.x.p, j) if j else P.const(1)))
                got = P.scale(res[1].p, n)
            ctx.zero(st, 'F', P.sub(got, want), '%s(%d): basis polynomial %d' % (fn, n, i))

# ---------------------------------------------------------------- lists
def weighted(ts, x):
    e = {}
    for i, t in enumerate(ts): e = P.add(e, P.mul(t, P.pw(x, i) if i else P.const(1)))
    return e

def list_ob(ctx, fn, top):
    for n in range(top+1):
        def run(st):
            st.t = coefs(st, 't', n); st.x = st.fe('F', 'x'); I = ctx.interp(st)
            if fn == 'powers': return own_body(I, 'plonk_util-powers', E1, [st.x, n])
            return own_body(I, 'plonk_util-' + fn, E1, [sl(st.t), st.x])
        for st, res in ctx.explore(FI(), run):
            w = '%s of %d elements' % (fn, n); ctx.no_panic(st, res, w)
            if fn == 'powers':
                l = lst(res[1]); ctx.concrete(len(l) == n, w + ': length')
                for i, y in enumerate(l): ctx.zero(st, 'F', P.sub(y.p, P.pw(st.x.p, i) if i else P.const(1)), '%s: power %d' % (w, i))
            else: ctx.zero(st, 'F', P.sub(res[1].p, weighted([t.p for t in st.t], st.x.p)), w)

def cut_ob(ctx, fn):
    """one arbitrary iteration"""
    key = 'plonk_util-' + fn; seen = set()
    def run(st):
        st.x = st.fe('F', 'x'); st.t = st.fe('F', 't'); st.visits = 0
        def lp(I, Fr):
            nm = Fr.body.names; lh = loop_heads(Fr.body)
            if len(lh) != 1: raise Unsupported('lost anchor: the loop of ' + fn)
            def loc(k):
                if k not in nm: raise Unsupported('lost anchor: %s in %s' % (k, fn))
                return nm[k]
            def its(): 
                l = list({id(v): v for v in Fr.L if isinstance(v, ItV)}.values())
                if 'iter' in nm and isinstance(Fr.L[nm['iter']], ItV): l = [Fr.L[nm['iter']]]
                if len(l) != 1: raise Unsupported('lost anchor: the iterator of %s %r %r' % (fn, nm, Fr.L))
                return l[0]
            def head(I, Fr, bb):
                st.visits += 1
                if fn == 'reduce_with_powers':
                    s = loc('sum')
                    if st.visits == 1:
                        ctx.zero(st, 'F', Fr.L[s].p, 'nothing consumed: the sum is 0')
                        st.S = st.fe('F', 'S'); Fr.L[s] = st.S; seen.add('base')
                        st.more = st.choose(2) == 1; its().it = m.ListIt([Ref([st.t], 0)] if st.more else [])
                    else:
                        ctx.zero(st, 'F', P.sub(Fr.L[s].p, P.add(P.mul(st.S.p, st.x.p), st.t.p)), 'one more element t in front: the sum becomes S x + t'); seen.add('step'); raise Done()
                elif fn == 'eval_poly':
                    a, q = loc('ans'), loc('x_pow')
                    if st.visits == 1:
                        ctx.zero(st, 'F', Fr.L[a].p, 'nothing consumed: the sum is 0'); ctx.zero(st, 'F', P.sub(Fr.L[q].p, P.const(1)), 'nothing consumed: the power is 1')
                        st.S, st.Q = st.fe('F', 'S'), st.fe('F', 'Q'); Fr.L[a], Fr.L[q] = st.S, st.Q; seen.add('base')
                        st.more = st.choose(2) == 1; its().it = m.ListIt([Ref([st.t], 0)] if st.more else [])
                    else:
                        ctx.zero(st, 'F', P.sub(Fr.L[a].p, P.add(st.S.p, P.mul(st.Q.p, st.t.p))), 'the next element is weighted with the next power')
                        ctx.zero(st, 'F', P.sub(Fr.L[q].p, P.mul(st.Q.p, st.x.p)), 'the power advances'); seen.add('step'); raise Done()
                else:
                    c, l = loc('current'), loc('powers')
                    if st.visits == 1:
                        ctx.concrete(lst(Fr.L[l]) == [], 'nothing produced yet'); ctx.zero(st, 'F', P.sub(Fr.L[c].p, P.const(1)), 'the first power is 1'); seen.add('base')
                        st.more = st.choose(3)     # 0: i = 0, 1: some i > 0, 2: the end
                        if 'iter' not in nm or not isinstance(Fr.L[nm['iter']], A) or Fr.L[nm['iter']].tag != 'Range': raise Unsupported('lost anchor: the range of powers')
                        rg = Fr.L[nm['iter']]; ctx.concrete(rg.f[0] == 0 and isinstance(rg.f[1], SI) and rg.f[1].p == st.n.p, 'the indices run from 0 to n')
                        if st.more == 0: st.assume_ge0(P.sub(st.n.p, P.const(1))) if hasattr(st, 'assume_ge0') else st.add_con('ge0', P.sub(st.n.p, P.const(1)))
                        else:
                            st.S = st.fe('F', 'S'); Fr.L[c] = st.S; st.mark = Opaque('earlier powers'); Fr.L[l] = VecV([st.mark])
                            if st.more == 1:
                                i = st.int_atom('i', 1, 2**60); st.add_con('ge0', P.sub(st.n.p, P.add(i.p, P.const(1)))); rg.f[0] = i
                            else: rg.f[0] = rg.f[1]
                    else:
                        o = lst(Fr.L[l]); want = P.const(1) if st.more == 0 else P.mul(st.S.p, st.x.p)
                        ctx.concrete(len(o) == (1 if st.more == 0 else 2) and (st.more == 0 or o[0] is st.mark), 'one power is appended')
                        ctx.zero(st, 'F', P.sub(o[-1].p, want), 'the appended power is the next one'); ctx.zero(st, 'F', P.sub(Fr.L[c].p, want), 'the current power is the last one'); seen.add('step%d' % st.more); raise Done()
            return {next(iter(lh)): head}
        I = ctx.interp(st, loops={key: lp}); st.n = st.int_atom('n', 0, 2**60)
        if fn == 'powers': return own_body(I, key, E1, [st.x, st.n])
        return own_body(I, key, E1, [sl([st.t]), st.x])
    for st, res in ctx.explore(FI(), run):
        ctx.no_panic(st, res, fn); seen.add('end')
        if fn == 'powers':
            o = lst(res[1]); ctx.concrete(len(o) == 1 and o[0] is st.mark, 'the list produced is returned')
        else: ctx.zero(st, 'F', P.sub(res[1].p, st.S.p), 'the accumulated sum is returned')
    want = {'base', 'end'} | ({'step0', 'step1'} if fn == 'powers' else {'step'})
    ctx.concrete(seen == want, 'base, step and exit reached', {'seen': str(sorted(seen))})

# ---------------------------------------------------------------- recursive forms
def rec_obs():
    obs = []
    for n in range(0, 7):
        def reduce(ctx, n=n):
            gadget(ctx, 'plonk_util-reduce_with_powers_recursive', ['x'] * (n+1), lambda st, iv: [weighted(iv[:n], iv[n])], conv=lambda xs, st: [sl(xs[:n]), xs[n]], what='reduce_with_powers_recursive of %d' % n)
        def pows(ctx, n=n):
            gadget(ctx, 'plonk_util-powers_recursive', ['x'], lambda st, iv: [P.pw(iv[0], i) if i else P.const(1) for i in range(n)], conv=lambda xs, st: [xs[0], n], what='powers_recursive of %d' % n)
        obs += [Ob('reduce_with_powers_recursive of %d terms' % n, reduce, bounded='up to 6 terms'), Ob('powers_recursive, n = %d' % n, pows, bounded='up to 6 powers')]
    return obs

# ---------------------------------------------------------------- division by the vanishing polynomial
def zh_ob(ctx, n, lq, z):
    D = npow2(n + lq); K = D.bit_length() - 1
    setup, over = roots(K)
    def run(st):
        w = setup(st); f = st.fs('F')
        st.q = coefs(st, 'q', lq)
        if lq: st.assume(SB('fz', 'F', st.q[-1].p), False)
        st.g = st.fe('F', 'g'); st.assume(SB('fz', 'F', st.g.p), False)
        def binv(I, T, a):
            out = []
            for x in lst(a[0]):
                f.assume_nonzero(f.norm(x.p)); out.append(FE('F', f.inverse(x.p)))
            return VecV(out)
        I = ctx.interp(st, over=dict(over, **{'Field::batch_multiplicative_inverse': binv}), consts={('F', 'MULTIPLICATIVE_SUBGROUP_GENERATOR'): st.g})
        zh = [FE('F', P.const(-1))] + [FE('F', {}) for _ in range(n-1)] + [FE('F', P.const(1))]
        a = [FE('F', f.norm(c)) for c in conv(st.q, zh)] + [st.fconst('F', 0) for _ in range(z)]
        return I.inherent(POLY, 'divide_by_z_h', [], [Ref([poly(a)], 0), n])[0]
    def rewrite(st, p):
        """uses the defining relations of the inverses of g^n w^j - 1"""
        f = st.fs('F'); ga = next(iter(P.atoms(st.g.p)))
        for _ in range(60):
            p = f.norm(p); hit = None
            for a, b in f.inv.items():
                e = P.degree_in(b, ga)
                if e < 1 or len(P.coeffs_in(b, ga)) != 2: continue
                cs = P.coeffs_in(b, ga)
                if 0 not in cs or len(cs[e]) != 1: continue
                for mono in p:
                    d = dict(mono)
                    if d.get(a, 0) >= 1 and d.get(ga, 0) >= e: hit = (mono, a, e, cs); break
                if hit: break
            if not hit: return p
            # every monomial divisible by a g^e is replaced: a g^e = (1 - c0 a) / c1
            _, a, e, cs = hit; r = {}
            u = f.inverse_unit(cs[e]) if hasattr(f, 'inverse_unit') else unit_inv(st, cs[e], K)
            rep = P.mul(P.sub(P.const(1), P.mul(cs[0], P.atom(a))), u)
            for mono, c in p.items():
                d = dict(mono)
                if d.get(a, 0) >= 1 and d.get(ga, 0) >= e:
                    d[a] -= 1; d[ga] -= e
                    r = P.add(r, P.mul({tuple(sorted((k, v) for k, v in d.items() if v)): c}, rep))
                else: r = P.add(r, {mono: c})
            p = r
        return p
    for st, res in ctx.explore(FI(), run):
        what = 'divide_by_z_h(%d), quotient of %d coefficients, %d zeros appended' % (n, lq, z)
        ctx.no_panic(st, res, what); o = pl(res[1])
        for i in range(max(len(o), lq)):
            gi = P.pw(st.g.p, i) if i else P.const(1)
            got = rewrite(st, P.mul(o[i].p, gi)) if i < len(o) else {}
            ctx.zero(st, 'F', P.sub(got, P.mul(st.q[i].p, gi) if i < lq else {}), '%s: coefficient %d' % (what, i))

def unit_inv(st, p, K):
    """inverse of c w^e"""
    (mono, c), = p.items()
    wa = next(iter(P.atoms(st.w.p))); d = dict(mono)
    if set(d) - {wa}: raise Unsupported('denominator shape')
    return P.scale(wpow(st, -d.get(wa, 0), K).p, st.fs('F').cinv(c))

def obligations(crates, tier):
    t = tier != 'quick'
    obs = [Ob(fn + ' at every point, any order', lambda ctx, fn=fn: vanish_ob(ctx, fn)) for fn in ('eval_zero_poly', 'eval_l_1', 'eval_l_i')]
    for fn in ('eval_zero_poly', 'eval_l_1', 'eval_l_i'):
        for n in (1, 2, 4, 8) + ((16,) if t else ()): obs.append(Ob('%s of order %d against the sum form' % (fn, n), lambda ctx, fn=fn, n=n: vanish_conc(ctx, fn, n), bounded='orders up to %d' % (16 if t else 8), timeout=200))
    for fn in ('reduce_with_powers', 'eval_poly', 'powers'):
        obs.append(Ob(fn + ': loop invariant, any length', lambda ctx, fn=fn: cut_ob(ctx, fn), soft=True))
        obs.append(Ob(fn + ' of fixed lengths', lambda ctx, fn=fn: list_ob(ctx, fn, 12), bounded='lengths up to 12'))
    obs += rec_obs()
    for n in (1, 2, 4, 8):
        for lq in range(0, 6 if n < 8 else 3):
            for z in (0, 2): obs.append(Ob('divide_by_z_h(%d), quotient of %d, %d trailing zeros' % (n, lq, z), lambda ctx, n=n, lq=lq, z=z: zh_ob(ctx, n, lq, z), bounded='n up to 8, quotients up to 5 coefficients', timeout=200))
    return obs
