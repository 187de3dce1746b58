from contracts.common import *
from engine.interp import loop_heads
FUNCTIONS = ['bigint_inverse::nonzero_multiplicative_inverse (loop invariants, ranking)', 'MontyRepr::monty_inverse', 'Field::multiplicative_inverse(_assuming_nonzero) of the six fields', 'Div impls of the six fields',
             'Field::batch_multiplicative_inverse', 'Field::batch_multiplicative_inverse_opt', 'bigint::{is_even,is_odd,div2}']
EXPLAIN = ('The binary inversion loop is cut at its loop heads. Invariant: b, c < p; x*b = u and x*c = v in the field (ghost field values, propagated by the limb-helper contracts); u >= 1, v >= 1 or (u, v) = (0, 1). '
           'Ranking: the inner loops decrease u (v), the outer loop decreases u + v. Ghost lemma used: gcd(u, v) = 1 is preserved by halving and subtraction, so odd u = v implies u = v = 1.')
ASSUMPTIONS = ['ghost lemma gcd(u,v)=1 (elementary number theory, not machine-checked)', 'limb-helper contracts are those verified in C01 (add_no_overflow, sub, div2, cmp)']

class Done(Infeasible): pass

def inverse_ob(ctx, fname):
    path, n, p = FIELDS[fname]
    nn = ('const', ('int', n, ('prim', 'usize')))
    KEY = 'bigint-bigint_inverse-nonzero_multiplicative_inverse'
    def run(st):
        f = st.fs('F'); phi = {}; half = {}; par = {}
        def k(l): return P.key(val(l))
        def fresh(nm):
            return limbs(st, nm, n)
        def ph(l):
            q = phi.get(k(l))
            if q is None:
                v = val(l)
                if P.isconst(v): return P.const(P.cval(v) % p)
                raise Unsupported('no ghost value for %s' % P.show(v, st.aname)[:60])
            return q
        def con(q): st.add_con('ge0', q)
        def eqc(q): st.add_con('eq0', q)
        def c_add(I, T, a):
            x, y = lst(a[0]), lst(a[1]); M = (1 << (64*n)) - 1
            if not st.proves_ge0(P.sub(P.const(M), P.add(val(x), val(y)))): raise Undischarged('precondition of add_no_overflow')
            r = fresh('s'); eqc(P.sub(val(r), P.add(val(x), val(y)))); phi[k(r)] = f.red(P.add(ph(x), ph(y))); setpar(r, x, y); return Arr(r)
        def c_sub(I, T, a):
            x, y = lst(a[0]), lst(a[1])
            if not st.proves_ge0(P.sub(val(x), val(y))): raise Undischarged('precondition of sub')
            r = fresh('d'); eqc(P.sub(val(r), P.sub(val(x), val(y)))); phi[k(r)] = f.red(P.sub(ph(x), ph(y))); setpar(r, x, y); return Arr(r)
        def parity(l):
            v = val(l)
            if P.isconst(v): return P.cval(v) & 1
            kk = k(l)
            if kk not in half:
                h = fresh('h'); bit = par[kk] if kk in par else st.choose(2)
                half[kk] = (h, bit); eqc(P.sub(v, P.add(P.scale(val(h), 2), P.const(bit)))); con(P.sub(P.const(1 << (64*n-1)), val(h)))
            return half[kk][1]
        def known(l):
            v = val(l)
            if P.isconst(v): return P.cval(v) & 1
            return half[k(l)][1] if k(l) in half else par.get(k(l))
        def setpar(r, x, y):
            px, py = known(x), known(y)
            if px is not None and py is not None: par[k(r)] = px ^ py
        def c_even(I, T, a): return parity(lst(a[0])) == 0
        def c_odd(I, T, a): return parity(lst(a[0])) == 1
        def c_div2(I, T, a):
            x = lst(a[0]); b = parity(x); h = half[k(x)][0] if k(x) in half else None
            if h is None: raise Unsupported('div2 of a constant')
            phi[k(h)] = f.red(P.scale(P.sub(ph(x), P.const(b)), pow(2, -1, p))); return Arr(list(h))
        def c_eq(neg):
            def g(I, T, a):
                if T[0][0] != 'array': return NotImplemented
                x, y = lst(m.dr(a[0])), lst(m.dr(a[1])); d = P.sub(val(x), val(y))
                e = st.decide(m.ieq(st, m.mk(d), 0))
                if e: f.assume_zero(f.red(P.sub(ph(x), ph(y))))
                return e != neg
            return g
        over = {'bigint-bigint_arithmetic-' + a: b for a, b in (('cmp', c_cmp), ('add_no_overflow', c_add), ('sub', c_sub), ('div2', c_div2), ('is_even', c_even), ('is_odd', c_odd))}
        over['PartialEq::ne'] = c_eq(True); over['PartialEq::eq'] = c_eq(False)
        I = ctx.interp(st, over=over)
        X = st.fe('F', 'x'); f.assume_nonzero(X.p)
        a = limbs(st, 'a', n); con(P.sub(val(a), P.const(1))); con(P.sub(P.const(p-1), val(a))); phi[k(a)] = X.p
        order = [p >> (64*i) & (2**64-1) for i in range(n)]
        # ghost: was every loop visited
        state = {'in': {}}
        def heads(I, Fr):
            body = Fr.body; lh = loop_heads(body); nm = body.names
            need = ('u', 'v', 'b', 'c')
            if any(x not in nm for x in need): raise Unsupported('lost anchor: loop variables')
            outer = [h for h in lh if all(h == g or h not in lh[g] for g in lh)]
            if len(outer) != 1: raise Unsupported('lost anchor: loop nest')
            outer = outer[0]
            inner = [h for h in lh if h != outer]
            def get(x): return Fr.L[nm[x]].l
            def check(where):
                u, v, b, c = map(get, need)
                for x in (b, c):
                    if not st.proves_ge0(P.sub(P.const(p-1), val(x))): raise Undischarged('invariant b, c < order at %s' % where)
                for x in (u, v):
                    if not st.proves_ge0(P.sub(P.const(p), val(x))): raise Undischarged('invariant u, v <= order at %s' % where)
                if not st.proves_ge0(P.sub(val(v), P.const(1))): raise Undischarged('invariant v >= 1 at %s' % where)
                if not st.proves_ge0(P.sub(val(u), P.const(1))):
                    if not (where == 'outer' and st.eq0(P.sub(val(v), P.const(1))) is True): raise Undischarged('invariant u >= 1 or (u, v) = (0, 1) at %s' % where)
                for x, y, w in ((b, u, 'b*x = u'), (c, v, 'c*x = v')):
                    ctx.checks += 1
                    if f.status(P.sub(P.mul(ph(x), X.p), ph(y))) != 'zero': raise Undischarged('invariant %s at %s' % (w, where))
            def havoc(where):
                for x, y in (('b', 'u'), ('c', 'v')):
                    l, w = fresh(x), fresh(y)
                    con(P.sub(P.const(p-1), val(l))); con(P.sub(P.const(p), val(w)))
                    g = st.fe('F', 'g' + x); phi[k(l)] = g.p; phi[k(w)] = f.norm(P.mul(g.p, X.p))
                    Fr.L[nm[x]] = Arr(l); Fr.L[nm[y]] = Arr(w)
                con(P.sub(val(get('v')), P.const(1)))
                if where == 'outer' and st.choose(2):
                    eqc(val(get('u'))); eqc(P.sub(val(get('v')), P.const(1))); phi[k(get('u'))] = {}
                    f.assume_zero(P.sub(phi[k(get('v'))], P.const(1)))
                else: con(P.sub(val(get('u')), P.const(1)))
            def at_outer(I, Fr, bb):
                check('outer')
                if 'outer' in state:
                    ctx.ge0(st, P.sub(P.sub(state['outer'], P.add(val(get('u')), val(get('v')))), P.const(1)), 'ranking u + v')
                    raise Done()
                havoc('outer'); state['outer'] = P.add(val(get('u')), val(get('v')))
            r = {outer: at_outer}
            # refine: havoc only what a loop assigns
            for h in inner:
                blk = lh[h]
                asg = set()
                for b_ in blk:
                    ss, t = body.blocks[b_]
                    for s_ in ss:
                        if s_[0] == '=': asg.add(s_[1][0])
                    if t[0] == 'call': asg.add(t[3][0])
                def mk_(h, asg):
                    mine = [x for x in need if nm[x] in asg]
                    def at(I, Fr, bb):
                        check('inner')
                        cur = P.add(val(get('u')), val(get('v')))
                        if bb in state['in']:
                            ctx.ge0(st, P.sub(P.sub(state['in'][bb], cur), P.const(1)), 'ranking of an inner loop'); raise Done()
                        if not st.proves_ge0(P.sub(state['outer'], cur)): raise Undischarged('u + v does not grow before an inner loop')
                        for x, y in (('b', 'u'), ('c', 'v')):
                            if x in mine or y in mine:
                                l, w = fresh(x), fresh(y)
                                con(P.sub(P.const(p-1), val(l))); con(P.sub(P.const(p), val(w))); con(P.sub(val(w), P.const(1)))
                                g = st.fe('F', 'g' + x); phi[k(l)] = g.p; phi[k(w)] = f.norm(P.mul(g.p, X.p))
                                Fr.L[nm[x]] = Arr(l); Fr.L[nm[y]] = Arr(w)
                        cur = P.add(val(get('u')), val(get('v'))); con(P.sub(state['outer'], cur))
                        state['in'][bb] = cur
                    return at
                r[h] = mk_(h, asg)
            return r
        def c_cmp2(I, T, a):
            x, y = lst(a[0]), lst(a[1]); r = c_cmp(I, T, a)
            # ghost gcd lemma: both odd, coprime and equal -> both one
            px, py = half.get(k(x)), half.get(k(y))
            if r.var == 'Equal' and px and py and px[1] == 1 and py[1] == 1:
                fr = state['frame']
                if x == fr('u') and y == fr('v'):
                    eqc(P.sub(val(x), P.const(1))); eqc(P.sub(val(y), P.const(1)))
            return r
        I.over['bigint-bigint_arithmetic-cmp'] = c_cmp2
        def lp(I, Fr):
            state['frame'] = lambda x: Fr.L[Fr.body.names[x]].l
            return heads(I, Fr)
        I.loops = {KEY: lp}
        r = own_body(I, KEY, {'N': nn}, [Arr(list(a)), Arr(order)])
        st.X = X; st.rphi = ph(r.l)
        return r
    for st, res in ctx.explore({'F': FieldInfo('F', p)}, run, max_paths=4000):
        ctx.no_panic(st, res, 'nonzero_multiplicative_inverse')
        ctx.zero(st, 'F', P.sub(P.mul(st.rphi, st.X.p), P.const(1)), 'result is the inverse modulo the order')
        ctx.ge0(st, P.sub(P.const(p-1), val(res[1].l)), 'result below the order')

def parity_ob(ctx, n):
    nn = ('const', ('int', n, ('prim', 'usize')))
    for fn in ('is_even', 'is_odd'):
        def run(st):
            I = ctx.interp(st); st.I = I; a = limbs(st, 'a', n); st.a = a
            return st.decide(own_body(I, 'bigint-bigint_arithmetic-' + fn, {'N': nn}, [Arr(list(a))]))
        for st, res in ctx.explore({}, run):
            ctx.no_panic(st, res, fn)
            odd = res[1] if fn == 'is_odd' else not res[1]
            lo = m.binop(st.I, 'BitAnd', st.a[0], 1, ('prim', 'u64'))
            d = P.sub(m.ip(lo), P.const(int(odd)))
            ctx.ge0(st, d, fn); ctx.ge0(st, P.neg(d), fn)

def monty_inv_ob(ctx, fname):
    path, n, p = FIELDS[fname]; T = fty(fname)
    def run(st):
        def c_inv(I, Ts, a):
            if val(lst(a[0])) != val(st.x) or ival_of(lst(a[1])) != p: raise Undischarged('inversion called on something else than (limbs, ORDER)')
            r = limbs(st, 'r', n); st.add_con('ge0', P.sub(P.const(p-1), val(r))); st.r = r
            return Arr(list(r))
        I = ctx.interp(st, over=dict(LIMB_CONTRACTS, **{'bigint-bigint_inverse-nonzero_multiplicative_inverse': c_inv}))
        a = symelem(st, I, 'a', fname); st.x = list(a.f[0].l); st.r = None
        return I.dispatch(T, 'Field', [], 'multiplicative_inverse_assuming_nonzero', [], [Ref([a], 0)])
    for st, res in ctx.explore({}, run):
        ctx.no_panic(st, res, 'multiplicative_inverse_assuming_nonzero')
        if st.r is None: raise Unsupported('inversion does not use nonzero_multiplicative_inverse')
        R = 1 << (64*n)
        # a*r = 1 (mod p), so the Montgomery form of the inverse is r*R^2
        congruent(ctx, st, P.scale(val(res[1].f[0].l), R), P.scale(val(st.r), R*R*R % p), p, fname + ' inverse')
        ctx.ge0(st, P.sub(P.const(p-1), val(res[1].f[0].l)), 'inverse below the order')

def div_ob(ctx, fname):
    T = fty(fname)
    def run(st):
        x, y = A(fname, None, [Opaque('x')]), A(fname, None, [Opaque('y')])
        iv = A(fname, None, [Opaque('inv')]); pr = A(fname, None, [Opaque('prod')])
        def inv(I, Ts, a):
            if m.dr(a[0]).f[0].what != 'y': raise Refuted('division inverts another value than the divisor')
            return some(iv) if st.choose(2) == 0 else none()
        def mul(I, Ts, a):
            w = [m.dr(z).f[0].what for z in a]
            if sorted(w) != ['inv', 'x']: raise Refuted('division multiplies %r' % w)
            return pr
        I = ctx.interp(st, over={'Field::multiplicative_inverse': inv, 'Mul::mul': mul})
        return I.dispatch(T, 'Div', [T], 'div', [], [x, y])
    rs = ctx.explore({}, run)
    for st, res in rs:
        ctx.checks += 1
        if res[0] == 'ok' and res[1].f[0].what != 'prod': raise Refuted('division does not return the product')
    ctx.concrete(sorted(r[1][0] for r in rs) == ['ok', 'panic'], 'division: value for an invertible divisor, panic for zero')

def obligations(crates, tier):
    obs = []
    for f in FIELDS:
        obs.append(Ob('%s::nonzero_multiplicative_inverse' % f, lambda ctx, f=f: inverse_ob(ctx, f), timeout=300))
        obs.append(Ob('%s::multiplicative_inverse_assuming_nonzero' % f, lambda ctx, f=f: monty_inv_ob(ctx, f), timeout=300))
        obs.append(Ob('%s::div' % f, lambda ctx, f=f: div_ob(ctx, f)))
    for n in (4, 6): obs.append(Ob('bigint::is_even/is_odd<%d>' % n, lambda ctx, n=n: parity_ob(ctx, n)))
    from contracts import C01
    o1 = []; C01.helper_obs(o1); obs += [o for o in o1 if 'mul2' not in o.name]
    def minv(ctx):
        def run(st):
            I = ctx.interp(st); st.x = st.fe('F', 'x')
            return trait_default(I, 'Field', 'multiplicative_inverse', F, [Ref([st.x], 0)])
        for st, res in ctx.explore(absfield(crates), run):
            ctx.no_panic(st, res, 'multiplicative_inverse')
            z = st.fs('F').status(st.x.p) == 'zero'
            ctx.concrete((res[1].var == 'None') == z, 'None exactly for zero')
            if not z: ctx.zero(st, 'F', P.sub(P.mul(res[1].f[0].p, st.x.p), P.const(1)), 'x * inverse = 1')
    obs.append(Ob('Field::multiplicative_inverse', minv))
    for n in range(0, 7 if tier == 'quick' else 13):
        def batch(ctx, n=n):
            def run(st):
                I = ctx.interp(st); xs = [st.fe('F', 'x%d' % i) for i in range(n)]
                for x in xs: st.fs('F').assume_nonzero(x.p)
                st.xs = xs
                return trait_default(I, 'Field', 'batch_multiplicative_inverse', F, [SliceRef(list(xs), 0, n)], {'F': F})
            for st, res in ctx.explore(absfield(crates), run):
                ctx.no_panic(st, res, 'batch inverse'); l = lst(res[1])
                ctx.concrete(len(l) == n, 'length')
                for x, y in zip(st.xs, l): ctx.zero(st, 'F', P.sub(P.mul(x.p, y.p), P.const(1)), 'batch inverse')
        obs.append(Ob('Field::batch_multiplicative_inverse n=%d' % n, batch, bounded='list length %d, all nonzero values' % n))
    for n in range(0, 5 if tier == 'quick' else 7):
        def opt(ctx, n=n):
            def run(st):
                I = ctx.interp(st); xs = [st.fe('F', 'x%d' % i) for i in range(n)]; st.xs = xs
                return trait_default(I, 'Field', 'batch_multiplicative_inverse_opt', F, [SliceRef(list(xs), 0, n)], {'F': F})
            for st, res in ctx.explore(absfield(crates), run):
                ctx.no_panic(st, res, 'batch inverse opt'); l = lst(res[1])
                ctx.concrete(len(l) == n, 'length')
                for x, y in zip(st.xs, l):
                    z = st.fs('F').status(x.p) == 'zero'
                    ctx.concrete((y.var == 'None') == z, 'None exactly for zero')
                    if not z: ctx.zero(st, 'F', P.sub(P.mul(x.p, y.f[0].p), P.const(1)), 'batch inverse opt')
        obs.append(Ob('Field::batch_multiplicative_inverse_opt n=%d' % n, opt, bounded='list length %d, all values' % n))
    return obs
