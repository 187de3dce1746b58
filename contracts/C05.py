from contracts.common import *
from engine.interp import loop_heads
FUNCTIONS = ['Field::exp', 'Field::exp_u32', 'Field::exp_usize', 'Field::kth_root', 'Field::kth_root_u32', 'Field::is_quadratic_residue', 'Field::square_root']
EXPLAIN = ('exp is interpreted with elements denoted as powers x^e, e an integer polynomial in the exponent\'s bits; both sides of every bit test are executed and joined, so one path covers all exponents of one bit length. '
           'kth_root is evaluated with the concrete order of each field up to the call of exp, whose exponent e must satisfy e*k = 1 mod (p-1). square_root is cut at its loop heads with the invariant x^2 = self * b.')
ASSUMPTIONS = ['Fermat/Euler: x^(p-1) = 1, x^((p-1)/2) = 1 iff x is a nonzero square (number theory, not machine-checked)', 'num_bits contract: the bit length of the canonical value (C06)', 'termination of square_root is not proved (replayed)']
X = ('absfield', 'X')
class Done(Infeasible): pass

def pw(e): return Opaque('pw', e)
def exp_of(v):
    v = m.dr(v)
    if isinstance(v, Opaque) and v.what == 'pw': return v.d
    raise Unsupported('a value that is not a power of the base: %r' % (v,))
def power_calls(st):
    def mul(I, T, a): return pw(P.add(exp_of(a[0]), exp_of(a[1])))
    def sq(I, T, a): return pw(P.scale(exp_of(a[0]), 2))
    def isone(I, T, a):
        e = exp_of(a[0])
        if not e: return True
        raise Unsupported('is_one of a power')
    return {'Mul::mul': mul, 'Field::square': sq, 'Field::is_one': isone, 'Field::cube': lambda I, T, a: pw(P.scale(exp_of(a[0]), 3))}
def merge(I, bit, t, f):
    if t is f: return t
    if isinstance(t, Opaque) and isinstance(f, Opaque) and t.what == f.what == 'pw':
        return pw(P.add(f.d, P.mul(bit, P.sub(t.d, f.d))))
    if m.conc(t) and m.conc(f) and t == f: return t
    if isinstance(t, (Ref, SliceRef, ItV)) and isinstance(f, type(t)): return t
    if isinstance(t, A) and isinstance(f, A) and t.tag == f.tag and t.var == f.var and len(t.f) == len(f.f):
        return A(t.tag, t.var, [merge(I, bit, x, y) for x, y in zip(t.f, f.f)], t.targs, t.names)
    if repr(t) == repr(f): return t
    return Opaque('unjoined')

def fcon(f): return {'BYTES': 8*FIELDS[f][1], 'BITS': FIELDS[f][2].bit_length()}

def exp_ob(ctx, n, lens):
    for k in lens:
        def run(st):
            bits = [st.int_atom('b%d' % i, 0, 1).p for i in range(k)]
            if k: bits[-1] = P.const(1)
            bits += [{}] * (64*n - k)
            e = {}
            for i, b in enumerate(bits): e = P.add(e, P.scale(b, 1 << i))
            st.e = e
            ls = [m.frombits(bits[64*i:64*i+64]) for i in range(n)]
            over = dict(power_calls(st))
            over['Field::num_bits'] = lambda I, T, a: k
            over['Field::to_canonical_u64_vec'] = lambda I, T, a: VecV(list(ls))
            over['Field::to_canonical_bool_vec'] = lambda I, T, a: VecV([m.b01(b) for b in bits])
            I = ctx.interp(st, over=over, merge=merge, consts={('X', 'ONE'): pw({})})
            return trait_default(I, 'Field', 'exp', X, [Ref([pw(P.const(1))], 0), Opaque('power')])
        rs = ctx.explore({'X': FieldInfo('X')}, run, max_paths=50)
        if not rs: raise Unsupported('no path of exp')
        for st, res in rs:
            ctx.no_panic(st, res, 'exp with a %d-bit exponent' % k)
            if not (isinstance(res[1], Opaque) and res[1].what == 'pw'): raise Unsupported('result of exp is %r' % (res[1],))
            ctx.checks += 1
            d = P.sub(res[1].d, st.e)
            if len(rs) > 1: d = pin(st, d)
            if d:
                # a concrete exponent for which the exponents differ
                import random
                rg = random.Random(3)
                for t in range(40):
                    asg = {a: rg.randint(0, 1) if t > 1 else t for a in P.atoms(d) | P.atoms(st.e)}
                    if len(rs) == 1 and sum(c * all(asg[a] for a, _ in mm) for mm, c in d.items()):
                        v = sum(c * all(asg[a] for a, _ in mm) for mm, c in st.e.items()); g = v + sum(c * all(asg[a] for a, _ in mm) for mm, c in d.items())
                        raise Refuted('x.exp(e) is another power of x', {'e': hex(v), 'got': hex(g) if g >= 0 else str(g)})
                raise Undischarged('exp with a %d-bit exponent: exponent of the result' % k)

def small_exp_ob(ctx):
    for nm, conv in (('exp_u32', 'from_canonical_u32'), ('exp_usize', 'from_canonical_usize')):
        def run(st):
            st.n = st.int_atom('n', 0, 2**32-1)
            def ex(I, T, a): return tup('exp', m.dr(a[0]).what, a[1])
            def cv(I, T, a): return A('conv', None, [a[0]])
            I = ctx.interp(st, over={'Field::exp': ex, 'Field::from_canonical_u32': cv, 'Field::from_canonical_usize': cv, 'Field::from_canonical_u64': cv})
            return trait_default(I, 'Field', nm, X, [Ref([Opaque('x')], 0), st.n])
        for st, res in ctx.explore({'X': FieldInfo('X')}, run):
            ctx.no_panic(st, res, nm); r = res[1]
            if not (isinstance(r, A) and r.f and r.f[0] == 'exp'): raise Unsupported('%s does not call exp' % nm)
            ctx.concrete(r.f[1] == 'x' and isinstance(r.f[2], A) and r.f[2].tag == 'conv' and m.ip(r.f[2].f[0]) == m.ip(st.n), '%s(n) is exp(n)' % nm)

def root_ob(ctx, f, ks):
    p = FIELDS[f][2]
    for fn in ('kth_root', 'kth_root_u32'):
        for k in ks:
            if fn == 'kth_root_u32' and k > 60: continue
            def run(st):
                def kr(I, T, a): return trait_default(I, 'Field', 'kth_root', F, a)
                def ex(I, T, a):
                    if m.dr(a[0]).d != P.const(1): raise Unsupported('exp of another base')
                    return pw(P.const(m.fconstval(I, a[1])))
                I = ctx.interp(st, over={'Field::kth_root': kr, 'Field::exp': ex, 'Field::is_zero': lambda I, T, a: I.st.choose(2) == 1 if not isinstance(m.dr(a[0]), FE) else m.fconstval(I, m.dr(a[0])) == 0})
                self_ = Ref([pw(P.const(1))], 0)
                return trait_default(I, 'Field', fn, F, [self_, k if fn == 'kth_root_u32' else st.fconst('F', k)])
            for st, res in ctx.explore({'F': FieldInfo('F', p, fcon(f))}, run):
                if res[0] == 'panic': raise Refuted('%s(%d) panics in %s' % (fn, k, f), {'k': k})
                if not isinstance(res[1], Opaque): raise Unsupported('result of kth_root')
                e = P.cval(res[1].d)
                ctx.concrete(e > 0 and e * k % (p-1) == 1, '%s(%d) in %s: exponent is the inverse of k modulo the group order' % (fn, k, f), {'k': k, 'e': hex(e)})

def qr_ob(ctx, f):
    p = FIELDS[f][2]; seen = []
    def run(st):
        x = st.fe('F', 'x'); st.x = x
        def ex(I, T, a):
            e = m.fconstval(I, a[1])
            if e is None or P.sub(m.dr(a[0]).p, x.p): raise Unsupported('exp with another base or a symbolic exponent')
            if e != (p-1)//2: raise Refuted('Euler criterion uses exponent %x' % e, {'exponent': hex(e)})
            if st.decide(st.fz('F', x.p)): st.case = 0; return st.fconst('F', 0)
            if st.choose(2) == 0: st.case = 1; return st.fconst('F', 1)
            st.case = -1; return st.fconst('F', p-1)
        st.case = None
        I = ctx.interp(st, over={'Field::exp': ex})
        return st.decide(trait_default(I, 'Field', 'is_quadratic_residue', F, [Ref([x], 0)]))
    for st, res in ctx.explore({'F': FieldInfo('F', p, fcon(f))}, run):
        ctx.no_panic(st, res, 'is_quadratic_residue')
        z = st.fs('F').status(st.x.p)
        if z == 'zero': ctx.concrete(res[1] is True, 'zero is a square'); seen.append(0)
        else:
            if st.case is None: raise Undischarged('is_quadratic_residue of a nonzero value without the Euler criterion')
            ctx.concrete(res[1] == (st.case == 1), 'true exactly for squares', {'x^((p-1)/2)': st.case}); seen.append(st.case)
    ctx.concrete(set(seen) == {0, 1, -1}, 'all three cases are reachable')

def sqrt_ob(ctx, f):
    p = FIELDS[f][2]
    key = None
    for c in ctx.crates:
        key = c.trait_keys.get('Field', {}).get('square_root') or key
    def run(st):
        x = st.fe('F', 'a'); st.x = x; st.qr = None; seen = {}
        def ex(I, T, a):
            b = m.dr(a[0])
            return st.fe('F', 'e')
        def qr(I, T, a):
            if P.sub(m.dr(a[0]).p, x.p): raise Unsupported('residuosity of another value')
            st.qr = st.choose(2) == 0; return st.qr
        def lp(I, Fr):
            body = Fr.body; nm = body.names; lh = loop_heads(body)
            if not lh: raise Unsupported('lost anchor: loops of square_root')
            if 'x' not in nm or 'b' not in nm: raise Unsupported('lost anchor: x, b')
            outer = [h for h in lh if all(h == g or h not in lh[g] for g in lh)]
            def inv(where):
                X_, B_ = Fr.L[nm['x']], Fr.L[nm['b']]
                ctx.checks += 1
                if st.fs('F').status(P.sub(P.mul(X_.p, X_.p), P.mul(x.p, B_.p))) != 'zero': raise Undischarged('invariant x^2 = self*b at %s' % where)
            def at(h):
                asg = set()
                for b_ in lh[h]:
                    ss, t = body.blocks[b_]
                    for s_ in ss:
                        if s_[0] == '=' and not s_[1][1]: asg.add(s_[1][0])
                    if t[0] == 'call' and not t[3][1]: asg.add(t[3][0])
                def g(I, Fr, bb):
                    inv('loop head')
                    if bb in seen: raise Done()
                    seen[bb] = 1
                    for i in sorted(asg):
                        v = Fr.L[i]
                        if isinstance(v, FE): Fr.L[i] = st.fe('F', 'h%d' % i)
                        elif m.isint(v) and not isinstance(v, bool): Fr.L[i] = st.int_atom('k%d' % i, 0, 2**63)
                        elif isinstance(v, ItV) and isinstance(v.it, m.SymRangeIt): v.it.cur = st.int_atom('r%d' % i, 0, 2**63)
                        elif isinstance(v, A) and v.tag == 'Range': v.f[0] = st.int_atom('r%d' % i, 0, 2**63)
                    if nm['x'] in asg or nm['b'] in asg:
                        # invariant assumed for arbitrary x: b = x^2 / a
                        Fr.L[nm['b']] = FE('F', st.fs('F').norm(P.mul(P.pw(Fr.L[nm['x']].p, 2), st.fs('F').inverse(x.p))))
                return g
            return {h: at(h) for h in lh}
        c = {'TWO_ADICITY': st.int_atom('S', 1, 100), 'T': st.fe('F', 'T'), 'MULTIPLICATIVE_SUBGROUP_GENERATOR': st.fe('F', 'g')}
        # w = a^((T-1)/2) enters only through w; kept arbitrary
        I = ctx.interp(st, over={'Field::exp': ex, 'Field::is_quadratic_residue': qr}, consts={('F', k): v for k, v in c.items()}, loops={key: lp})
        return trait_default(I, 'Field', 'square_root', F, [Ref([x], 0)])
    kinds = set()
    for st, res in ctx.explore({'F': FieldInfo('F')}, run):
        if res[0] == 'panic':
            if 'overflow' in res[1] or 'subtract' in res[1]: continue   # v - k - 1 and k + 1: part of termination, replayed
            ctx.no_panic(st, res, 'square_root')
        z = st.fs('F').status(st.x.p) == 'zero'; r = res[1]
        if z: ctx.concrete(r.var == 'Some', 'square root of zero exists'); ctx.zero(st, 'F', r.f[0].p, 'square root of zero'); kinds.add('zero'); continue
        if st.qr is None: raise Unsupported('square_root does not ask is_quadratic_residue')
        ctx.concrete((r.var == 'Some') == st.qr, 'Some exactly for squares'); kinds.add(r.var)
        if r.var == 'Some': ctx.zero(st, 'F', P.sub(P.mul(r.f[0].p, r.f[0].p), st.x.p), 'the square of the result is the input')
    if kinds != {'zero', 'Some', 'None'}: raise Unsupported('outcomes reached: %s' % sorted(kinds))

def obligations(crates, tier):
    import math
    obs = []
    N4 = list(range(0, 256)); N6 = list(range(0, 378))
    for i in range(16):
        obs.append(Ob('Field::exp, 4 limbs, bit lengths %d mod 16' % i, lambda ctx, i=i: exp_ob(ctx, 4, N4[i::16]), timeout=300, soft=True))
        obs.append(Ob('Field::exp, 6 limbs, bit lengths %d mod 16' % i, lambda ctx, i=i: exp_ob(ctx, 6, N6[i::16]), timeout=300, soft=True))
    obs.append(Ob('Field::exp_u32/exp_usize', small_exp_ob))
    for f in FIELDS:
        p = FIELDS[f][2]; ks = [k for k in range(1, 200 if tier == 'quick' else 2000) if math.gcd(k, p-1) == 1]
        obs.append(Ob('%s::kth_root' % f, lambda ctx, f=f, ks=ks: root_ob(ctx, f, ks), bounded='k coprime to p-1 and below %d' % (200 if tier == 'quick' else 2000), timeout=300))
        obs.append(Ob('%s::is_quadratic_residue' % f, lambda ctx, f=f: qr_ob(ctx, f)))
    obs.append(Ob('Field::square_root (partial correctness)', lambda ctx: sqrt_ob(ctx, 'TweedledeeBase'), soft=True))
    return obs
