from contracts.formal import *
FUNCTIONS = ['halo_n', 'halo_n_mul', 'AffinePoint::endomorphism', 'HaloCurve::ZETA, HaloCurve::ZETA_SCALAR of the four endomorphism curves']
EXPLAIN = ('Bits are symbolic 0/1 atoms and both sides of every bit test are joined, so one path covers all bit strings of a length. halo_n_mul is interpreted over formal points with the endomorphism as a formal operator; '
           'its result must be a*phi(P) + b*P with the same integer polynomials a, b that halo_n forms. phi = [ZETA_SCALAR] on each curve is a separate obligation on the constants.')
ASSUMPTIONS = ['group operations meet their contracts (C07, C08)', 'a group homomorphism agreeing with [ZETA_SCALAR] on a generator of the prime-order group agrees everywhere']
KEY = 'plonk_util-'

def enc(ctx, lens):
    for n in lens:
        def run(st):
            bits = [st.int_atom('s%d' % i, 0, 1).p for i in range(n)]; st.bits = bits
            z = st.fe('S', 'zeta')
            st.z = z
            I = ctx.interp(st, over=group_over(), merge=gmerge, **curve_cfg(Opaque('A'), Opaque('B'), consts={('C', 'ZETA_SCALAR'): z, ('C', 'ZETA'): st.fe('F', 'zetab')}))
            bl = [m.b01(b) for b in bits]
            h = own_body(I, KEY + 'halo_n', {'C': CURVE}, [SliceRef(bl, 0, n)])
            q = own_body(I, KEY + 'halo_n_mul', {'C': CURVE}, [SliceRef(list(bl), 0, n), gbasis('P', 'A')])
            # reference: a, b of Algorithm 2
            a = b = {}
            for i in range(0, n, 2):
                s = P.sub(P.scale(bits[i], 2), P.const(1)); hi = bits[i+1]
                a = P.add(P.scale(a, 2), P.mul(hi, s)); b = P.add(P.scale(b, 2), P.mul(P.sub(P.const(1), hi), s))
            st.a, st.b = a, b
            st.lift = lambda p: m.lift(I, 'S', SI(p))
            return h, q
        rs = ctx.explore({'F': FieldInfo('F'), 'S': FieldInfo('S')}, run, max_paths=200)
        if not rs: raise Unsupported('no path')
        for st, res in rs:
            ctx.no_panic(st, res, 'halo_n of %d bits' % n)
            h, q = res[1]; q = pt(q)
            ctx.zero(st, 'S', P.sub(h.p, P.add(P.mul(st.lift(st.a), st.z.p), st.lift(st.b))), 'halo_n of %d bits is a*zeta + b' % n)
            for nm, w in (('phi P', st.a), ('P', st.b)):
                ctx.checks += 1
                d = P.sub(q.d.get(nm, {}), w)
                if len(rs) > 1: d = pin(st, d)
                # bits are idempotent
                e = {}
                for mo, c in d.items():
                    k = tuple((x, 1) for x, _ in mo); e[k] = e.get(k, 0) + c
                e = {k: c for k, c in e.items() if c}
                if e:
                    k = min(e, key=len); on = {x for x, _ in k}
                    asg = {st.aname(x): int(x in on) for x in sorted(P.atoms(w) | P.atoms(d))}
                    if len(rs) == 1: raise Refuted('halo_n_mul of %d bits: coefficient of %s differs from halo_n' % (n, nm), asg)
                    raise Undischarged('halo_n_mul of %d bits: coefficient of %s' % (n, nm))
            ctx.concrete(set(q.d) <= {'P', 'phi P'}, 'halo_n_mul combines P and phi(P)')

def endo(ctx):
    def run(st):
        z, x, y = st.fe('F', 'zeta'), st.fe('F', 'x'), st.fe('F', 'y'); st.v = (z, x, y)
        I = ctx.interp(st, **curve_cfg(st.fe('F', 'A'), st.fe('F', 'B'), consts={('C', 'ZETA'): z}))
        return [I.inherent(APT, 'endomorphism', [], [Ref([aff(x, y, i)], 0)])[0] for i in (False, True)]
    for st, res in ctx.explore({'F': FieldInfo('F')}, run):
        ctx.no_panic(st, res, 'endomorphism'); p, q = res[1]; z, x, y = st.v
        ctx.concrete(p.f[2] is False and q.f[2] is True, 'the endomorphism maps only the identity to the identity', {})
        ctx.zero(st, 'F', P.sub(p.f[0].p, P.mul(z.p, x.p)), 'x of the image'); ctx.zero(st, 'F', P.sub(p.f[1].p, y.p), 'y of the image')

def obligations(crates, tier):
    L = [0, 2, 4, 6, 8, 10, 16, 30, 62, 64, 66, 128, 130, 254, 256]
    obs = [Ob('AffinePoint::endomorphism', endo)]
    for i in range(5): obs.append(Ob('halo_n = halo_n_mul, lengths %s' % L[i::5], lambda ctx, i=i: enc(ctx, L[i::5]), bounded='bit strings of length %s, all bits' % L[i::5], timeout=200))
    from contracts import C04
    for o in C04.obligations(crates, tier):
        if 'curve' in o.name.lower() or any(c in o.name for c in ('Tweedledee constants', 'Pallas', 'Vesta', 'Tweedledum')):
            if 'Base' not in o.name and 'Scalar' not in o.name: obs.append(o)
    return obs
