"""Path state: decisions, integer constraints (z3), field relations (own algebra)."""
import time
from fractions import Fraction
import z3
from . import poly as P
from .values import *

STATS = {'z3_queries': 0, 'z3_s': 0.0, 'z3_unknown': 0, 'field_queries': 0, 'field_s': 0.0}

class FieldInfo:
    def __init__(s, fid, p=None, consts=None):
        s.fid = fid; s.p = p; s.consts = consts or {}

class FState:
    """algebraic facts about one field on the current path"""
    def __init__(s, st, info):
        s.st = st; s.info = info; s.p = info.p
        s.subs = {}        # atom -> poly
        s.rules = []       # (atom, exp, poly): atom^exp -> poly
        s.nz = []          # known nonzero, normalised
        s.inv = {}         # inverse atom -> base poly (normalised at creation)
        s.invof = {}       # key(base) -> inverse atom
        s.extra = []       # relations that could not be oriented

    def red(s, p):
        if s.p: return P.mod({m: (c if not isinstance(c, Fraction) else c.numerator * pow(c.denominator, -1, s.p)) for m, c in p.items()}, s.p)
        for c in p.values():
            if isinstance(c, Fraction) and c.denominator == 1:
                return {m: (int(c) if isinstance(c, Fraction) and c.denominator == 1 else c) for m, c in p.items()}
        return p

    def cinv(s, c):
        if s.p: return pow(c, -1, s.p)
        return Fraction(1) / c

    def norm(s, p):
        for _ in range(50):
            changed = False
            if s.subs:
                hit = P.atoms(p) & s.subs.keys()
                for a in sorted(hit, reverse=True):
                    p = P.subst(p, a, s.subs[a]); changed = True
            for a, e, q in s.rules:
                if P.degree_in(p, a) >= e:
                    cs = P.coeffs_in(p, a); r = {}
                    for k, c in cs.items():
                        n, rest = divmod(k, e)
                        t = P.mul(c, P.pw(q, n)) if n else c
                        if rest: t = P.mul(t, {((a, rest),): 1})
                        r = P.add(r, t)
                    p = r; changed = True
            p = s.red(p)
            # i*x -> 1 for single-atom bases
            if s.inv:
                q = {}
                hit = False
                for m, c in p.items():
                    if len(m) > 1:
                        d = dict(m); ch = False
                        for a in list(d):
                            b = s.inv.get(a)
                            if b is not None and a in d and len(b) == 1:
                                (bm, bc), = b.items()
                                if len(bm) == 1 and bm[0][1] == 1 and bm[0][0] in d:
                                    x = bm[0][0]; k = min(d[a], d[x])
                                    for y in (a, x):
                                        d[y] -= k
                                        if d[y] == 0: del d[y]
                                    c = c * (s.cinv(bc)**k if bc != 1 else 1); ch = True
                        if ch: m = tuple(sorted(d.items())); hit = True
                    q[m] = q.get(m, 0) + c
                if hit:
                    p = s.red({m: c for m, c in q.items() if c}); changed = True
            if not changed: break
        return p

    def clear(s, p):
        """numerator: multiply by the bases of all inverse atoms until none is left"""
        p = s.norm(p)
        for _ in range(60):
            ia = [a for a in P.atoms(p) if a in s.inv]
            if not ia: return p
            a = max(ia)
            x = s.norm(s.inv[a])
            cs = P.coeffs_in(p, a); K = max(cs)
            r = {}
            pw = {0: {(): 1}}
            for j in range(1, K+1): pw[j] = P.mul(pw[j-1], x)
            for k, c in cs.items(): r = P.add(r, P.mul(c, pw[K-k]))
            p = s.norm(r)
        raise Unsupported('clear')

    def intify(s, p):
        if s.p or not p: return p
        den = 1
        from math import lcm
        for c in p.values():
            if isinstance(c, Fraction): den = lcm(den, c.denominator)
        return {m: int(c*den) for m, c in p.items()}

    def strip(s, p):
        """divide by known nonzero polynomials"""
        for q in s.nz:
            qq = s.clear(q)
            if P.isconst(qq): continue
            while True:
                if P.isconst(p): break
                d = s.divexact(p, qq)
                if d is None: break
                p = d
        return p

    def divexact(s, p, q):
        if s.p:
            # make q monic-ish in the field is not needed: use field division
            return fdivexact(p, q, s.p)
        return fdivexact(s.intify(p), s.intify(q), None)

    def status(s, p):
        """'zero' / 'nonzero' / None"""
        t = time.time(); STATS['field_queries'] += 1
        try:
            p = s.clear(p)
            if not p: return 'zero'
            if P.isconst(p): return 'nonzero'
            q = s.strip(p)
            if P.isconst(q): return 'nonzero'
            # a factor of a nonzero polynomial
            for n in s.nz:
                if len(n) >= len(q) and P.atoms(q) <= P.atoms(n):
                    n = s.clear(n)
                    if s.divexact(n, q) is not None: return 'nonzero'
            if s.extra and s.in_ideal(p): return 'zero'
            return None
        finally: STATS['field_s'] += time.time() - t

    def in_ideal(s, p):
        import sympy as sp
        rels = [s.clear(r) for r in s.extra]
        ats = sorted(set().union(P.atoms(p), *[P.atoms(r) for r in rels]))
        if len(ats) > 14: return False
        syms = {a: sp.Symbol('a%d' % a) for a in ats}
        def tosp(q):
            q = s.intify(q)
            return sp.Add(*[c*sp.Mul(*[syms[a]**e for a, e in m]) for m, c in q.items()])
        # saturate by nonzero facts
        extra = []; gens = [syms[a] for a in reversed(ats)]
        try:
            kw = {'modulus': s.p} if s.p else {}
            G = sp.groebner([tosp(r) for r in rels if r], *gens, order='grevlex', **kw)
            if G.contains(tosp(p)): return True
            nz = [s.clear(q) for q in s.nz]
            nz = [q for q in nz if not P.isconst(q) and P.atoms(q) <= set(ats)]
            if nz:
                u = sp.Symbol('u')
                pr = sp.Mul(*[tosp(q) for q in nz])
                G = sp.groebner([tosp(r) for r in rels if r] + [u*pr - 1], u, *gens, order='grevlex', **kw)
                return G.contains(tosp(p))
        except Exception: pass
        return False

    def inverse(s, p):
        """inverse of a polynomial known (or assumed by the caller) to be nonzero"""
        p = s.norm(p)
        if P.isconst(p):
            return P.const(s.cinv(P.cval(p)))
        if len(p) == 1:
            (m, c), = p.items()
            r = P.const(s.cinv(c))
            for a, e in m:
                if a in s.inv: r = P.mul(r, P.pw(s.inv[a], e))
                else: r = P.mul(r, P.pw(P.atom(s.inv_atom({((a, 1),): 1})), e))
            return s.norm(r)
        # leading coefficient normalisation to share inverses
        k = s.content_norm(p)
        base, c = k
        return s.red(P.scale(P.atom(s.inv_atom(base)), s.cinv(c)))

    def content_norm(s, p):
        l = P.lead(p); c = p[l]
        if s.p:
            return s.red(P.scale(p, pow(c, -1, s.p))), c
        q = s.intify(p)
        g = P.content(q)
        if q[l] < 0: g = -g
        b = {m: v // g for m, v in q.items()}
        return b, Fraction(p[l]) / b[l]

    def inv_atom(s, base):
        k = P.key(base)
        if k in s.invof: return s.invof[k]
        a = s.st.new_atom('inv(%s)' % P.show(base, s.st.aname)); s.st.atomfield[a] = s.info.fid
        s.inv[a] = base; s.invof[k] = a
        return a

    def assume_nonzero(s, p):
        q = s.clear(p)
        if not q: raise Infeasible()
        if not P.isconst(q): s.nz.append(q)

    def assume_zero(s, p):
        p = s.clear(p)
        if not p: return
        if P.isconst(p): raise Infeasible()
        p = s.strip(p)
        if P.isconst(p): raise Infeasible()
        # factor
        fs = s.factor(p)
        if len(fs) > 1:
            for f in fs[:-1]:
                if s.st.decide(SB('fz', s.info.fid, f)): return
            return s.assume_zero(fs[-1])
        p = fs[0]
        s.orient(p)

    def factor(s, p):
        if len(p) > 40 or sum(1 for _ in P.atoms(p)) > 10: return [p]
        if len(p) == 1:
            (m, c), = p.items()
            return [P.atom(a) for a, e in m]
        # common monomial
        common = None
        for m in p:
            d = dict(m)
            common = d if common is None else {a: min(e, d[a]) for a, e in common.items() if a in d}
        if common:
            r = {}
            for m, c in p.items():
                d = dict(m)
                for a, e in common.items():
                    d[a] -= e
                    if not d[a]: del d[a]
                r[tuple(sorted(d.items()))] = c
            return [P.atom(a) for a in common] + s.factor(r)
        if all(any(P.degree_in(p, a) == 1 and P.isconst(P.coeffs_in(p, a)[1]) for a in P.atoms(p)) for _ in (0,)):
            return [p]
        import sympy as sp
        ats = sorted(P.atoms(p))
        syms = {a: sp.Symbol('a%d' % a) for a in ats}
        q = s.intify(p)
        if s.p:
            q = {m: (c if c < s.p // 2 else c - s.p) for m, c in q.items()}
        e = sp.Add(*[c*sp.Mul(*[syms[a]**k for a, k in m]) for m, c in q.items()])
        try: _, fl = sp.factor_list(e)
        except Exception: return [p]
        out = []
        rev = {v: k for k, v in syms.items()}
        for f, k in fl:
            pp = sp.Poly(f, *[syms[a] for a in ats])
            d = {}
            for mon, c in pp.terms():
                d[tuple((a, x) for a, x in zip(ats, mon) if x)] = int(c)
            out.append(s.red(d))
        return out or [p]

    def orient(s, p):
        # linear with constant coefficient
        best = None; ruled = {b for b, _, _ in s.rules}
        for a in sorted(P.atoms(p) - ruled, reverse=True) + sorted(P.atoms(p) & ruled, reverse=True):
            if a in s.inv: continue
            if best is not None and a in ruled: break
            if P.degree_in(p, a) == 1:
                cs = P.coeffs_in(p, a)
                c = cs[1]
                if P.isconst(c): best = (0, a, cs); break
                if best is None and s.status(c) == 'nonzero': best = (1, a, cs)
        if best:
            _, a, cs = best
            r = P.neg(cs.get(0, {}))
            q = s.red(P.mul(r, s.inverse(cs[1])))
            s.subs = {b: s.red(P.subst(v, a, q)) for b, v in s.subs.items()}
            s.subs[a] = q
            for b in list(s.inv): s.inv[b] = s.norm(s.inv[b])
            s.rules = [(b, e, s.norm(v)) if b != a else None for b, e, v in s.rules]
            lost = [1 for r in s.rules if r is None]
            if lost:
                raise Unsupported('substituted a rule variable')
            for q in s.nz:
                if not s.clear(q): raise Infeasible()
            return
        # pure power of an atom
        for a in sorted(P.atoms(p), reverse=True):
            if a in s.inv: continue
            e = P.degree_in(p, a)
            cs = P.coeffs_in(p, a)
            if P.isconst(cs[e]) and not any(b == a for b, _, _ in s.rules):
                q = P.scale(P.neg(P.sub(p, {((a, e),): P.cval(cs[e])})), s.cinv(P.cval(cs[e])))
                if P.degree_in(q, a) == 0:
                    s.rules.append((a, e, s.red(q)))
                    return
        s.extra.append(p)

def fdivexact(p, q, mod):
    if not p: return {}
    ats = sorted(P.atoms(p) | P.atoms(q))
    if not P.atoms(q) <= P.atoms(p): return None
    idx = {a: i for i, a in enumerate(ats)}
    def vec(m):
        v = [0]*len(ats)
        for a, e in m: v[idx[a]] = e
        return tuple(v)
    A_ = {vec(m): c for m, c in p.items()}; Q = {vec(m): c for m, c in q.items()}
    # degree pre-check
    for i in range(len(ats)):
        if max(v[i] for v in Q) > max(v[i] for v in A_): return None
    lq = max(Q); cq = Q[lq]; R = {}; steps = 0
    ci = pow(cq, -1, mod) if mod else None
    while A_:
        lp = max(A_)
        d = tuple(x-y for x, y in zip(lp, lq))
        if min(d, default=0) < 0: return None
        if mod: c = A_[lp]*ci % mod
        else:
            c = Fraction(A_[lp], cq)
        R[d] = c
        for m, k in Q.items():
            n = tuple(x+y for x, y in zip(m, d))
            v = A_.get(n, 0) - c*k
            if mod: v %= mod
            if v: A_[n] = v
            else: A_.pop(n, None)
        steps += 1
        if steps > 3000: return None
    r = {tuple((a, e) for a, e in zip(ats, v) if e): c for v, c in R.items()}
    if not mod:
        r = {m: (int(c) if c.denominator == 1 else c) for m, c in r.items()}
    return r


ZTO = [8000]
class State:
    def __init__(s, fields=None, prefix=(), z3_timeout=None):
        s.names = {}; s.natom = 0
        s.rng = {}              # int atom -> (lo, hi)
        s.fields = {}
        s.finfo = fields or {}
        s.dec = list(prefix); s.pos = 0
        s.pending = []
        s.solver = None; s.cons = []; s.zv = {}; s.zto = z3_timeout or ZTO[0]
        s.divs = {}; s.bitsof = {}; s.idefs = {}; s.atomfield = {}
        s.trace = []
        s.notes = []
        s.ucache = {}
        s.steps = 0

    # ---- atoms
    def new_atom(s, name):
        s.natom += 1; s.names[s.natom] = name; return s.natom
    def aname(s, a): return s.names.get(a, 'a%d' % a)
    def fs(s, fid):
        if fid not in s.fields: s.fields[fid] = FState(s, s.finfo[fid])
        return s.fields[fid]
    def fe(s, fid, name):
        a = s.new_atom(name); s.atomfield[a] = fid
        return FE(fid, P.atom(a))
    def fconst(s, fid, c):
        p = s.finfo[fid].p
        return FE(fid, P.const(c % p if p else c))
    def int_atom(s, name, lo, hi):
        a = s.new_atom(name); s.rng[a] = (lo, hi); return SI(P.atom(a))
    def bool_atom(s, name):
        return SB('b01', s.int_atom(name, 0, 1).p)
    def bitint(s, name, n):
        """n-bit integer given by fresh bits"""
        bs = [s.int_atom('%s.%d' % (name, i), 0, 1).p for i in range(n)]
        r = {}
        for i, b in enumerate(bs): r = P.add(r, P.scale(b, 1 << i))
        return SI(r, bs)

    # ---- field ops
    def fz(s, fid, p):
        f = s.fs(fid)
        st = f.status(p)
        if st == 'zero': return True
        if st == 'nonzero': return False
        return SB('fz', fid, f.clear(p))

    # ---- integer bounds
    def bounds(s, p):
        lo = hi = 0
        for m, c in p.items():
            l = h = 1
            for a, e in m:
                al, ah = s.rng[a]
                if al is None or ah is None: return (None, None)
                for _ in range(e):
                    xs = (l*al, l*ah, h*al, h*ah); l = min(xs); h = max(xs)
            if c > 0: lo += c*l; hi += c*h
            else: lo += c*h; hi += c*l
        return lo, hi

    def expand(s, p):
        """replace defined integer atoms by their (fully expanded) definitions"""
        r = {}
        for m, c in p.items():
            t = {(): c}
            if any(a in s.idefs for a, _ in m):
                for a, e in m:
                    d = s.idefs.get(a)
                    t = P.mul(t, P.pw(d, e) if d is not None else {((a, e),): 1})
            else: t = {m: c}
            for k, v in t.items():
                x = r.get(k, 0) + v
                if x: r[k] = x
                else: r.pop(k, None)
        return r

    def resolve(s, p, keep=()):
        """replace integer atoms with small range that the path forces to one value"""
        for a in sorted(P.atoms(p)):
            if a in keep: continue
            lo, hi = s.rng.get(a, (None, None))
            if lo is None or hi - lo > 8: continue
            x = P.atom(a)
            while lo < hi and s.unsat('ge0', P.sub(P.const(lo), x)): lo += 1
            while hi > lo and s.unsat('ge0', P.sub(x, P.const(hi))): hi -= 1
            if lo == hi: p = P.subst(p, a, P.const(lo))
        return p

    def zterm(s, m):
        v = s.zv.get(m)
        if v is None:
            v = z3.Real('m_' + '_'.join('%dp%d' % t for t in m)) if m else None
            s.zv[m] = v
            lo, hi = s.bounds({m: 1})
            if lo is not None: s.zsolver().add(v >= lo, v <= hi)
            if len(m) == 2 or (len(m) == 1 and m[0][1] == 2):
                x, y = (m[0][0], m[1][0]) if len(m) == 2 and m[0][1] == m[1][1] == 1 else ((m[0][0], m[0][0]) if len(m) == 1 else (None, None))
                if x is not None:
                    xl, xh = s.rng[x]; yl, yh = s.rng[y]
                    if None not in (xl, xh, yl, yh):
                        zx = s.zterm(((x, 1),)); zy = s.zterm(((y, 1),))
                        S = s.zsolver()
                        S.add(v <= xh*zy + yl*zx - xh*yl, v <= xl*zy + yh*zx - xl*yh, v >= xl*zy + yl*zx - xl*yl, v >= xh*zy + yh*zx - xh*yh)
        return v
    def zexpr(s, p):
        e = []
        for m, c in p.items():
            e.append(z3.RealVal(c) if m == () else (s.zterm(m) * z3.RealVal(c) if c != 1 else s.zterm(m)))
        if not e: return z3.RealVal(0)
        return z3.Sum(e) if len(e) > 1 else e[0]
    def zsolver(s):
        if s.solver is None:
            s.solver = z3.SolverFor('QF_LRA'); s.solver.set('timeout', s.zto)
            cs = s.cons; s.cons = []
            for c in cs: s.add_con(*c)
        return s.solver
    def add_con(s, rel, p):
        s.cons.append((rel, p))
        z = s.zexpr(p)
        s.zsolver().add(z >= 0 if rel == 'ge0' else z == 0)
    def unsat(s, rel, p):
        """is (constraints and p rel 0) unsatisfiable?  True / False / None(unknown)"""
        t = time.time()
        S = s.zsolver(); z = s.zexpr(p)
        S.push()
        S.add({'ge0': z >= 0, 'lt0': z <= -1, 'eq0': z == 0, 'ne0': z3.Or(z <= -1, z >= 1)}[rel])
        r = S.check()
        S.pop()
        STATS['z3_queries'] += 1; STATS['z3_s'] += time.time() - t
        if r == z3.unsat: return True
        if r == z3.sat: return False
        STATS['z3_unknown'] += 1
        return None
    def ge0(s, p):
        """True/False if decided on this path, else None"""
        if P.isconst(p): return P.cval(p) >= 0
        lo, hi = s.bounds(p)
        if lo is not None and lo >= 0: return True
        if hi is not None and hi < 0: return False
        if s.unsat('lt0', p): return True
        if s.unsat('ge0', p): return False
        return None
    def eq0(s, p):
        if P.isconst(p): return P.cval(p) == 0
        lo, hi = s.bounds(p)
        if lo is not None and (lo > 0 or hi < 0): return False
        if s.unsat('ne0', p): return True
        if s.unsat('eq0', p): return False
        return None
    def proves_ge0(s, p):
        if P.isconst(p): return P.cval(p) >= 0
        lo, hi = s.bounds(p)
        if lo is not None and lo >= 0: return True
        return s.unsat('lt0', p) is True

    # ---- booleans
    def truth(s, b):
        """decided truth value or None"""
        if isinstance(b, bool): return b
        k = b.k
        if k == 'not':
            t = s.truth(b.a[0]); return None if t is None else not t
        if k == 'and':
            x = s.truth(b.a[0])
            if x is False: return False
            y = s.truth(b.a[1])
            if y is False: return False
            return True if x and y else None
        if k == 'or':
            x = s.truth(b.a[0])
            if x is True: return True
            y = s.truth(b.a[1])
            if y is True: return True
            return False if x is False and y is False else None
        if k == 'fz':
            r = s.fz(b.a[0], b.a[1]); return r if isinstance(r, bool) else None
        if k == 'ge0': return s.ge0(b.a[0])
        if k == 'eq0': return s.eq0(b.a[0])
        if k == 'b01': return s.ge0(P.sub(b.a[0], P.const(1)))
        if k == 'u': return s.ucache.get(b.a[0])
        raise Unsupported('truth ' + k)
    def assume(s, b, val=True):
        if isinstance(b, bool):
            if b != val: raise Infeasible()
            return
        k = b.k
        if k == 'not': return s.assume(b.a[0], not val)
        if k == 'fz':
            f = s.fs(b.a[0])
            return f.assume_zero(b.a[1]) if val else f.assume_nonzero(b.a[1])
        if k == 'ge0':
            return s.add_con('ge0', b.a[0] if val else P.sub(P.neg(b.a[0]), P.const(1)))
        if k == 'eq0':
            if val: return s.add_con('eq0', b.a[0])
            z = s.zexpr(b.a[0]); s.zsolver().add(z3.Or(z <= -1, z >= 1)); return
        if k == 'b01':
            p = b.a[0]
            return s.add_con('eq0', P.sub(p, P.const(1)) if val else p)
        if k == 'u':
            s.ucache[b.a[0]] = val; return
        if (k == 'and' and val) or (k == 'or' and not val):
            s.assume(b.a[0], val); s.assume(b.a[1], val); return
        raise Unsupported('assume ' + k)
    def decide(s, b):
        if isinstance(b, bool): return b
        if b.k == 'not': return not s.decide(b.a[0])
        if b.k == 'and': return s.decide(b.a[0]) and s.decide(b.a[1])
        if b.k == 'or': return s.decide(b.a[0]) or s.decide(b.a[1])
        t = s.truth(b)
        if t is not None: return t
        if s.pos < len(s.dec):
            v = s.dec[s.pos]
        else:
            v = True
            s.dec.append(True)
            s.pending.append(s.dec[:s.pos] + [False])
        s.pos += 1
        s.trace.append((b, v))
        s.assume(b, v)
        return v
    def choose(s, n):
        """nondeterministic choice 0..n-1"""
        for i in range(n-1):
            if s.pos < len(s.dec): v = s.dec[s.pos]
            else:
                v = True; s.dec.append(True); s.pending.append(s.dec[:s.pos] + [False])
            s.pos += 1
            if v: return i
        return n-1


def explore(fields, run, max_paths=2000, deadline=None):
    """runs `run(state)` on every path; returns list of (state, result) with result = ('ok', v) | ('panic', msg)
    Unsupported propagates."""
    out = []
    work = [[]]
    while work:
        pre = work.pop()
        st = State(fields, pre)
        try:
            r = ('ok', run(st))
        except Panic as e: r = ('panic', str(e))
        except Infeasible: r = None
        work.extend(st.pending)
        if r is not None: out.append((st, r))
        if len(out) > max_paths: raise Unsupported('more than %d paths' % max_paths)
        if deadline and time.time() > deadline: raise Unsupported('deadline')
    return out
