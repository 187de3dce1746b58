"""Sparse polynomials with integer coefficients.  Atoms are small ints; a monomial is a sorted tuple of
(atom, exponent); a polynomial is a dict monomial -> int (no zero coefficients)."""

ONE = ()

def const(c): return {ONE: c} if c else {}
def atom(a): return {((a, 1),): 1}

def add(p, q):
    if len(p) < len(q): p, q = q, p
    if not q: return p
    r = dict(p)
    for m, c in q.items():
        v = r.get(m, 0) + c
        if v: r[m] = v
        else: del r[m]
    return r

def neg(p): return {m: -c for m, c in p.items()}

def sub(p, q):
    if not q: return p
    r = dict(p)
    for m, c in q.items():
        v = r.get(m, 0) - c
        if v: r[m] = v
        else: del r[m]
    return r

def scale(p, k):
    if k == 0: return {}
    if k == 1: return p
    return {m: c*k for m, c in p.items()}

def mmul(a, b):
    if not a: return b
    if not b: return a
    r = []; i = j = 0; la = len(a); lb = len(b)
    while i < la and j < lb:
        x = a[i]; y = b[j]
        if x[0] == y[0]: r.append((x[0], x[1]+y[1])); i += 1; j += 1
        elif x[0] < y[0]: r.append(x); i += 1
        else: r.append(y); j += 1
    r.extend(a[i:]); r.extend(b[j:])
    return tuple(r)

class TooBig(Exception): pass
LIMIT = 400000

def mul(p, q):
    if not p or not q: return {}
    if len(p) > len(q): p, q = q, p
    if len(p) == 1:
        (m, c), = p.items()
        if m == ONE: return scale(q, c)
        return {mmul(m, n): c*d for n, d in q.items()}
    if len(p) * len(q) > LIMIT * 20: raise TooBig()
    r = {}
    for m, c in p.items():
        for n, d in q.items():
            k = mmul(m, n)
            v = r.get(k, 0) + c*d
            r[k] = v
    return {m: c for m, c in r.items() if c}

def pw(p, n):
    r = {ONE: 1}
    while n:
        if n & 1: r = mul(r, p)
        n >>= 1
        if n: p = mul(p, p)
    return r

def mod(p, m):
    if not m: return p
    r = {}
    for k, c in p.items():
        c %= m
        if c: r[k] = c
    return r

def isconst(p): return not p or (len(p) == 1 and ONE in p)
def cval(p): return p.get(ONE, 0)
def atoms(p): return {a for m in p for a, _ in m}
def degree_in(p, a):
    d = 0
    for m in p:
        for x, e in m:
            if x == a and e > d: d = e
    return d

def coeffs_in(p, a):
    """dict exponent -> poly (without atom a)"""
    r = {}
    for m, c in p.items():
        e = 0; rest = m
        for i, (x, k) in enumerate(m):
            if x == a:
                e = k; rest = m[:i] + m[i+1:]; break
        r.setdefault(e, {})[rest] = c
    return r

def subst(p, a, q):
    """replace atom a by q"""
    cs = coeffs_in(p, a)
    if set(cs) <= {0}: return p
    r = cs.get(0, {})
    pwr = {0: {ONE: 1}}
    for e in sorted(cs):
        if e == 0: continue
        last = max(pwr)
        while last < e:
            pwr[last+1] = mul(pwr[last], q); last += 1
        r = add(r, mul(cs[e], pwr[e]))
    return r

def content(p):
    from math import gcd
    g = 0
    for c in p.values(): g = gcd(g, c)
    return g

def lead(p):
    """leading monomial, lex with bigger atom ids first is arbitrary but fixed: graded then lex"""
    return max(p, key=lambda m: (sum(e for _, e in m), m))

def key(p): return frozenset(p.items())

def show(p, nm=None):
    if not p: return '0'
    out = []
    for m, c in sorted(p.items(), key=lambda t: (-sum(e for _, e in t[0]), t[0])):
        s = '*'.join((nm(a) if nm else 'a%d' % a) + ('^%d' % e if e > 1 else '') for a, e in m)
        if not s: out.append(str(c))
        elif c == 1: out.append(s)
        elif c == -1: out.append('-' + s)
        else: out.append('%d*%s' % (c, s))
    t = ' + '.join(out)
    return t if len(t) < 4000 else t[:4000] + '...'

def divexact(p, q):
    """exact division p/q over Q-ish integers; returns None if not exact (lex order on atom-sorted monomials)."""
    if not p: return {}
    keyf = lambda m: tuple((-a, e) for a, e in m)
    # use lex order by expanding exponent vectors
    ats = sorted(atoms(p) | atoms(q))
    idx = {a: i for i, a in enumerate(ats)}
    def vec(m):
        v = [0]*len(ats)
        for a, e in m: v[idx[a]] = e
        return tuple(v)
    P = {vec(m): c for m, c in p.items()}
    Q = {vec(m): c for m, c in q.items()}
    lq = max(Q); cq = Q[lq]
    R = {}
    steps = 0
    while P:
        lp = max(P)
        d = tuple(x-y for x, y in zip(lp, lq))
        if min(d, default=0) < 0: return None
        c, rem = divmod(P[lp], cq)
        if rem: return None
        R[d] = c
        for m, k in Q.items():
            n = tuple(x+y for x, y in zip(m, d))
            v = P.get(n, 0) - c*k
            if v: P[n] = v
            else: P.pop(n, None)
        steps += 1
        if steps > 5000: return None
    return {tuple((a, e) for a, e in zip(ats, v) if e): c for v, c in R.items()}
