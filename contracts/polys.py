"""Pieces shared by the polynomial contracts: the declared roots of unity, coefficient lists, reference algebra."""
from contracts.common import *

def roots(K):
    """call-site contract of primitive_root_of_unity (C05): the root of order 2^i is w^(2^(K-i)) for one w with w^(2^(K-1)) = -1"""
    def setup(st):
        if not hasattr(st, 'w'):
            st.w = st.fe('F', 'w')
            f = st.fs('F'); a = next(iter(P.atoms(st.w.p)))
            if K == 0: f.subs[a] = P.const(1)
            elif K == 1: f.subs[a] = P.const(-1)
            else: f.rules.append((a, 1 << (K-1), P.const(-1)))
        return st.w
    def over(I, T, a):
        w = setup(I.st); i = a[0]
        if not isinstance(i, int): raise Unsupported('root of unity of a symbolic order')
        if i > K: raise Unsupported('root of unity of order 2^%d' % i)
        return FE('F', wpow(I.st, 1 << (K-i), K).p)
    return setup, {'Field::primitive_root_of_unity': over}
def sl(l): return SliceRef(l, 0, len(l))
def wpow(st, e, K):
    """w^e in normal form"""
    if K == 0: return st.fconst('F', 1)
    h = 1 << (K-1); e %= 2*h; s = -1 if e >= h else 1; e %= h
    if e == 0: return st.fconst('F', s)
    return FE('F', P.scale({((next(iter(P.atoms(st.w.p))), e),): 1}, s))
def mulall(st, fid, a, b): return st.fs(fid).norm(P.mul(a, b))
def coefs(st, name, n): return [st.fe('F', '%s%d' % (name, i)) for i in range(n)]
def poly(l): return A('Polynomial', None, [VecV(list(l))], (F,))
def pl(v): return lst(m.dr(v).f[0])
POLY = ('adt', 'polynomial::Polynomial', [F])
def conv(a, b):
    r = [{} for _ in range(max(0, len(a)+len(b)-1))]
    for i, x in enumerate(a):
        for j, y in enumerate(b): r[i+j] = P.add(r[i+j], P.mul(x.p, y.p))
    return r
def npow2(n):
    k = 1
    while k < n: k *= 2
    return k
