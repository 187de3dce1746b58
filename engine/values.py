"""Runtime values of the MIR interpreter."""
from . import poly as P

class Unsupported(Exception): pass
class Panic(Exception):
    """The code panics on this path."""
class Infeasible(Exception): pass

class A:
    """struct / tuple / enum variant"""
    __slots__ = ('tag', 'var', 'f', 'targs', 'names')
    def __init__(s, tag, var, f, targs=(), names=None): s.tag = tag; s.var = var; s.f = f; s.targs = targs; s.names = names
    def __repr__(s): return '%s%s%r' % (s.tag, '::' + s.var if s.var else '', s.f)

class Arr:
    __slots__ = ('l',)
    def __init__(s, l): s.l = l
    def __repr__(s): return 'Arr%r' % s.l

class VecV:
    __slots__ = ('l',)
    def __init__(s, l): s.l = l
    def __repr__(s): return 'Vec%r' % s.l

class BoxV:
    __slots__ = ('l',)
    def __init__(s, l): s.l = l
    def __repr__(s): return 'Box%r' % s.l

class RcV:
    __slots__ = ('l', 'tag')
    def __init__(s, l, tag='Rc'): s.l = l; s.tag = tag

class MapV:
    """HashMap: association list with structural keys (concrete keys only)"""
    __slots__ = ('d',)
    def __init__(s): s.d = {}       # hkey -> [key, value]
class SetV:
    __slots__ = ('d',)
    def __init__(s): s.d = {}

class Ref:
    __slots__ = ('c', 'i')
    def __init__(s, c, i): s.c = c; s.i = i
    def get(s): return s.c[s.i]
    def set(s, v): s.c[s.i] = v
    def __repr__(s): return '&%r' % (s.c[s.i],)

class SliceRef:
    __slots__ = ('l', 's', 'n')
    def __init__(s, l, st, n): s.l = l; s.s = st; s.n = n
    def items(s): return s.l[s.s:s.s+s.n] if isinstance(s.n, int) and isinstance(s.s, int) else s.l
    def __repr__(s): return '&%r' % s.items()

class ClosureV:
    __slots__ = ('key', 'up', 'env')
    def __init__(s, key, up, env): s.key = key; s.up = up; s.env = env

class FnV:
    __slots__ = ('path', 'env')
    def __init__(s, path, env): s.path = path; s.env = env

class ItV:
    """iterator wrapper"""
    __slots__ = ('it',)
    def __init__(s, it): s.it = it

class BigV:
    """BigUint: python int, or SI of unlimited range"""
    __slots__ = ('v',)
    def __init__(s, v): s.v = v
    def __repr__(s): return 'Big(%r)' % (s.v,)

class Opaque:
    __slots__ = ('what', 'd')
    def __init__(s, what, d=None): s.what = what; s.d = d
    def __repr__(s): return '<%s>' % s.what

UNINIT = Opaque('uninit')
def unit(): return A('()', None, [])
def tup(*xs): return A('()', None, list(xs))
def some(x): return A('Option', 'Some', [x])
def none(): return A('Option', 'None', [])
def ok(x): return A('Result', 'Ok', [x])
def err(x): return A('Result', 'Err', [x])
LESS, EQUAL, GREATER = -1, 0, 1
def ordering(i): return A('Ordering', ('Less', 'Equal', 'Greater')[i+1], [])

class FE:
    """element of an abstract (or named prime) field: polynomial in the field's atoms"""
    __slots__ = ('fid', 'p', 'can')
    def __init__(s, fid, p, can=None): s.fid = fid; s.p = p; s.can = can
    def __repr__(s): return 'FE(%s)' % P.show(s.p)

class SI:
    """symbolic machine integer: polynomial over integer atoms"""
    __slots__ = ('p', 'bits')
    def __init__(s, p, bits=None): s.p = p; s.bits = bits
    def __repr__(s): return 'SI(%s)' % P.show(s.p)

class SB:
    """symbolic boolean. kinds: ('b01', intpoly) ('ge0', intpoly) ('eq0', intpoly) ('fz', fid, poly)
       ('not', x) ('and', x, y) ('or', x, y) ('u', name)"""
    __slots__ = ('k', 'a')
    def __init__(s, k, *a): s.k = k; s.a = a
    def __repr__(s): return 'SB(%s %r)' % (s.k, s.a)

def cp(v):
    """copy of a value type"""
    t = type(v)
    if t is A: return A(v.tag, v.var, [cp(x) for x in v.f], v.targs, v.names)
    if t is Arr: return Arr([cp(x) for x in v.l])
    return v
