import re
"""Path-wise symbolic interpreter of the dumped MIR."""
import sys
from . import mirparse as M, poly as P
from .values import *
from .crate import last, LOCALS
from .state import State

sys.setrecursionlimit(200000)
WIDTH = {'u8': 8, 'u16': 16, 'u32': 32, 'u64': 64, 'u128': 128, 'usize': 64,
         'i8': 8, 'i16': 16, 'i32': 32, 'i64': 64, 'i128': 128, 'isize': 64, 'bool': 1}
STD_DISCR = {('Option', 'None'): 0, ('Option', 'Some'): 1, ('Result', 'Ok'): 0, ('Result', 'Err'): 1,
             ('Ordering', 'Less'): -1, ('Ordering', 'Equal'): 0, ('Ordering', 'Greater'): 1,
             ('ControlFlow', 'Continue'): 0, ('ControlFlow', 'Break'): 1,
             ('Entry', 'Occupied'): 0, ('Entry', 'Vacant'): 1, ('Cow', 'Borrowed'): 0, ('Cow', 'Owned'): 1}
STD_ENUMS = {'Option', 'Result', 'Ordering', 'ControlFlow', 'Entry', 'Cow'}

def tymm(w, signed=False):
    return (-(1 << (w-1)), (1 << (w-1)) - 1) if signed else (0, (1 << w) - 1)

class Frame:
    __slots__ = ('L', 'env', 'body', 'heads')

class Interp:
    """crates: list of Crate (first match wins). cfg: dict of
         assoc : {(curve or field name, assoc): type}     e.g. ('C','ScalarField') -> ('absfield','F')
         consts: {(type name, const name): value or callable(interp)}
         over  : {callee key: python function(interp, env, args)}    contracts used at call sites / models
    """
    def __init__(s, crates, st, cfg=None):
        s.crates = crates if isinstance(crates, list) else [crates]
        s.c = s.crates[0]; s.st = st; s.cfg = cfg or {}
        s.assoc = s.cfg.get('assoc', {}); s.consts = s.cfg.get('consts', {}); s.over = s.cfg.get('over', {})
        s.ccache = {}
        s.maxsteps = s.cfg.get('maxsteps', 4000000); s.steps = 0
        s.called = set()
        s.loops = s.cfg.get('loops', {})
        s.depth = 0
        from . import models
        s.m = models

    # ------------------------------------------------------------------ types
    def subst(s, t, env):
        k = t[0]
        if k == 'prim': return t
        if k == 'param': 
            if t[1] in env: return env[t[1]]
            return t
        if k == 'adt': return ('adt', t[1], [s.subst(a, env) for a in t[2]]) if t[2] else t
        if k == 'ref': return ('ref', t[1], s.subst(t[2], env))
        if k == 'ptr': return ('ptr', t[1], s.subst(t[2], env))
        if k == 'slice': return ('slice', s.subst(t[1], env))
        if k == 'array': return ('array', s.subst(t[1], env), s.sconst(t[2], env))
        if k == 'tuple': return ('tuple', [s.subst(a, env) for a in t[1]])
        if k == 'const': return ('const', s.sconst(t[1], env))
        if k == 'proj': return s.proj(s.subst(t[1], env), t[2], [s.subst(a, env) for a in t[3]], t[4])
        return t

    def sconst(s, c, env):
        if c[0] == 'cparam':
            v = env.get(c[1])
            if v is None: return c
            return v[1] if v[0] == 'const' else v
        if c[0] == 'uneval': return ('int', s.eval_const(c, env), ('prim', 'usize'))
        return c

    def proj(s, T, trait, targs, name):
        k = T[0]
        if k in ('abscurve', 'absfield'):
            v = s.assoc.get((T[1], name))
            if v is not None: return v
            if k == 'absfield' and name == 'Output': return T
        if k == 'ref' and name == 'Output': return s.proj(T[2], trait, targs, name)
        if k == 'adt':
            h = last(T[1])
            v = s.assoc.get((h, name))
            if v is not None: return v
            for c in s.crates:
                for im in c.impls.values():
                    if im is None or im.derive or name not in im.assoc: continue
                    if trait is not None and im.trait and im.trait[0] != last(trait): continue
                    b = {}
                    if s.unify(im.selfty, T, b, im) and (not im.trait or not targs or s.unify_list(im.trait[1], targs, b, im, T)):
                        b['Self'] = T
                        return s.subst(im.assoc[name], b)
            if h in ('Vec',) and name == 'Output': return T[2][0] if T[2] else T
        if k == 'prim' and name == 'Output': return T
        return ('proj', T, trait, targs, name)

    def unify_list(s, ps, ts, b, im, self_t=None):
        if len(ps) != len(ts):
            return not ps or not ts
        return all(s.unify(p, t, b, im, self_t) for p, t in zip(ps, ts))

    def unify(s, p, t, b, im, self_t=None):
        k = p[0]
        if k == 'param':
            n = p[1]
            if n == 'Self': return self_t is None or s.tyeq(self_t, t)
            if n in b: return s.tyeq(b[n], t)
            bd = dict(im.gens).get(n, '')
            if bd.startswith('Field') and not s.is_field(t): return False
            if ('Curve' in bd.split('<')[0].split(':')[0]) and bd and not s.is_curve(t): return False
            b[n] = t; return True
        if k == 'proj': return True
        if t[0] in ('param', 'proj', 'opaque'): return True if t[0] != 'param' else False
        if k == 'adt':
            return t[0] == 'adt' and last(p[1]) == last(t[1]) and (len(p[2]) != len(t[2]) or all(s.unify(x, y, b, im, self_t) for x, y in zip(p[2], t[2])))
        if k == 'const':
            if t[0] != 'const': return False
            if p[1][0] == 'cparam': b[p[1][1]] = t; return True
            return True
        if k != t[0]: return False
        if k == 'prim': return p[1] == t[1]
        if k == 'ref': return s.unify(p[2], t[2], b, im, self_t)
        if k == 'slice': return s.unify(p[1], t[1], b, im, self_t)
        if k == 'array':
            if p[2][0] == 'cparam': b[p[2][1]] = ('const', t[2])
            return s.unify(p[1], t[1], b, im, self_t)
        if k == 'tuple': return len(p[1]) == len(t[1]) and all(s.unify(x, y, b, im, self_t) for x, y in zip(p[1], t[1]))
        return True

    def tyeq(s, a, b):
        if a[0] in ('proj', 'opaque', 'closure') or b[0] in ('proj', 'opaque', 'closure'): return True
        if a[0] != b[0]: return False
        if a[0] == 'adt': return last(a[1]) == last(b[1]) and all(s.tyeq(x, y) for x, y in zip(a[2], b[2]))
        if a[0] in ('prim', 'param', 'absfield', 'abscurve'): return a[1] == b[1]
        if a[0] == 'ref': return s.tyeq(a[2], b[2])
        if a[0] == 'const': return a[1][:2] == b[1][:2]
        return True

    def is_field(s, t):
        if t[0] == 'absfield': return True
        if t[0] == 'adt':
            return any(im.trait and im.trait[0] == 'Field' and s.c.head(im.selfty) == last(t[1]) for im in s.c.by_trait.get('Field', []))
        return False
    def is_curve(s, t):
        if t[0] == 'abscurve': return True
        if t[0] == 'adt':
            return any(s.c.head(im.selfty) == last(t[1]) for im in s.c.by_trait.get('Curve', []))
        return False

    # ------------------------------------------------------------------ constants
    def eval_const(s, c, env):
        k = c[0]
        if k == 'int': return c[1]
        if k == 'zst':
            t = c[1]
            if t[0] == 'tuple': return unit()
            if t[0] == 'fndef': return FnV(t[3], env)
            if t[0] == 'adt': return A(last(t[1]), None, [], tuple(s.subst(a, env) for a in t[2]))
            return unit()
        if k == 'cparam':
            v = env[c[1]]
            v = v[1] if v[0] == 'const' else v
            return v[1]
        if k == 'str':
            t = c[2]
            if t[0] == 'ref' and t[2] == ('prim', 'str'): return c[1].decode('utf8', 'replace')
            l = list(c[1]); return SliceRef(l, 0, len(l))
        if k == 'uneval':
            _, crate, path, subs, pr = c[:5]
            return s.const_by_path(path, [s.subst(a, env) for a in (subs or [])], env)
        if k == 'scalarptr':
            if len(c) > 2 and 'Lazy' in repr(c[2]): return Ref(s.st.ucache.setdefault(('staticref', c[1]), [Opaque('ptr', c[1])]), 0)
            return Opaque('ptr', c[1])
        if k == 'blob': return Opaque('blob', c[1])
        raise Unsupported('const %r' % (c,))

    def const_by_path(s, path, subs, env=None):
        ck = (path, repr(subs))
        if ck in s.ccache: return cp(s.ccache[ck])
        v = s._const(path, subs)
        s.ccache[ck] = v
        return cp(v)

    def _const(s, path, subs):
        key = path.replace('::', '-')
        parts = path.split('::')
        name = parts[-1]
        if name == 'STATIC_MAX_LEVEL': return Opaque('level')
        r = re.match(r'num::\{impl#(\d+)\}::(MAX|MIN|BITS)$', path)
        if r:
            ty = ['i8', 'i16', 'i32', 'i64', 'i128', 'isize', 'u8', 'u16', 'u32', 'u64', 'u128', 'usize'][int(r.group(1))]
            w = 64 if ty.endswith('size') else int(ty[1:]); sg = ty[0] == 'i'
            return {'MAX': 2**(w - sg) - 1, 'MIN': -2**(w-1) if sg else 0, 'BITS': w}[r.group(2)]
        if len(parts) >= 2:
            for c in s.crates:
                if parts[-2] in c.traits:
                    return s.trait_const(parts[-2], name, subs)
        o = s.over.get('const:' + path) or s.over.get('const:' + name) if s.over else None
        if o is not None: return o(s, subs)
        for c in s.crates:
            if key in c.files:
                b = c.body(key)
                env = s.bindgen(c, key, subs)
                return s.run(c, b, env, [])
        raise Unsupported('const ' + path)

    def bindgen(s, c, key, subs):
        g = c.generics(key)
        env = dict(zip(g, subs))
        # Self for impl bodies
        for i in range(key.count('-') + 1, 0, -1):
            ik = '-'.join(key.split('-')[:i])
            im = c.impls.get(ik)
            if im is not None and not im.derive:
                if 'Self' not in env: env['Self'] = s.subst(im.selfty, env)
                break
        return env

    def trait_const(s, trait, name, subs):
        T = subs[0]
        if T[0] in ('abscurve', 'absfield') or (T[0] == 'adt' and (last(T[1]), name) in s.consts):
            nm = T[1] if T[0] != 'adt' else last(T[1])
            v = s.consts.get((nm, name))
            if v is None and T[0] == 'absfield':
                v = s.m.field_const(s, T[1], name)
            if v is not None: return v(s) if callable(v) else v
        if T[0] == 'adt':
            for c in s.crates:
                for im in c.by_trait.get(trait, []):
                    b = {}
                    if name in im.items and s.unify(im.selfty, T, b, im) and s.unify_list(im.trait[1], subs[1:1+len(im.trait[1])], b, im, T):
                        b['Self'] = T
                        key = im.key + '-' + name
                        return s.run(c, c.body(key), b, [])
        for c in s.crates:
            k = c.trait_keys.get(trait, {}).get(name)
            if k:
                return s.run(c, c.body(k), dict(zip(c.generics(k), subs)), [])
        raise Unsupported('trait const %s::%s for %r' % (trait, name, T))

    # ------------------------------------------------------------------ places
    def slot(s, F, place):
        base, proj = place
        c, i = F.L, base
        for p in proj:
            k = p[0]
            if k == 'deref':
                if i is None: continue      # a reference to a slice reference was collapsed
                v = c[i]
                t = type(v)
                if t is Ref: c, i = v.c, v.i
                elif t is BoxV: c, i = v.l, 0
                elif t is SliceRef: c, i = v, None
                elif t is str: c, i = [v], 0
                elif t is RcV: c, i = v.l, 0
                else: raise Unsupported('deref of %r' % (v,))
            elif k == 'field':
                v = c[i] if i is not None else c
                t = type(v)
                if t is A:
                    c, i = v.f, p[1]
                    if i >= len(c): raise Unsupported('field %d of %s' % (p[1], v.tag))
                elif t is ClosureV: c, i = v.up, p[1]
                elif t is BoxV: c, i = [v], 0
                else: raise Unsupported('field of %r' % (v,))
            elif k == 'variant': pass
            elif k in ('index', 'cindex'):
                if i is None: l, st, n = c.l, c.s, c.n
                else:
                    v = c[i]
                    if type(v) is Arr: l, st, n = v.l, 0, len(v.l)
                    else: raise Unsupported('index of %r' % (v,))
                if type(l) is s.m.SymL:
                    if k != 'index': raise Unsupported('pattern on a symbolic sequence')
                    x = s.m.index(s, SliceRef(l, st, n), F.L[p[1]]); c, i = x.c, x.i; continue
                if k == 'index': x = s.conc(F.L[p[1]])
                else: x = n - p[1] if p[2] else p[1]
                if not 0 <= x < n: raise Panic('index out of bounds')
                c, i = l, st + x
            elif k == 'subslice':
                if i is None: l, st, n = c.l, c.s, c.n
                else: l, st, n = c[i].l, 0, len(c[i].l)
                a, b = p[1], p[2]
                e = n - b if p[3] else b
                c, i = SliceRef(l, st + a, e - a), None
        return c, i

    def conc(s, v):
        """a concrete int, forking over the possible values when symbolic with a tiny range"""
        if isinstance(v, (int, bool)): return int(v)
        if isinstance(v, SI):
            lo, hi = s.st.bounds(v.p)
            if lo is not None and hi - lo <= 64:
                for x in range(lo, hi):
                    if s.st.decide(s.m.ieq(s.st, v, x)): return x
                return hi
        raise Unsupported('symbolic index/length %r' % (v,))

    def read(s, F, place):
        c, i = s.slot(F, place)
        if i is None: return c
        return c[i]

    def write(s, F, place, v):
        c, i = s.slot(F, place)
        c[i] = v

    def operand(s, F, op):
        k = op[0]
        if k == 'copy': return cp(s.read(F, op[1]))
        if k == 'move':
            if not op[1][1]: return F.L[op[1][0]]
            return s.read(F, op[1])
        return s.eval_const(op[1], F.env)

    # ------------------------------------------------------------------ rvalues
    def rvalue(s, F, rv, destty):
        k = rv[0]
        if k == 'use': return s.operand(F, rv[1])
        if k == 'ref':
            c, i = s.slot(F, rv[1])
            if i is None: return c
            v = c[i]
            if type(v) is str or type(v) is SliceRef and rv[1][1] and rv[1][1][-1][0] == 'deref': return v
            return Ref(c, i)
        if k == 'bin': return s.m.binop(s, rv[1], s.operand(F, rv[2]), s.operand(F, rv[3]), destty)
        if k == 'checked':
            return s.m.checked(s, rv[1], s.operand(F, rv[2]), s.operand(F, rv[3]), destty[1][0])
        if k == 'un': return s.m.unop(s, rv[1], s.operand(F, rv[2]), destty)
        if k == 'len':
            c, i = s.slot(F, rv[1])
            if i is None: return c.n
            return len(c[i].l)
        if k == 'discr':
            v = s.read(F, rv[1])
            return s.discr(v)
        if k == 'cast': return s.cast(F, s.operand(F, rv[1]), rv[2], rv[3], rv[1])
        if k == 'arr': return Arr([s.operand(F, o) for o in rv[1]])
        if k == 'repeat':
            n = s.sconst(rv[2], F.env)
            if n[0] != 'int': raise Unsupported('repeat len %r' % (n,))
            v = s.operand(F, rv[1])
            return Arr([cp(v) for _ in range(n[1])])
        if k == 'tuple': return A('()', None, [s.operand(F, o) for o in rv[1]])
        if k == 'agg':
            p = rv[1]; fs = [s.operand(F, o) for o in rv[2]]
            if p[0] == 'p':
                segs = p[1]; nm = segs[-1][0]
                if len(segs) >= 2 and (segs[-2][0] in STD_ENUMS or any(segs[-2][0] in c.enums and nm in c.enums[segs[-2][0]] for c in s.crates)):
                    return A(segs[-2][0], nm, fs, tuple(s.subst(a, F.env) for a in segs[-2][1]), rv[3])
                if nm in ('Less', 'Equal', 'Greater') : return A('Ordering', nm, [])
                if len(segs) >= 2 and (segs[-2][0], nm) in LOCALS: nm = segs[-2][0] + '$' + nm
                return A(nm, None, fs, tuple(s.subst(a, F.env) for a in segs[-1][1]), rv[3])
            raise Unsupported('agg %r' % (p,))
        if k == 'closure':
            return ClosureV(None, [s.operand(F, o) for o in rv[2]], F.env)
        if k == 'box': return BoxV([UNINIT])
        raise Unsupported('rvalue ' + k)

    def discr(s, v):
        if type(v) is A:
            if v.var is None: return 0
            d = STD_DISCR.get((v.tag, v.var))
            if d is not None: return d
            for c in s.crates:
                if v.tag in c.enums: return c.enums[v.tag].index(v.var)
        raise Unsupported('discriminant of %r' % (v,))

    def cast(s, F, v, ty, kind, op):
        if kind.startswith('Misc'):
            ty = s.subst(ty, F.env)
            if ty[0] == 'prim':
                if isinstance(v, A): return s.discr(v)
                return s.m.intcast(s, v, ty[1])
            return v
        if kind.startswith('Pointer(Unsize'):
            # &[T;N] -> &[T] ; Box<[T;N]> -> Box<[T]> ; Box<T> -> Box<dyn>
            if type(v) is Ref:
                x = v.get()
                if type(x) is Arr: return SliceRef(x.l, 0, len(x.l))
            return v
        return v

    # ------------------------------------------------------------------ running
    def closure_key(s, body, ty, F):
        # dest type text like 'a::b::fn::{closure#0}' possibly nested
        import re
        m = re.findall(r'\{closure#\d+\}', ty[1])
        base = body.key
        # nested closures: the body's own key already contains its closure chain
        return base + '-' + m[-1]

    def run(s, crate, body, env, args):
        if body is None: raise Unsupported('lost anchor: no body')
        s.called.add(body.key)
        F = Frame(); F.env = env; F.body = body; F.heads = None
        n = max(body.locals) + 1 if body.locals else 1
        F.L = [UNINIT] * (n + 1)
        for i, a in enumerate(args): F.L[i+1] = a
        s.depth += 1
        if s.depth > 400: raise Unsupported('recursion depth')
        lp = s.loops.get(body.key)
        if lp is not None: F.heads = lp(s, F)
        return s.loop(crate, body, F, 0, None)

    def loop(s, crate, body, F, bb, stop):
        blocks = body.blocks; locs = body.locals; env = F.env
        merge = s.cfg.get('merge')
        while True:
            if bb == stop: return None
            if F.heads is not None and bb in F.heads: F.heads[bb](s, F, bb)
            stmts, term = blocks[bb]
            s.steps += len(stmts) + 1
            if s.steps > s.maxsteps: raise Unsupported('step limit')
            for st in stmts:
                if st[0] == '=':
                    _, pl, rv = st
                    rk = rv[0]
                    dt = None
                    if rk in ('bin', 'checked', 'un'):
                        dt = s.place_ty(F, pl)
                        if rk == 'bin' and rv[1] in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge', 'Shl', 'Shr', 'Div', 'Rem', 'Add', 'Sub', 'Mul', 'BitAnd', 'BitOr', 'BitXor'): pass
                    v = s.rvalue(F, rv, dt)
                    if rk == 'closure':
                        v.key = (crate, s.closure_key(body, locs[pl[0]], F))
                    if not pl[1]: F.L[pl[0]] = v
                    else: s.write(F, pl, v)
            k = term[0]
            if k == 'goto': bb = term[1]
            elif k == 'call':
                _, f, args, dest, ret = term
                v = s.call_op(crate, F, f, [s.operand(F, a) for a in args], bb)
                if ret is None: raise Unsupported('diverging call returned')
                if not dest[1]: F.L[dest[0]] = v
                else: s.write(F, dest, v)
                bb = ret
            elif k == 'switch':
                v = s.operand(F, term[1])
                if merge is not None and isinstance(v, SB):
                    j = s.ifmerge(crate, body, F, bb, v, term, merge)
                    if j is not None: bb = j; continue
                bb = s.switch(v, term[2], term[3])
            elif k == 'assert':
                v = s.operand(F, term[1])
                t = s.st.decide(v)
                if t != term[2]: raise Panic(term[3][:160])
                bb = term[4]
            elif k == 'return':
                s.depth -= 1
                r = F.L[0]
                if r is UNINIT: r = unit()
                return r
            elif k == 'replace':
                s.write(F, term[1], s.operand(F, term[2])); bb = term[3]
            else: raise Unsupported('terminator ' + k)

    def ifmerge(s, crate, body, F, bb, v, term, merge):
        """executes both sides of a two-way branch up to the common post-dominator and joins the locals"""
        bit = s.cfg['asbit'](v) if 'asbit' in s.cfg else None
        if bit is None: bit = asbit(s.st, v)
        if bit is None: return None
        j = join_point(body, bb)
        if j is None: return None
        tgt = {}
        for t in (True, False):
            for c, b in term[2]:
                if bool(c) == t: tgt[t] = b; break
            else: tgt[t] = term[3]
        base = [cp(x) for x in F.L]; out = {}
        before = fingerprint(base, F.L)
        for t in (True, False):
            # locals are copied for each side; whatever lies behind references must not change on either side
            F.L[:] = [VecV(list(x.l)) if type(x) is VecV else cp(x) for x in base]
            if s.loop(crate, body, F, tgt[t], j) is not None: raise Unsupported('return inside a merged branch')
            out[t] = list(F.L)
            if fingerprint(base, F.L) != before: raise Unsupported('a merged branch changes state behind a reference')
        for i in range(len(F.L)): F.L[i] = merge(s, bit, out[True][i], out[False][i])
        return j

    def place_ty(s, F, pl):
        if not pl[1]: t = F.body.locals[pl[0]]
        else:
            t = None
            for p in reversed(pl[1]):
                if p[0] == 'field' and p[2] is not None: t = p[2]; break
                if p[0] in ('deref', 'index', 'cindex'):
                    t = s.full_place_ty(F, pl); break
            if t is None: t = F.body.locals[pl[0]]
        return s.subst(t, F.env)

    def full_place_ty(s, F, pl):
        t = F.body.locals[pl[0]]
        for p in pl[1]:
            k = p[0]
            if k == 'field' and p[2] is not None: t = p[2]
            elif k == 'deref':
                if t[0] in ('ref', 'ptr'): t = t[2]
                elif t[0] == 'adt' and t[2]: t = t[2][0]
            elif k in ('index', 'cindex'):
                if t[0] in ('slice', 'array'): t = t[1]
        return t

    def switch(s, v, cases, other):
        if isinstance(v, (int, bool)):
            v = int(v)
            for c, b in cases:
                if int(c) == v or (v < 0 and int(c) in (v & 0xff, v & 0xffffffffffffffff)): return b
            if other is None: raise Unsupported('switch without match')
            return other
        if isinstance(v, SB):
            # cases on bool: false -> cases[0]
            t = s.st.decide(v)
            for c, b in cases:
                if bool(c) == t: return b
            return other
        if isinstance(v, SI):
            for c, b in cases:
                if s.st.decide(s.m.ieq(s.st, v, int(c))): return b
            if other is None: raise Infeasible()
            return other
        raise Unsupported('switch on %r' % (v,))

    # ------------------------------------------------------------------ calls
    def call_op(s, crate, F, f, args, bb):
        if f[0] == 'const' and f[1][0] == 'zst' and f[1][1][0] == 'fndef':
            return s.call_path(f[1][1][3], F.env, args, f[1][1])
        v = s.operand(F, f)
        return s.call_value(v, args)

    def call_value(s, v, args):
        while type(v) in (Ref, BoxV):
            v = v.get() if type(v) is Ref else v.l[0]
        if type(v) is ClosureV:
            c, key = v.key
            b = c.body(key)
            if b is None: raise Unsupported('closure body ' + str(key))
            # self argument: by ref or by value according to the body's first arg type
            t = b.argtys[0]
            a0 = Ref([v], 0) if t[0] == 'ref' else v
            # remaining args: untupled parameters
            return s.run(c, b, v.env, [a0] + list(args))
        if type(v) is FnV: return s.call_path(v.path, v.env, list(args), None)
        if callable(v): return v(*args)
        raise Unsupported('call of %r' % (v,))

    def reexport(s, key):
        """the defining path of an item named through the glob re-exports of the crate root"""
        if not hasattr(s, 'rx'): s.rx = {}
        if key not in s.rx:
            r = key
            for c in s.crates:
                if c.crate != 'plonky' or key in c.files: continue
                l = [k for k in c.files if k.endswith('-' + key) and '{' not in k]
                if len(l) == 1: r = l[0]
                elif len(l) > 1: raise Unsupported('ambiguous path ' + key)
            s.rx[key] = r
        return s.rx[key]

    def call_path(s, p, env, args, fty):
        if p[0] == 'q': return s.call_q(p, env, args)
        segs = p[1]
        names = [x[0] for x in segs]
        fn = names[-1]
        # <impl T> segments: inherent impl of T or std slice impl
        key = '-'.join(names)
        for n in (names[0],):
            if n in ('plonky', 'crate'): names2 = names[1:]; break
        else: names2 = names
        key = '-'.join(names2)
        if names[0] == 'plonky' and key not in s.over: key = s.reexport(key)
        o = s.over.get(key)
        targs = [s.subst(a, env) for x in segs for a in x[1]]
        if o is not None: return o(s, targs, args)
        for c in s.crates:
            if key in c.files:
                e = s.bindgen(c, key, targs)
                return s.run(c, c.body(key), e, args)
        # inherent
        T = None; tparts = None
        if len(segs) >= 2:
            if names[-2].startswith('<impl ') or names[-2] == '<T>':
                if segs[-2][1]: T = s.subst(segs[-2][1][0], env)
            elif names[-2][:1].isupper():
                T = ('adt', '::'.join(names[:-1]), [s.subst(a, env) for a in segs[-2][1]])
        if T is not None:
            margs = [s.subst(a, env) for a in segs[-1][1]]
            r = s.inherent(T, fn, margs, args)
            if r is not None: return r[0]
        return s.m.std_call(s, names, fn, targs, args, T, env)

    def inherent(s, T, fn, margs, args):
        h = s.c.head(T)
        o = s.over.get('%s::%s' % (h, fn))
        if o is not None:
            r = o(s, [T] + margs, args)
            if r is not NotImplemented: return (r,)
        for c in s.crates:
            for im in c.inherent.get(h, []):
                if fn in im.items:
                    b = {}
                    if s.unify(im.selfty, T, b, im):
                        key = im.key + '-' + fn
                        g = c.generics(key)
                        own = g[len(im.names):]
                        # generic args of the type may be missing when T was printed without them
                        b.update(dict(zip(own, margs)))
                        b['Self'] = T
                        return (s.run(c, c.body(key), b, args),)
        return None

    def callt(s, T, trait, name, args, targs=(), margs=()):
        """call <T as trait>::name"""
        return s.dispatch(T, trait, list(targs), name, list(margs), args)

    def call_q(s, p, env, args):
        _, t, tr, ta, name, ma, rest = p
        T = s.subst(t, env)
        return s.dispatch(T, last(tr), [s.subst(a, env) for a in ta], name, [s.subst(a, env) for a in ma], args)

    def dispatch(s, T, trait, targs, name, margs, args):
        o = s.over.get('%s::%s' % (trait, name))
        if o is not None:
            r = o(s, [T] + targs + margs, args)
            if r is not NotImplemented: return r
        k = T[0]
        if k == 'adt':
            o = s.over.get('<%s as %s>::%s' % (last(T[1]), trait, name))
            if o is not None: return o(s, [T] + targs + margs, args)
        if trait in ('Fn', 'FnMut', 'FnOnce') and name in ('call', 'call_mut', 'call_once'):
            return s.call_value(args[0], args[1].f)
        if k == 'dyn' or (k == 'adt' and last(T[1]) == 'Box' and T[2] and T[2][0][0] == 'dyn'):
            v = args[0]
            while type(v) in (Ref, BoxV): v = v.get() if type(v) is Ref else v.l[0]
            if type(v) is A:
                return s.dispatch(('adt', v.tag, list(v.targs)), trait, targs, name, margs, [Ref([v], 0)] + args[1:])
            if type(v) is ClosureV: return s.call_value(v, args[1].f)
            if isinstance(v, Opaque) and v.d is not None: return v.d(s, name, args)
        if k == 'absfield' and (trait in s.m.FIELD_TRAITS):
            r = s.m.field_call(s, T[1], trait, name, args, margs)
            if r is not NotImplemented: return r
        if k == 'adt' or k in ('absfield', 'abscurve', 'prim', 'array', 'slice', 'ref'):
            for c in s.crates:
                for im in c.by_trait.get(trait, []):
                    if im.derive or name not in im.items: continue
                    b = {}
                    if s.unify(im.selfty, T, b, im) and s.unify_list(im.trait[1], targs, b, im, T):
                        key = im.key + '-' + name
                        g = c.generics(key)
                        own = g[len(im.names):]
                        b.update(dict(zip(own, margs)))
                        b['Self'] = T
                        # unify remaining by trait args
                        return s.run(c, c.body(key), b, args)
            for c in s.crates:
                key = c.trait_keys.get(trait, {}).get(name)
                if key:
                    g = c.generics(key)
                    e = dict(zip(g, [T] + targs + margs))
                    return s.run(c, c.body(key), e, args)
        return s.m.std_q(s, T, trait, targs, name, margs, args)

def asbit(st, b):
    """a 0/1-valued integer polynomial equal to the boolean, or None"""
    if b.k == 'not':
        x = asbit(st, b.a[0]); return None if x is None else P.sub(P.const(1), x)
    if b.k == 'b01': return b.a[0]
    if b.k == 'eq0':
        p = b.a[0]
        if st.bounds(p) == (0, 1): return P.sub(P.const(1), p)
        q = P.neg(p)
        if st.bounds(q) == (0, 1): return P.sub(P.const(1), q)
        if st.bounds(P.add(p, P.const(1))) == (0, 1): return P.add(p, P.const(1))
    return None

def fingerprint(L, own):
    out = []; seen = set(); work = [x for x in L]
    while work and len(out) < 3000:
        x = work.pop(); t = type(x)
        if t in (int, bool, str, FE, SI, SB) or x is None: continue
        if id(x) in seen: continue
        seen.add(id(x))
        if t is Ref:
            if x.c is own: continue
            if x.i is not None: out.append(id(x.c[x.i])); work.append(x.c[x.i])
        elif t is SliceRef: out += map(id, x.l[x.s:x.s+x.n]); work += x.l[x.s:x.s+x.n]
        elif t in (VecV, Arr, BoxV, RcV): out += map(id, x.l); work += x.l
        elif t is A: out += map(id, x.f); work += x.f
        elif t is ClosureV: work += x.up
        elif t is ItV and hasattr(x.it, '__dict__'):
            for k, v in x.it.__dict__.items(): out.append(v if isinstance(v, int) else id(v))
        elif t in (MapV, SetV): out += [hash(k) for k in x.d]
    return out

def join_point(body, bb):
    """immediate post-dominator of a block when both sides are acyclic up to it"""
    if getattr(body, '_pd', None) is None:
        nodes = list(body.blocks); sc = {b: [x for x in succs(t) if x in body.blocks] for b, (_, t) in body.blocks.items()}
        alln = set(nodes); pd = {b: (set(alln) if sc[b] else {b}) for b in nodes}
        ch = True
        while ch:
            ch = False
            for b in nodes:
                if not sc[b]: continue
                # unwinding and diverging blocks (no successor, not a return) do not count as exits
                ss = [x for x in sc[b] if sc[x] or body.blocks[x][1][0] == 'return'] or sc[b]
                n = set.intersection(*[pd[x] for x in ss]) | {b}
                if n != pd[b]: pd[b] = n; ch = True
        body._pd = pd; body._sc = sc
    c = body._pd[bb] - {bb}
    for x in c:
        if c == body._pd[x]: return x
    return None

# ------------------------------------------------------------------ loop cut points
def succs(term):
    k = term[0]
    if k == 'goto': return [term[1]]
    if k == 'call': return [term[4]] if term[4] is not None else []
    if k == 'switch': return [b for _, b in term[2]] + ([term[3]] if term[3] is not None else [])
    if k == 'assert': return [term[4]]
    if k == 'replace': return [term[3]]
    return []

def loop_heads(body):
    """targets of back edges of the control-flow graph, with the set of blocks of each natural loop"""
    color = {}; heads = {}; order = []
    preds = {}
    for b, (_, t) in body.blocks.items():
        for x in succs(t): preds.setdefault(x, []).append(b)
    stack = [(0, iter(succs(body.blocks[0][1])))]; color[0] = 1
    while stack:
        b, it = stack[-1]
        for x in it:
            if color.get(x) == 1: heads.setdefault(x, set()).add(b)
            elif x not in color and x in body.blocks:
                color[x] = 1; stack.append((x, iter(succs(body.blocks[x][1])))); break
        else:
            color[b] = 2; stack.pop()
    out = {}
    for h, tails in heads.items():
        blk = {h}; w = list(tails)
        while w:
            x = w.pop()
            if x in blk: continue
            blk.add(x); w += preds.get(x, [])
        out[h] = blk
    return out
