"""Obligation driver: runs contract obligations over the dumped MIR, in parallel, with a verdict for each.

proved        every path of the real code satisfies the postcondition
failed        the body was interpreted completely but the verifier could not establish the postcondition (reported as a
              violation, without a failing input unless the replay of the same contract finds one)
refuted       a concrete assignment of the contract's inputs (found by sampling the failed obligation, evaluated on
              the code's own path) violates the postcondition
undischarged  the engine could not decide (unsupported construct, lost anchor, time out, incomplete algebra)
"""
import os, sys, time, signal, random, traceback, multiprocessing as mp
from fractions import Fraction
from . import poly as P, state as S
from .values import *
from .state import State, FieldInfo, explore, STATS, ZTO
from .interp import Interp
from . import models as m

class Refuted(Exception):
    def __init__(s, what, cex=None): s.what = what; s.cex = cex; Exception.__init__(s, what)
class Undischarged(Exception): pass
class _Timeout(Exception): pass

# a prime with large two-adicity and gcd(5*11, p-1) = 1: Tweedledee's base field, used to sample abstract fields
PS = 0x40000000000000000000000000000000038aa127696286c9842cafd400000001

class Ctx:
    def __init__(s, crates):
        s.crates = crates; s.called = set(); s.paths_n = 0; s.checks = 0; s.reach = 0
        s.rng = random.Random(7)
    def interp(s, st, **cfg):
        I = Interp(s.crates, st, cfg); I.called = s.called; return I
    def explore(s, fields, run, **kw):
        r = explore(fields, run, **kw)
        s.paths_n += len(r)
        if any(x[1][0] == 'ok' for x in r): s.reach += 1
        return r

    # ---- checks
    def zero(s, st, fid, p, what):
        s.checks += 1
        f = st.fs(fid)
        r = f.status(p)
        if r == 'zero': return
        q = f.clear(p)
        c = sample_cex(st, fid, q, s.rng)
        if c is not None: raise Refuted('%s: residual %s' % (what, P.show(q, st.aname)[:300]), c)
        raise Undischarged('%s: residual %s not shown zero' % (what, P.show(q, st.aname)[:300]))
    def feq(s, st, a, b, what): s.zero(st, a.fid, P.sub(a.p, b.p), what)
    def fnonzero(s, st, fid, p, what):
        s.checks += 1
        f = st.fs(fid)
        r = f.status(p)
        if r == 'nonzero': return
        if r == 'zero':
            c = sample_cex(st, fid, None, s.rng)
            if c is not None: raise Refuted('%s: value is zero' % what, c)
        raise Undischarged('%s: not shown nonzero: %s' % (what, P.show(f.clear(p), st.aname)[:300]))
    def true(s, st, b, what):
        """b (bool or SB) holds on this path"""
        s.checks += 1
        if isinstance(b, SB):
            if b.k == 'fz': return s.zero(st, b.a[0], b.a[1], what)
            if b.k == 'not' and b.a[0].k == 'fz': return s.fnonzero(st, b.a[0].a[0], b.a[0].a[1], what)
            if b.k == 'and':
                s.true(st, b.a[0], what); s.true(st, b.a[1], what); return
            t = st.truth(b)
        else: t = b
        if t is True: return
        if t is False:
            c = sample_cex(st, None, None, s.rng)
            if c is not None: raise Refuted(what + ': false on a reachable path', c)
            raise Undischarged(what + ': false on a path not shown reachable')
        raise Undischarged(what + ': undecided %r' % (b,))
    def ge0(s, st, p, what):
        s.checks += 1
        if not st.proves_ge0(p): raise Undischarged(what + ': bound not shown')
    def concrete(s, cond, what, cex=None):
        s.checks += 1
        if not cond: raise Refuted(what, cex or {})
    def no_panic(s, st, res, what):
        s.checks += 1
        if res[0] == 'panic':
            c = sample_cex(st, None, None, s.rng)
            if c is not None: raise Refuted('%s: panics (%s)' % (what, res[1]), c)
            raise Undischarged('%s: panic path (%s) not shown unreachable' % (what, res[1]))

def fval(p, val, q):
    r = 0
    for mm, c in p.items():
        if isinstance(c, Fraction): c = c.numerator * pow(c.denominator, -1, q)
        for a, e in mm: c = c * pow(val[a], e, q) % q
        r += c
    return r % q

def ival(p, val):
    r = 0
    for mm, c in p.items():
        for a, e in mm: c = c * val[a]**e
        r += c
    return r

def sample_cex(st, fid, q, rng, tries=60):
    """concrete values of the free atoms that follow the recorded path and make q nonzero (q None: any)"""
    if st.idefs or st.divs: return None
    for t in range(tries):
        try: r = _sample(st, rng, t)
        except (_Skip, ZeroDivisionError, KeyError, ValueError): continue
        val, primes = r
        if q is None or fval(q, val, primes[fid]) != 0:
            return {st.aname(a): hex(v) if v > 9 else v for a, v in sorted(val.items()) if not st.aname(a).startswith('inv(')}
    return None

class _Skip(Exception): pass
def _sample(st, rng, t):
    val = {}; primes = {}
    for a, (lo, hi) in st.rng.items():
        if lo is None or hi is None: raise _Skip()
        val[a] = rng.choice((lo, hi)) if rng.random() < .3 else rng.randint(lo, hi)
    lifts = {}
    for k, v in st.ucache.items():
        if isinstance(k, tuple) and k[0] == 'lift': lifts[next(iter(P.atoms(v.p)))] = (k[1], k[2])
    powers = []
    for k, v in st.ucache.items():
        if isinstance(k, tuple) and k[0] == 'pow': powers.append((next(iter(P.atoms(v.p))), k[1], dict(k[2]), k[3]))
    pa = {x[0]: x for x in powers}
    for fid, f in st.fields.items(): primes[fid] = f.p or PS
    # which field each atom belongs to
    owner = {}
    for fid, f in st.fields.items():
        for a in list(f.subs) + list(f.inv) + [r[0] for r in f.rules]: owner[a] = fid
    for b, v in st.trace:
        _own(b, owner)
    for a in range(1, st.natom+1): owner.setdefault(a, st.atomfield.get(a))
    rules = {}
    for fid, f in st.fields.items():
        for a, e, qq in f.rules: rules[a] = (fid, e, qq)
    todo = [a for a in range(1, st.natom+1) if a not in val]
    progress = True
    while todo and progress:
        progress = False; rest = []
        for a in todo:
            fid = owner.get(a)
            if fid is None:
                progress = True; continue
            f = st.fields.get(fid)
            pr = primes.setdefault(fid, st.finfo[fid].p or PS)
            try:
                if f is not None and a in f.subs: v = fval(f.subs[a], val, pr)
                elif f is not None and a in f.inv:
                    x = fval(f.inv[a], val, pr)
                    v = pow(x, -1, pr) if x else 0
                elif a in lifts: v = val[lifts[a][1]] % pr
                elif a in pa: v = pow(fval(pa[a][2], val, pr), pa[a][3], pr)
                elif a in rules:
                    _, e, qq = rules[a]
                    x = fval(qq, val, pr)
                    if e == 2 and qq == {((a, 1),): 1}: v = rng.randint(0, 1)
                    elif x == pr-1 and e & (e-1) == 0:
                        v = pow(5, (pr-1)//(2*e), pr)
                        if pow(v, e, pr) != pr-1: raise _Skip()
                    else:
                        try: v = pow(x, pow(e, -1, pr-1), pr)
                        except ValueError: raise _Skip()
                else:
                    u = rng.random()
                    v = rng.choice((0, 1, 2, 3, pr-1)) if u < .1*(t % 3) else rng.randrange(pr)
                val[a] = v; progress = True
            except KeyError:
                rest.append(a)
        todo = rest
    for b, v in st.trace:
        if _bval(st, b, val, primes) != v: raise _Skip()
    for fid, f in st.fields.items():
        for r in f.extra:
            if fval(r, val, primes[fid]): raise _Skip()
        for a, e, qq in f.rules:
            if a in val and pow(val[a], e, primes[fid]) != fval(qq, val, primes[fid]): raise _Skip()
        for qn in f.nz:
            if fval(qn, val, primes[fid]) == 0: raise _Skip()
    for rel, p in st.cons:
        v = ival(p, val)
        if rel == 'ge0' and v < 0 or rel == 'eq0' and v != 0: raise _Skip()
    return val, primes

def _own(b, owner):
    if not isinstance(b, SB): return
    if b.k == 'fz':
        for a in P.atoms(b.a[1]): owner[a] = b.a[0]
    else:
        for x in b.a: _own(x, owner)

def _bval(st, b, val, primes):
    if isinstance(b, bool): return b
    k = b.k
    if k == 'fz': return fval(b.a[1], val, primes.get(b.a[0], PS)) == 0
    if k == 'not': return not _bval(st, b.a[0], val, primes)
    if k == 'and': return _bval(st, b.a[0], val, primes) and _bval(st, b.a[1], val, primes)
    if k == 'or': return _bval(st, b.a[0], val, primes) or _bval(st, b.a[1], val, primes)
    if k == 'eq0': return ival(b.a[0], val) == 0
    if k == 'ge0': return ival(b.a[0], val) >= 0
    if k == 'b01': return ival(b.a[0], val) >= 1
    raise _Skip()

# ------------------------------------------------------------------------------------------------ obligations
class Ob:
    """name; fn(ctx): returns normally when proved; backend: label; bounded: text or None; funcs extra"""
    def __init__(s, name, fn, backend='engine', bounded=None, timeout=120, soft=False):
        s.name = name; s.fn = fn; s.backend = backend; s.bounded = bounded; s.timeout = timeout; s.soft = soft

_G = {}
def _alarm(*a): raise _Timeout()

def _run(i):
    ob = _G['obs'][i]; ctx = Ctx(_G['crates'])
    for k in STATS: STATS[k] = 0
    t = time.time(); status = 'proved'; detail = ''; cex = None
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, max(1, min(ob.timeout, _G['deadline'] - time.time())))
    ZTO[0] = 8000
    try:
        try: ob.fn(ctx)
        except (Refuted, Undischarged):
            if not STATS['z3_unknown']: raise
            # the solver gave up on a query (a loaded machine, say): redo the obligation with more time, and without an answer there is no verdict
            ZTO[0] = 60000; n0 = STATS['z3_unknown']; ctx.checks = 0
            try: ob.fn(ctx)
            except (Refuted, Undischarged) as e:
                if STATS['z3_unknown'] > n0: raise Unsupported('the solver gave no answer: ' + str(e)[:200])
                raise
        if ctx.checks == 0: status = 'undischarged'; detail = 'vacuous: no check was reached'
    except Refuted as e: status = 'undischarged' if ob.soft else 'refuted'; detail = e.what; cex = e.cex
    except Undischarged as e: status = 'undischarged' if ob.soft else 'failed'; detail = str(e)
    except Unsupported as e: status = 'undischarged'; detail = 'unsupported: ' + str(e)[:400]
    except _Timeout: status = 'undischarged'; detail = 'time out'
    except MemoryError: status = 'undischarged'; detail = 'memory'
    except Exception as e:
        status = 'undischarged'; detail = 'engine: %s: %s' % (type(e).__name__, str(e)[:300])
        if os.environ.get('VERIF_DEBUG'): sys.stderr.write(ob.name + '\n' + traceback.format_exc()[-1500:])
    finally: signal.setitimer(signal.ITIMER_REAL, 0)
    return {'i': i, 'name': ob.name, 'status': status, 'detail': detail, 'cex': cex, 'wall': round(time.time()-t, 3),
            'paths': ctx.paths_n, 'checks': ctx.checks, 'called': sorted(ctx.called), 'stats': dict(STATS), 'backend': ob.backend, 'bounded': ob.bounded}

def run_all(crates, obs, jobs=8, deadline=None):
    _G['crates'] = crates; _G['obs'] = obs; _G['deadline'] = deadline or time.time() + 600
    out = []
    if jobs <= 1: return [_run(i) for i in range(len(obs))]
    with mp.get_context('fork').Pool(jobs, maxtasksperchild=40) as pool:
        it = pool.imap_unordered(_run, range(len(obs)))
        while True:
            try: out.append(it.next(timeout=max(5, _G['deadline'] + 20 - time.time())))
            except StopIteration: break
            except mp.TimeoutError:
                pool.terminate(); break
    done = {r['i'] for r in out}
    for i, o in enumerate(obs):
        if i not in done:
            out.append({'i': i, 'name': o.name, 'status': 'undischarged', 'detail': 'time out (worker)', 'cex': None, 'wall': 0, 'paths': 0, 'checks': 0, 'called': [], 'stats': {}, 'backend': o.backend, 'bounded': o.bounded})
    out.sort(key=lambda r: r['i'])
    return out
