"""Circuits: the real CircuitBuilder code is interpreted; the constraint system it leaves behind (gate constants, copy
constraints, generators) is given its meaning by the real gate evaluators, one unknown per routable wire class.
  soundness     every assignment satisfying the constraints satisfies the stated relation
  completeness  the values the real generators produce satisfy every constraint"""
from contracts.common import *
OUT = ('abscurve', 'C'); INN = ('abscurve', 'D')
BUILDER = ('adt', 'circuit_builder::CircuitBuilder', [OUT])
GATES = {'CurveAddGate': ('gates::curve_add::CurveAddGate', 2), 'CurveDblGate': ('gates::curve_dbl::CurveDblGate', 2), 'CurveEndoGate': ('gates::curve_endo::CurveEndoGate', 2),
         'Base4SumGate': ('gates::base_4_sum::Base4SumGate', 1), 'PublicInputGate': ('gates::public_input::PublicInputGate', 1), 'BufferGate': ('gates::buffer::BufferGate', 1),
         'ConstantGate': ('gates::constant::ConstantGate', 1), 'ArithmeticGate': ('gates::arithmetic::ArithmeticGate', 1),
         'RescueStepAGate': ('gates::rescue_a::RescueStepAGate', 1), 'RescueStepBGate': ('gates::rescue_b::RescueStepBGate', 1)}
def gty(g): return ('adt', GATES[g][0], [OUT, INN][:GATES[g][1]])
NC = 6; NW = 9
def kconst(I, name):
    return int(I.const_by_path('plonk::' + name, []))

def mds_over():
    """contract of mds_matrix / MdsMatrix::get (C16): the Cauchy matrix 1/(n + r - c)"""
    def mk_(I, T, a): return Opaque('mds', int(a[0]))
    def get(I, T, a):
        n = m.dr(a[0]).d; r, c = int(a[1]), int(a[2]); fid = I._mdsf if hasattr(I, '_mdsf') else 'S'
        f = I.st.fs(fid); return FE(fid, f.inverse(P.const(n + r - c)))
    return {'mds-mds_matrix': mk_, 'MdsMatrix::get': get}

def circ_cfg(st, over=None, consts=None, **kw):
    z = lambda nm: (lambda I: st.ucache.setdefault(('gc', nm), st.fe('S', nm)))
    cfg = dict(assoc={('C', 'ScalarField'): SF, ('C', 'BaseField'): ('absfield', 'B'), ('D', 'BaseField'): SF, ('D', 'ScalarField'): ('absfield', 'T')},
               consts={('D', 'A'): z('A'), ('D', 'B'): z('Bc'), ('D', 'ZETA'): z('zeta')}, over=mds_over())
    cfg['over'].update(over or {}); cfg['consts'].update(consts or {}); cfg.update(kw)
    return cfg
FLD = lambda p=None, consts=None: {'S': FieldInfo('S', p, consts or {}), 'B': FieldInfo('B'), 'T': FieldInfo('T')}

# ------------------------------------------------------------------ builder operations by contract: targets are values
def fe_builder():
    """call-site contracts of the builder arithmetic (verified in C28): the value of the result"""
    def v(x):
        x = m.dr(x)
        if not isinstance(x, FE): raise Unsupported('target %r' % (x,))
        return x
    def nf(I, p): return FE('S', I.st.fs('S').norm(p))
    o = {}
    B = 'CircuitBuilder::'
    def op(n, f): o[B+n] = lambda I, T, a: f(I, *[x for x in a[1:]])
    op('add', lambda I, x, y: nf(I, P.add(v(x).p, v(y).p)))
    op('sub', lambda I, x, y: nf(I, P.sub(v(x).p, v(y).p)))
    op('mul', lambda I, x, y: nf(I, P.mul(v(x).p, v(y).p)))
    op('square', lambda I, x: nf(I, P.mul(v(x).p, v(x).p)))
    op('double', lambda I, x: nf(I, P.scale(v(x).p, 2)))
    op('neg', lambda I, x: nf(I, P.neg(v(x).p)))
    op('not', lambda I, x: nf(I, P.sub(P.const(1), v(x).p)))
    op('mul_add', lambda I, x, y, z: nf(I, P.add(P.mul(v(x).p, v(y).p), v(z).p)))
    op('mul_sub', lambda I, x, y, z: nf(I, P.sub(P.mul(v(x).p, v(y).p), v(z).p)))
    def fold(I, l, unit_, g):
        r = unit_
        for x in lst(l): r = g(r, v(x).p)
        return nf(I, r)
    op('add_many', lambda I, l: fold(I, l, {}, P.add))
    op('mul_many', lambda I, l: fold(I, l, P.const(1), P.mul))
    op('exp_constant_usize', lambda I, x, n: nf(I, P.pw(v(x).p, int(n))))
    def expc(I, x, n):
        k = m.fconstval(I, v(n))
        if k is None: raise Unsupported('symbolic exponent')
        return m.fpow(I, v(x), k)
    op('exp_constant', expc)
    op('constant_wire', lambda I, c: v(c))
    op('constant_wires', lambda I, l: VecV([v(x) for x in lst(l)]))
    op('constant_wire_u32', lambda I, n: I.st.fconst('S', int(n)))
    for n, c in (('zero_wire', 0), ('one_wire', 1), ('two_wire', 2), ('neg_one_wire', -1)):
        o[B+n] = (lambda c: lambda I, T, a: I.st.fconst('S', c))(c)
    return o

def gate_native(I, g, k, l, r, b, fn='evaluate_unfiltered'):
    return lst(I.dispatch(gty(g), 'Gate', [OUT], fn, [], [sl(k), sl(l), sl(r), sl(b)]))
def gate_rec(I, g, k, l, r, b, fn='evaluate_unfiltered_recursively'):
    bd = [Opaque('builder')]
    return lst(I.dispatch(gty(g), 'Gate', [OUT], fn, [], [Ref(bd, 0), sl(k), sl(l), sl(r), sl(b)]))
def sl(l): return SliceRef(l, 0, len(l))
def wires(st, nm, n, fid='S'): return [st.fe(fid, '%s%d' % (nm, i)) for i in range(n)]
def prefix(I, g):
    x = I.trait_const('Gate', 'PREFIX', [gty(g), OUT])
    return [bool(b) for b in lst(m.dr(x) if not isinstance(x, SliceRef) else x)]

# ------------------------------------------------------------------ targets
def wire(g, i): return A('Wire', None, [g, i])
def twire(g, i): return A('Target', 'Wire', [wire(g, i)])
def tvirt(i): return A('Target', 'VirtualTarget', [A('VirtualTarget', None, [i])])
def tkey(t):
    t = m.dr(t)
    if t.var == 'Wire': return ('w', t.f[0].f[0], t.f[0].f[1])
    if t.var == 'VirtualTarget': return ('v', t.f[0].f[0])
    return ('p', t.f[0].f[0])

class Circ:
    """a builder being run"""
    def __init__(s, ctx, st, I, bits=128):
        s.ctx = ctx; s.st = st; s.I = I
        s.b = [I.inherent(BUILDER, 'new', [], [bits])[0]]
        s.names = None
    def call(s, fn, *args, margs=()):
        if '-' in fn:
            for c in s.I.crates:
                if fn in c.files:
                    g = c.generics(fn); return s.I.run(c, c.body(fn), dict(zip(g, [OUT, INN])), [Ref(s.b, 0)] + list(args))
            raise Unsupported('lost anchor: ' + fn)
        r = s.I.inherent(BUILDER, fn, list(margs), [Ref(s.b, 0)] + list(args))
        if r is None: raise Unsupported('lost anchor: CircuitBuilder::' + fn)
        return r[0]
    def field(s, name):
        for c in s.I.crates:
            pass
        b = s.b[0]
        names = b.names or s.fieldnames()
        return b.f[names.index(name)]
    def fieldnames(s):
        return ['security_bits', 'public_input_index', 'virtual_target_index', 'gate_counts', 'gate_constants', 'copy_constraints', 'generators', 'constant_wires']
    def rows(s): return [lst(x) for x in lst(s.field('gate_constants'))]
    def copies(s): return [(tkey(x.f[0]), tkey(x.f[1])) for x in lst(s.field('copy_constraints'))]
    def gens(s): return [m.dr(x) for x in lst(s.field('generators'))]
    def inputs(s, n): return [s.call('add_virtual_target') for _ in range(n)]
    def pinput(s): return s.call('add_public_input')
    # ---- routing
    def classes(s):
        par = {}
        def find(x):
            par.setdefault(x, x)
            while par[x] != x: par[x] = par[par[x]]; x = par[x]
            return x
        for a, b in s.copies(): par[find(a)] = find(b)
        s.find = find
        return find
    def row_gate(s, row):
        """the gate types whose prefix matches the row's (concrete) selector constants"""
        out = []
        for g in GATES:
            p = prefix(s.I, g)
            vals = [s.st.fs('S').norm(x.p) for x in row[:len(p)]]
            if all(P.isconst(v) and P.cval(v) == int(b) for v, b in zip(vals, p)): out.append(g)
        return out
    def constraints(s, val):
        """[(row, gate, index, polynomial)] of all gate constraints under the wire valuation val(row, input) -> FE"""
        R = s.rows(); out = []; W = kconst(s.I, 'GRID_WIDTH'); nw = kconst(s.I, 'NUM_WIRES')
        for i, row in enumerate(R):
            gs = s.row_gate(row)
            if len(gs) != 1: raise Undischarged('row %d selects gates %r' % (i, gs))
            g = gs[0]
            if g == 'BufferGate': continue
            l, r, b = ([val(j, w) for w in range(nw)] for j in (i, i+1, i+W))
            for k, c in enumerate(gate_native(s.I, g, row, l, r, b)): out.append((i, g, k, c.p))
        return out
    # ---- soundness
    def assume_all(s, skip=None):
        """assigns an unknown to every routable class and assumes every constraint"""
        s.vals = {}; s.assume_all_keep()
    def assume_all_keep(s):
        find = s.classes(); st = s.st; nr = kconst(s.I, 'NUM_ROUTED_WIRES'); vals = s.vals
        def val(j, w):
            k = ('w', j, w)
            if w < nr: k = find(k)
            if k not in vals: vals[k] = st.fe('S', '%s%s' % (k[0], '.'.join(map(str, k[1:]))))
            return vals[k]
        s.val = val
        assume_constraints(st, [c[3] for c in s.constraints(val)])
    def value(s, t):
        """value of a target under the assumed assignment"""
        k = tkey(t); k = s.find(k) if not (k[0] == 'w' and k[2] >= kconst(s.I, 'NUM_ROUTED_WIRES')) else k
        if k not in s.vals: s.vals[k] = s.st.fe('S', 'free.%s' % '.'.join(map(str, k)))
        return FE('S', s.st.fs('S').norm(s.vals[k].p))
    # ---- completeness
    def generate(s, given, allow_left=()):
        """runs the real generators; given: [(target, FE)]. Values spread over copy classes. Conflicts are obligations"""
        find = s.classes(); st = s.st; I = s.I; ctx = s.ctx; vals = {}; s.gvals = vals
        members = {}
        def tgt(k): return {'w': lambda: twire(*k[1:]), 'v': lambda: tvirt(*k[1:])}[k[0]]()
        for a, b in s.copies():
            for t in (a, b): members.setdefault(find(t), set()).add(t)
        def put(k, v, what):
            c = find(k)
            for t in members.get(c, {k}) | {k}:
                if t in vals: ctx.feq(st, vals[t], v, '%s: %r receives two values' % (what, t))
                else: vals[t] = v
        for t, v in given: put(tkey(t), v, 'input')
        todo = list(enumerate(s.gens())); prog = True
        rows = VecV([VecV(r) for r in s.rows()])
        while todo and prog:
            prog = False; rest = []
            for n, g in todo:
                ty = ('adt', g.tag, list(g.targs))
                deps = [tkey(x) for x in lst(I.dispatch(ty, 'WitnessGenerator', [SF], 'dependencies', [], [Ref([g], 0)]))]
                if not all(d in vals for d in deps): rest.append((n, g)); continue
                pw = [s.witness({d: vals[d] for d in deps})]
                r = I.dispatch(ty, 'WitnessGenerator', [SF], 'generate', [], [Ref([g], 0), sl(rows.l), Ref(pw, 0)])
                for e in r.f[0].d.values(): put(tkey(e[0]), e[1], '%s' % g.tag)
                prog = True
            todo = rest
        s.left = todo
        return vals
    def witness(s, vals):
        mv = MapV()
        for k, v in vals.items():
            t = twire(*k[1:]) if k[0] == 'w' else tvirt(*k[1:]) if k[0] == 'v' else A('Target', 'PublicInput', [A('PublicInput', None, [k[1], unit()])])
            mv.d[m.hkey(s.I, t)] = [t, v]
        return A('PartialWitness', None, [mv], (SF,))
    def check_complete(s, what):
        z = s.st.fconst('S', 0)
        val = lambda j, w: s.gvals.get(('w', j, w), z)
        for i, g, k, p in s.constraints(val):
            s.ctx.zero(s.st, 'S', p, '%s: constraint %d of %s in row %d under the generated witness' % (what, k, g, i))
        # copy constraints between wires that ended up with different values (one side never generated)
        for a, b in s.copies():
            if a in s.gvals or b in s.gvals: s.ctx.feq(s.st, s.gvals.get(a, z), s.gvals.get(b, z), '%s: copy constraint' % what)
    def gval(s, t):
        v = s.gvals.get(tkey(t))
        if v is None: raise Undischarged('no value generated for %r' % (tkey(t),))
        return v

def assume_constraints(st, polys, fid='S'):
    """assumes every polynomial zero: invertibility and linear facts first, binary facts as rewrite rules, the rest by splitting into factors"""
    f = st.fs(fid); rest = list(polys); go = True
    first = True
    while go:
        go = first; nxt = []
        for p in rest:
            p = f.norm(p)
            if not p: continue
            ab = special(p)
            if ab:
                if not any(r[0] == ab[0] for r in f.rules):
                    f.rules.append((ab[0], ab[1], ab[2])); go = True
                    if not hasattr(st, 'ranged'): st.ranged = {}
                    st.ranged[ab[0]] = ab[3]; continue
            if first: nxt.append(p); continue
            ru = {r[0] for r in f.rules}
            # u*q = c with c a nonzero constant: q is invertible
            for a in P.atoms(p):
                if P.degree_in(p, a) == 1 and a not in f.inv and a not in ru:
                    cs = P.coeffs_in(p, a)
                    if cs.get(0) and P.isconst(cs[0]) and not P.isconst(cs[1]) and f.status(cs[1]) is None:
                        f.assume_nonzero(cs[1]); go = True
            c = [a for a in P.atoms(p) if P.degree_in(p, a) == 1 and a not in f.inv and a not in ru and f.status(P.coeffs_in(p, a)[1]) == 'nonzero']
            c = [a for a in c if P.isconst(P.coeffs_in(p, a)[1])] or c
            if c: f.orient(p); go = True
            else: nxt.append(p)
        rest = nxt; first = False
    for p in rest: st.assume(SB('fz', fid, p), True)

def special(p):
    """a univariate polynomial that splits over 0..15 with distinct roots: (atom, degree, lower part, roots)"""
    ats = P.atoms(p)
    if len(ats) != 1: return None
    a = next(iter(ats)); cs = P.coeffs_in(p, a); d = max(cs)
    if d < 2: return None
    c = {e: P.cval(v) for e, v in cs.items()}
    roots = [x for x in range(16) if sum(v * x**e for e, v in c.items()) == 0]
    if len(roots) != d: return None
    from fractions import Fraction
    low = {}
    for e, v in c.items():
        if e != d:
            k = Fraction(-v, 1) / c[d]
            low = P.add(low, P.scale(P.pw(P.atom(a), e), int(k) if k.denominator == 1 else k))
    return a, d, low, roots
