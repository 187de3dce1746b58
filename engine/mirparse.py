"""Parser for rustc's verbose mir_map dump (nightly-2021-08-31).

Types   : ('prim',n) ('adt',path,args) ('ref',mut,T) ('ptr',mut,T) ('slice',T) ('array',T,const)
          ('tuple',[..]) ('param',n) ('proj',T,trait,targs,name) ('fndef',path-ast) ('fnptr',) ('closure',text,upvars)
          ('dyn',text) ('never',) ('opaque',text)
Consts  : ('int',v) ('cparam',n) ('uneval',defpath,substs,promoted) ('zst',T) ('str',bytes) ('bytes',..)
Places  : (local, [proj..])  proj = ('deref',) ('field',n,T) ('variant',name) ('index',local) ('cindex',i,fromend) ('subslice',a,b,fromend)
"""
import re

PRIMS = {'u8','u16','u32','u64','u128','usize','i8','i16','i32','i64','i128','isize','bool','char','str','f32','f64'}

class PErr(Exception): pass

ID = re.compile(r"[A-Za-z_][A-Za-z_0-9]*(#\d+)?")
NUM = re.compile(r"-?\d+")

class P:
    __slots__ = ('s', 'i')
    def __init__(self, s, i=0): self.s = s; self.i = i
    def err(self, m=''): raise PErr('%s at %d: %r' % (m, self.i, self.s[max(0, self.i-40):self.i+80]))
    def at(self, t): return self.s.startswith(t, self.i)
    def eat(self, t):
        if self.s.startswith(t, self.i): self.i += len(t); return True
        return False
    def need(self, t):
        if not self.eat(t): self.err('expected %r' % t)
    def ident(self):
        m = ID.match(self.s, self.i)
        if not m: self.err('ident')
        self.i = m.end(); return m.group(0)
    def num(self):
        m = NUM.match(self.s, self.i)
        if not m: self.err('num')
        self.i = m.end(); return int(m.group(0))
    def ws(self):
        while self.i < len(self.s) and self.s[self.i] == ' ': self.i += 1
    def balanced(self):
        """skip a balanced ( [ { < group starting here; returns its text"""
        s = self.s; st = self.i; d = 0
        while self.i < len(s):
            c = s[self.i]
            if c in '([{<': d += 1
            elif c in ')]}': d -= 1
            elif c == '>' and s[self.i-1] not in '-=': d -= 1
            elif c == '"':
                self.i += 1
                while s[self.i] != '"':
                    if s[self.i] == '\\': self.i += 1
                    self.i += 1
            self.i += 1
            if d == 0: return s[st:self.i]
        self.err('unbalanced')

    # ---------- types
    def region(self):
        if self.at("'"):
            self.i += 1; self.ident(); return True
        if self.s.startswith('Re', self.i):
            m = re.compile(r'Re(Erased|LateBound|EarlyBound|Free|Static|Var|Empty)\b').match(self.s, self.i)
            if m:
                self.i = m.end()
                if self.at('('): self.balanced()
                elif self.at(' {'): pass
                return True
        return False

    def ty(self):
        s = self.s
        if self.i >= len(s): self.err('eof in type')
        c = s[self.i]
        if c == '&':
            self.i += 1
            if self.region(): self.ws()
            m = self.eat('mut ')
            return ('ref', m, self.ty())
        if c == '*':
            self.i += 1
            m = self.eat('mut ')
            if not m: self.need('const ')
            return ('ptr', m, self.ty())
        if c == '!': self.i += 1; return ('never',)
        if c == '(':
            self.i += 1; ts = []
            while not self.eat(')'):
                ts.append(self.ty())
                if not self.eat(', '):
                    if self.eat(','): self.ws()
            if len(ts) == 1 and ts[0][0] == 'dyn': return ts[0]     # parenthesised trait object
            return ('tuple', ts)
        if c == '[':
            j = self.i
            txt = self.balanced(); e = self.i
            # closure?
            k = txt.find(' closure_kind_ty=')
            if k >= 0 and '{closure#' in txt[:k]:
                # make sure this is the closure itself, i.e. the path precedes at depth 0
                name = txt[1:k]
                d = 0; ok = True
                for q, ch in enumerate(name):
                    if ch in '<([{': d += 1
                    elif ch in ')]}' or (ch == '>' and name[q-1] not in '-='): d -= 1
                    elif ch == ';' and d == 0: ok = False
                if ok and d == 0 and name.rstrip()[-1] == '}':
                    u = txt.rfind('upvar_tys=')
                    ups = []
                    if u >= 0:
                        q = P(txt, u+len('upvar_tys='))
                        try: ups = q.ty()[1] if q.at('(') else []
                        except PErr: ups = []
                    return ('closure', name, ups)
            if txt.startswith('[closure@'): return ('closure', txt[1:-1], [])
            self.i = j + 1
            t = self.ty()
            if self.eat('; '):
                n = self.const()
                self.need(']')
                return ('array', t, n)
            self.need(']')
            return ('slice', t)
        if c == '<':
            return self.qpath_type()
        if self.at('for<'):
            self.i += 3; self.balanced(); self.ws()
            return self.ty()
        if self.at('unsafe '): self.i += 7
        if self.at('extern "'):
            self.i += 7; self.i = s.index('"', self.i+1)+1; self.ws()
        if self.at('fn('):
            return self.fnty()
        if self.at('dyn ') or self.at('impl '):
            st = self.i
            k = s[self.i:self.i+3]
            d = 0
            while self.i < len(s):
                ch = s[self.i]
                if ch in '([{<': d += 1
                elif ch in ')]}' or (ch == '>' and s[self.i-1] not in '-='):
                    if d == 0: break
                    d -= 1
                elif ch in ',;' and d == 0: break
                elif d == 0 and s.startswith(' = ', self.i): break
                self.i += 1
            return (k if k == 'dyn' else 'opaque', s[st:self.i])
        if self.at('Opaque('):
            st = self.i; self.i += 6; self.balanced(); return ('opaque', s[st:self.i])
        # path
        return self.path_type()

    def fnty(self):
        self.need('fn(')
        args = []
        while not self.eat(')'):
            if self.eat('...'): continue
            args.append(self.ty())
            if not self.eat(', '): self.eat(',')
        ret = ('tuple', [])
        if self.eat(' -> '): ret = self.ty()
        if self.at(' {'):
            self.i += 2
            p = self.vpath()
            self.need('}')
            return ('fndef', args, ret, p)
        return ('fnptr', args, ret)

    def generic_args(self):
        """after '<' ; returns list of types/consts (regions dropped)"""
        out = []
        self.need('<')
        while not self.eat('>'):
            if self.region(): pass
            elif self.at('Const'): out.append(('const', self.const()))
            else:
                m = re.compile(r'[A-Z][A-Za-z]* = ').match(self.s, self.i)
                if m:
                    self.i = m.end(); self.ty()
                else: out.append(self.ty())
            if not self.eat(', '): self.eat(',')
        return out

    def qpath_type(self):
        self.need('<')
        t = self.ty()
        self.need(' as ')
        tr, ta = self.trait_ref()
        self.need('>')
        r = None
        while self.at('::') and not self.at('::<') and not self.at('::{'):
            self.i += 2
            nm = self.ident()
            r = ('proj', t if r is None else r, tr, ta, nm)
        return r

    def trait_ref(self):
        segs = [self.ident()]
        args = []
        while True:
            if self.at('::<'): self.i += 2; args = self.generic_args()
            elif self.at('<'): args = self.generic_args()
            elif self.at('::'):
                self.i += 2
                if self.at('{'): segs.append(self.balanced())
                else: segs.append(self.ident())
            elif self.at('(') : # Fn(A) -> B sugar
                args = [self.ty()]
                if self.eat(' -> '): self.ty()
            else: break
        return '::'.join(segs), args

    def path_type(self):
        segs = [self.ident()]
        args = []
        while True:
            if self.at('<'): args = args + self.generic_args()
            elif self.at('::<'):
                self.i += 2
                if self.at('<impl '):
                    segs.append(self.balanced())
                else: args = args + self.generic_args()
            elif self.at('::'):
                self.i += 2
                if self.at('{'): segs.append(self.balanced())
                else: segs.append(self.ident())
            else: break
        if len(segs) == 1 and not args:
            n = segs[0]
            if n in PRIMS: return ('prim', n)
            return ('param', n)
        return ('adt', '::'.join(segs), args)

    # ---------- constants
    def const(self):
        if self.eat('const '): pass
        if self.eat('Const { ty: '):
            t = self.ty(); self.need(', val: ')
            v = self.cval(t); self.need(' }')
            return v
        self.need('Const(')
        v = self.cval_deferred()
        return v

    def cval_deferred(self):
        # Const(VAL: TY)
        if self.eat('Value('):
            if self.eat('Scalar('):
                if self.eat('<ZST>'): v = ('zst',)
                elif self.at('0x'):
                    m = re.compile(r'0x([0-9a-f]+)').match(self.s, self.i); self.i = m.end()
                    v = ('int', int(m.group(1), 16))
                else:
                    st = self.i
                    d = 1
                    while d:
                        ch = self.s[self.i]
                        if ch == '(': d += 1
                        if ch == ')': d -= 1
                        self.i += 1
                    self.i -= 1
                    v = ('scalarptr', self.s[st:self.i])
                self.need('))')
            elif self.at('Slice') or self.at('ByRef'):
                st = self.i
                self.ident(); self.ws()
                txt = self.balanced()
                self.need(')')
                m = re.search(r'bytes: \[([0-9, ]*)\]', txt)
                v = ('str', bytes(int(x) for x in m.group(1).split(',') if x.strip())) if m else ('blob', txt)
            else: self.err('const value')
            self.need(': ')
            t = self.ty()
            self.need(')')
            if v[0] == 'zst': return ('zst', t)
            if v[0] == 'int' and t == ('prim', 'bool'): return ('int', bool(v[1]), t)
            return v + (t,)
        if self.eat('Param('):
            n = self.ident(); self.need('/#'); self.num(); self.need(')'); self.need(': '); self.ty(); self.need(')')
            return ('cparam', n)
        if self.eat('Unevaluated('):
            v = self.uneval(); self.need('): '); t = self.ty(); self.need(')')
            return v + (t,)
        self.err('const')

    def cval(self, t):
        if self.eat('Value('):
            self.need('Scalar(')
            if self.eat('<ZST>'): self.need('))'); return ('zst', t)
            m = re.compile(r'0x([0-9a-f]+)').match(self.s, self.i)
            self.i = m.end(); self.need('))')
            v = int(m.group(1), 16)
            if t == ('prim', 'bool'): v = bool(v)
            return ('int', v, t)
        if self.eat('Param('):
            n = self.ident(); self.need('/#'); self.num(); self.need(')')
            return ('cparam', n)
        if self.eat('Unevaluated('):
            v = self.uneval(); self.need(')')
            return v + (t,)
        self.err('cval')

    def uneval(self):
        self.need('Unevaluated { def: ')
        self.need('WithOptConstParam { did: ')
        self.need('DefId(')
        m = re.compile(r'(\d+):(\d+) ~ ([a-z_0-9A-Z]+)\[[0-9a-f]+\]((?:::(?:[A-Za-z_0-9#]+|\{[a-z_]+#\d+\}))*)\)').match(self.s, self.i)
        if not m: self.err('defid')
        crate = m.group(3); path = m.group(4)[2:]
        self.i = m.end()
        self.need(', const_param_did: ')
        while not self.eat(' }'):
            if self.at('Some('): self.ident(); self.balanced()
            else: self.ident()
        self.need(', substs_: ')
        subs = None
        if self.eat('None'): pass
        else:
            self.need('Some(['); subs = []
            while not self.eat('])'):
                if self.region(): pass
                elif self.at('Const'): subs.append(('const', self.const()))
                else: subs.append(self.ty())
                self.eat(', ')
        self.need(', promoted: ')
        pr = None
        if self.eat('None'): pass
        else:
            self.need('Some('); 
            m = re.compile(r'promoted\[(\d+)\]').match(self.s, self.i); self.i = m.end(); pr = int(m.group(1)); self.need(')')
        self.need(' }')
        return ('uneval', crate, path, subs, pr)

    # ---------- value paths: callee names
    def vpath(self):
        """returns ('q', T, trait, targs, name, margs) or ('p', [(seg, args)...])"""
        if self.at('<'):
            st = self.i
            self.need('<')
            if self.at('impl '):
                self.i = st
            else:
                t = self.ty()
                if self.eat(' as '):
                    tr, ta = self.trait_ref()
                    self.need('>')
                    self.need('::')
                    name = self.ident(); ma = []
                    if self.at('::<'): self.i += 2; ma = self.generic_args()
                    rest = []
                    while self.at('::'):
                        self.i += 2; 
                        if self.at('{'): rest.append(self.balanced())
                        elif self.at('<'): ma = ma + self.generic_args()
                        else: rest.append(self.ident())
                    return ('q', t, tr, ta, name, ma, rest)
                self.need('>')
                segs = [('<T>', [t])]
                while self.eat('::'):
                    if self.at('<'): segs[-1] = (segs[-1][0], segs[-1][1] + self.generic_args())
                    elif self.at('{'): segs.append((self.balanced(), []))
                    else: segs.append((self.ident(), []))
                return ('p', segs)
        segs = []
        while True:
            if self.at('<impl '):
                txt = self.balanced()
                t = None
                if not txt.startswith('<impl at'):
                    q = P(txt[6:-1])
                    try: t = q.ty()
                    except PErr: t = None
                segs.append((txt, [t] if t else []))
            elif self.at('<'):
                a = self.generic_args()
                segs[-1] = (segs[-1][0], segs[-1][1] + a)
            elif self.at('{'):
                segs.append((self.balanced(), []))
            else:
                segs.append((self.ident(), []))
            if not self.eat('::'): break
        return ('p', segs)

    # ---------- places / operands / rvalues
    def place(self):
        if self.eat('_'):
            base = self.num(); proj = []
        else:
            self.need('(')
            if self.eat('*'):
                b, pr = self.place(); self.need(')')
                base, proj = b, pr + [('deref',)]
            else:
                b, pr = self.place()
                if self.eat(' as '):
                    v = self.ident(); self.need(')')
                    base, proj = b, pr + [('variant', v)]
                else:
                    self.need('.'); n = self.num(); self.need(': ')
                    t = self.ty(); self.need(')')
                    base, proj = b, pr + [('field', n, t)]
        while True:
            if self.at('['):
                self.i += 1
                if self.eat('_'):
                    n = self.num(); self.need(']'); proj = proj + [('index', n)]
                else:
                    m = re.compile(r'(-?)(\d+) of (\d+)\]').match(self.s, self.i)
                    if m:
                        self.i = m.end(); proj = proj + [('cindex', int(m.group(2)), m.group(1) == '-')]
                    else:
                        m = re.compile(r'(\d*):(-?)(\d*)\]').match(self.s, self.i)
                        if not m: self.err('place idx')
                        self.i = m.end()
                        proj = proj + [('subslice', int(m.group(1) or 0), int(m.group(3) or 0), bool(m.group(2)) or not m.group(3))]
            else: break
        return base, proj

    def operand(self):
        if self.eat('move '): return ('move', self.place())
        if self.at('const ') or self.at('Const('): return ('const', self.const())
        return ('copy', self.place())

    BIN = {'Add','Sub','Mul','Div','Rem','BitXor','BitAnd','BitOr','Shl','Shr','Eq','Lt','Le','Ne','Ge','Gt','Offset'}

    def rvalue(self):
        s = self.s
        if self.at('&'):
            st = self.i
            self.i += 1
            if self.at('raw '):
                self.i += 4
                if not self.eat('mut '): self.need('const ')
                return ('ref', self.place())
            if self.region(): self.ws()
            self.eat('mut ') or self.eat('shallow ')
            return ('ref', self.place())
        m = re.compile(r'([A-Z][A-Za-z]+)\(').match(s, self.i)
        if m:
            n = m.group(1)
            if n in self.BIN:
                self.i = m.end(); a = self.operand(); self.need(', '); b = self.operand(); self.need(')')
                return ('bin', n, a, b)
            if n.startswith('Checked') and n[7:] in self.BIN:
                self.i = m.end(); a = self.operand(); self.need(', '); b = self.operand(); self.need(')')
                return ('checked', n[7:], a, b)
            if n in ('Not', 'Neg'):
                self.i = m.end(); a = self.operand(); self.need(')')
                return ('un', n, a)
            if n == 'Len':
                self.i = m.end(); a = self.place(); self.need(')')
                return ('len', a)
            if n == 'Box':
                self.i = m.end(); t = self.ty(); self.need(')')
                return ('box', t)
            if n in ('SizeOf', 'AlignOf'):
                self.i = m.end(); t = self.ty(); self.need(')')
                return ('sizeof', t)
        if self.at('discriminant('):
            self.i += 13; a = self.place(); self.need(')')
            return ('discr', a)
        if self.at('['):
            if self.at('[closure@'):
                j = s.index(']', self.i)
                # spans contain no brackets
                name = s[self.i:j+1]; self.i = j+1
                fs = []
                if self.eat(' { '):
                    while not self.eat(' }'):
                        self.ident(); self.need(': '); fs.append(self.operand()); self.eat(', ')
                return ('closure', name, fs)
            # array: [op, op] or [op; const]
            self.i += 1; ops = []
            if self.eat(']'): return ('arr', [])
            ops.append(self.operand())
            if self.eat('; '):
                c = self.const(); self.need(']'); return ('repeat', ops[0], c)
            while self.eat(', '): ops.append(self.operand())
            self.need(']')
            return ('arr', ops)
        if self.at('(') and not self.at('(*') and not self.at('(_') and not self.at('(('):
            return self.tuple()
        if self.at('(move ') : return self.tuple()
        if self.at('('):
            # place or tuple: try place first
            st = self.i
            try:
                pl = self.place()
                if self.i == len(s): return ('use', ('copy', pl))
                if self.at(' as '):
                    return self.cast(('copy', pl))
            except PErr: pass
            self.i = st
            return self.tuple()
        if self.at('_') or self.at('move ') or self.at('const ') or self.at('Const('):
            op = self.operand()
            if self.i == len(s): return ('use', op)
            if self.at(' as '): return self.cast(op)
            self.err('rvalue use')
        # aggregate ADT: path [::Variant] [(..)|{..}]
        p = self.vpath()
        if self.i == len(s): return ('agg', p, [], None)
        if self.eat(' { '):
            fs = []; names = []
            while not self.eat(' }'):
                names.append(self.ident()); self.need(': '); fs.append(self.operand()); self.eat(', ')
            return ('agg', p, fs, names)
        if self.eat('('):
            fs = []
            while not self.eat(')'):
                fs.append(self.operand()); self.eat(', ')
            return ('agg', p, fs, None)
        self.err('rvalue')

    def tuple(self):
        self.need('('); ops = []
        while not self.eat(')'):
            ops.append(self.operand())
            if not self.eat(', '): self.eat(',')
        return ('tuple', ops)

    def cast(self, op):
        self.need(' as ')
        t = self.ty()
        self.need(' (')
        k = self.s[self.i:-1]; self.i = len(self.s)
        return ('cast', op, t, k)


TERM_KW = ('goto', 'switchInt', 'assert', 'drop', 'replace', 'falseEdge', 'falseUnwind', 'return', 'resume', 'unreachable', 'abort')

def targets(s):
    """'[a: bb1, b: bb2]' or 'bb3'  -> dict / int"""
    if s.startswith('bb'): return {'t': int(s[2:])}
    r = {}
    for m in re.finditer(r'(\w+): bb(\d+)', s): r[m.group(1)] = int(m.group(2))
    return r

def parse_term(s):
    """returns term tuple or None when s is a statement"""
    if s == 'return': return ('return',)
    if s in ('resume', 'unreachable', 'abort'): return (s,)
    if s.startswith('goto -> '): return ('goto', int(s[10:]))
    if s.startswith('falseEdge -> ') or s.startswith('falseUnwind -> '):
        return ('goto', targets(s[s.index('['):])['real'])
    if s.startswith('switchInt('):
        p = P(s, 10); op = p.operand(); p.need(') -> [')
        cases = []; other = None
        while not p.eat(']'):
            if p.eat('otherwise: bb'): other = p.num()
            else:
                c = p.const(); p.need(': bb'); cases.append((c[1], p.num()))
            p.eat(', ')
        return ('switch', op, cases, other)
    if s.startswith('assert('):
        p = P(s, 7); neg = p.eat('!'); op = p.operand()
        k = s.rfind(') -> [')
        return ('assert', op, not neg, s[p.i+2:k], targets(s[k+5:])['success'])
    if s.startswith('drop('):
        k = s.rfind(') -> ')
        t = targets(s[k+5:])
        return ('goto', t.get('return', t.get('t')))
    if s.startswith('replace('):
        p = P(s, 8); pl = p.place(); p.need(' <- '); op = p.operand(); p.need(') -> ')
        t = targets(s[p.i:])
        return ('replace', pl, op, t.get('return', t.get('t')))
    # call?
    k = s.rfind(') -> ')
    if k < 0: return None
    tail = s[k+5:]
    if not (tail.startswith('[return: bb') or re.match(r'bb\d+$', tail) or tail.startswith('[return')): return None
    p = P(s)
    dest = None
    m = re.match(r'[_(]', s)
    tg = targets(tail)
    if tail.startswith('bb'):
        # diverging call "FN(args) -> bbN" (unwind only) or a drop; no destination
        if s.startswith('_') or s.startswith('('):
            dest = p.place(); p.need(' = ')
            ret = tg['t']
        else:
            ret = None
    elif 'return' in tg:
        dest = p.place(); p.need(' = '); ret = tg['return']
    f = p.operand()
    p.need('(')
    args = []
    while not p.eat(')'):
        args.append(p.operand()); p.eat(', ')
    return ('call', f, args, dest, ret)

def strip_comment(l):
    # trailing scope comment
    k = l.rfind(' // ')
    if k >= 0 and (' scope ' in l[k:] or ' at ' in l[k:] or ' in ' in l[k:]): l = l[:k]
    return l.rstrip()

class Body:
    __slots__ = ('file', 'name', 'kind', 'nargs', 'argtys', 'ret', 'locals', 'blocks', 'names', 'text', 'header', 'key', 'implspan', 'parsed', 'spans', '_pd', '_sc')

def read_header(path):
    """Cheap: name line only"""
    with open(path) as f:
        for l in f:
            if l.startswith('//') or l.startswith('|') or not l.strip(): continue
            return l.rstrip('\n')

def parse_body(path):
    b = Body(); b.file = path
    lines = open(path).read().split('\n')
    i = 0
    while lines[i].startswith('//') or lines[i].startswith('|') or not lines[i].strip(): i += 1
    h = lines[i]; b.header = h; b.locals = {}; b.blocks = {}; b.names = {}; b.spans = {}
    cur = None; stmts = None; pend = None
    for l in lines[i+1:]:
        t = l.strip()
        if not t or t.startswith('//'):
            if t.startswith('// + span: ') and cur is not None and cur not in b.spans: b.spans[cur] = t[11:]
            continue
        t = strip_comment(l).strip()
        if cur is None:
            m = re.match(r'let (mut )?_(\d+): (.*);$', t)
            if m:
                b.locals[int(m.group(2))] = P(m.group(3)).ty(); continue
            m = re.match(r'debug (\S+) => _(\d+);', t)
            if m: b.names[m.group(1)] = int(m.group(2)); continue
        m = re.match(r'bb(\d+)( \(cleanup\))?: \{$', t)
        if m:
            cur = int(m.group(1)); stmts = []; clean = bool(m.group(2)); continue
        if t == '}':
            if cur is not None: cur = None
            continue
        if cur is None: continue
        if clean: continue
        if not t.endswith(';'): raise PErr('line %r' % t)
        t = t[:-1]
        if t.startswith(('StorageLive', 'StorageDead', 'FakeRead', 'AscribeUserType', 'nop', 'Retag', 'Coverage')): continue
        tm = parse_term(t)
        if tm is not None:
            b.blocks[cur] = (stmts, tm); continue
        if t.startswith('discriminant(') and ' = ' in t:
            p = P(t, 13); pl = p.place(); p.need(') = '); stmts.append(('setdiscr', pl, p.num())); continue
        p = P(t)
        pl = p.place(); p.need(' = ')
        rv = p.rvalue()
        if p.i != len(t): p.err('trailing')
        stmts.append(('=', pl, rv))
    # header: name and args
    k = h.find('(_1: ') if h.startswith('fn ') else -1
    if h.startswith('fn '):
        k = h.find('(_1: ')
        if k < 0: k = h.rfind('() -> ')
        b.kind = 'fn'; b.name = h[3:k]
        p = P(h, k+1); b.argtys = []
        while not p.eat(')'):
            p.need('_%d: ' % (len(b.argtys)+1)); 
            b.argtys.append(p.ty()); p.eat(', ')
        b.nargs = len(b.argtys)
        for q, tt in enumerate(b.argtys): b.locals[q+1] = tt
        # closures print their self type as [closure@..]
    else:
        b.kind = 'const'; b.nargs = 0; b.argtys = []
        b.name = h.split(': ')[0]
    b.ret = b.locals.get(0)
    return b

if __name__ == '__main__':
    import sys, glob, collections
    bad = collections.Counter()
    n = 0
    for f in sorted(glob.glob(sys.argv[1] + '/*.mir')):
        n += 1
        try: parse_body(f)
        except Exception as e:
            bad[f] = repr(e)
    print(n, len(bad))
    for f, e in list(bad.items())[:int(sys.argv[2]) if len(sys.argv) > 2 else 25]: print(f.split('/')[-1], e[:300])
