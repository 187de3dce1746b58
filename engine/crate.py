"""Index of the dumped crate: bodies, impls, traits, struct definitions (read from /repo's source headers)."""
import os, re, glob
from . import mirparse as M

LOCALS = set()      # (function, type): types declared inside a function body
def last(p):
    if '::' not in p: return p
    q = p.split('::')
    return q[-2] + '$' + q[-1] if (q[-2], q[-1]) in LOCALS else q[-1]

class SP(M.P):
    """source-syntax type parser"""
    def const(self):
        m = re.compile(r'[A-Za-z_0-9:]+').match(self.s, self.i)
        self.i = m.end(); t = m.group(0)
        if t.isdigit(): return ('int', int(t), ('prim', 'usize'))
        return ('cparam', t)
    def region(self):
        if self.at("'"):
            self.i += 1; self.ident(); return True
        return False

def split_top(s, sep=','):
    out = []; d = 0; cur = ''
    for i, c in enumerate(s):
        if c in '<([{': d += 1
        elif c in ')]}' or (c == '>' and s[i-1] not in '-='): d -= 1
        if c == sep and d == 0: out.append(cur); cur = ''
        else: cur += c
    if cur.strip(): out.append(cur)
    return [x.strip() for x in out]

def match_angle(s, i):
    """s[i]=='<' -> index after the matching '>'"""
    d = 0
    while True:
        c = s[i]
        if c == '<': d += 1
        elif c == '>' and s[i-1] not in '-=':
            d -= 1
            if d == 0: return i+1
        i += 1

def match_brace(s, i, o='{', c='}'):
    d = 0
    while i < len(s):
        if s[i] == o: d += 1
        elif s[i] == c:
            d -= 1
            if d == 0: return i+1
        i += 1
    return i

def gens(text):
    """'<A: X, const N: usize>' -> [(name, bound)]"""
    out = []
    for g in split_top(text[1:-1]):
        if g.startswith("'"): continue
        if g.startswith('const '): out.append((g[6:].split(':')[0].strip(), 'const'))
        else:
            n, _, b = g.partition(':'); out.append((n.split('=')[0].strip(), b.strip()))
    return out

def strip_comments(t):
    t = re.sub(r'//[^\n]*', lambda m: ' '*len(m.group(0)), t)
    return t

def fix_ty(t, names):
    """C::ScalarField -> proj; Self handled as param"""
    k = t[0]
    if k == 'adt':
        segs = t[1].split('::')
        if len(segs) == 2 and (segs[0] in names or segs[0] == 'Self') and not t[2]:
            return ('proj', ('param', segs[0]), None, [], segs[1])
        return ('adt', t[1], [fix_ty(a, names) if a[0] != 'const' else a for a in t[2]])
    if k == 'param':
        if t[1] in names or t[1] == 'Self': return t
        return ('adt', t[1], [])
    if k == 'ref': return ('ref', t[1], fix_ty(t[2], names))
    if k in ('slice',): return (k, fix_ty(t[1], names))
    if k == 'array':
        return ('array', fix_ty(t[1], names), t[2])
    if k == 'tuple': return ('tuple', [fix_ty(a, names) for a in t[1]])
    if k == 'proj': return ('proj', fix_ty(t[1], names), t[2], t[3], t[4])
    return t

class Impl: pass

class Crate:
    def __init__(s, dumpdir, srcroot, crate='plonky', srcdir='src'):
        s.dir = dumpdir; s.root = srcroot; s.realroot = srcroot; s.crate = crate; s.srcdir = srcdir
        s.localty = []; s.files = {}; s.bodies = {}; s.impls = {}; s.by_trait = {}; s.inherent = {}
        s.traits = {}; s.src = {}; s.structs = {}; s.enums = {}; s.gcache = {}
        pre = crate + '.'
        for f in os.listdir(dumpdir):
            if f.startswith(pre) and f.endswith('.mir'):
                s.files[f[len(pre):].split('.mir_map')[0]] = os.path.join(dumpdir, f)
        s.load_src()
        s.index()

    def load_src(s):
        for d, _, fs in os.walk(os.path.join(s.root, s.srcdir)):
            for f in fs:
                if f.endswith('.rs'):
                    p = os.path.join(d, f); rel = os.path.relpath(p, s.root)
                    raw = open(p).read()
                    s.src[rel] = strip_comments(raw)
        for rel, t in s.src.items():
            for m in re.finditer(r'\b(struct|enum|trait)\s+([A-Za-z_0-9]+)\s*', t):
                kind, name = m.group(1), m.group(2)
                i = m.end(); g = []
                if i < len(t) and t[i] == '<':
                    j = match_angle(t, i); g = gens(t[i:j]); i = j
                rest = t[i:]
                if kind == 'struct':
                    mm = re.match(r'[^;{(]*', rest); k = i + mm.end()
                    if k >= len(t): continue
                    if t[k] == '{':
                        body = t[k+1:match_brace(t, k)-1]
                        fl = []
                        for x in split_top(re.sub(r'#\[[^\]]*\]', '', body)):
                            x = re.sub(r'^pub(\([a-z]+\))?\s+', '', x)
                            n, _, ty = x.partition(':'); fl.append((n.strip(), ty.strip()))
                        s.structs[name] = (g, fl)
                    elif t[k] == '(':
                        body = t[k+1:match_brace(t, k, '(', ')')-1]
                        s.structs[name] = (g, [(str(n), re.sub(r'^pub(\([a-z]+\))?\s+', '', x)) for n, x in enumerate(split_top(body))])
                    else: s.structs[name] = (g, [])
                elif kind == 'enum':
                    k = t.index('{', i)
                    body = t[k+1:match_brace(t, k)-1]
                    s.enums[name] = [re.match(r'[A-Za-z_0-9]+', x).group(0) for x in split_top(re.sub(r'#\[[^\]]*\]', '', body))]
                else:
                    k = t.index('{', i)
                    s.traits[name] = (rel, k, match_brace(t, k), g)

    def offset(s, rel, L, C):
        t = s.src[rel]; i = 0
        for _ in range(L-1): i = t.index('\n', i) + 1
        return i + C - 1

    def index(s):
        s.trait_keys = {}
        for key, f in s.files.items():
            parts = key.split('-')
            if any(p.startswith('{impl#') for p in parts):
                h = M.read_header(f)
                spans = re.findall(r'<impl at ([^:>]+):(\d+):(\d+): (\d+):(\d+)>', h)
                idx = [i for i, p in enumerate(parts) if p.startswith('{impl#')]
                if len(spans) == 0: continue
                # last spans correspond to last impl segments
                for i, sp in zip(reversed(idx), reversed(spans)):
                    ik = '-'.join(parts[:i+1])
                    if ik not in s.impls: s.add_impl(ik, sp)
                    im = s.impls[ik]
                    if im is not None and len(parts) > i+1: im.items.add(parts[i+1])
            else:
                # trait default item?  module path then TraitName
                for i, p in enumerate(parts):
                    if p in s.traits and i < len(parts)-1:
                        s.trait_keys.setdefault(p, {})[parts[i+1]] = '-'.join(parts[:i+2]); break
        # rustc prints the full path of a type only where its name is ambiguous
        fns = {}
        for f, im in s.localty: fns.setdefault(im.selfty[1], set()).add(f)
        for f, im in s.localty:
            if len(fns[im.selfty[1]]) > 1:
                LOCALS.add((f, im.selfty[1]))
        for f, im in s.localty:
            if (f, im.selfty[1]) in LOCALS: im.selfty = ('adt', f + '$' + im.selfty[1], im.selfty[2])
        for k, im in s.impls.items():
            if im is None: continue
            if im.trait: s.by_trait.setdefault(im.trait[0], []).append(im)
            else: s.inherent.setdefault(s.head(im.selfty), []).append(im)
        for v in s.by_trait.values(): v.sort(key=lambda im: im.selfty[0] == 'param')

    def head(s, t):
        if t[0] == 'adt': return last(t[1])
        if t[0] == 'prim': return t[1]
        return t[0]

    def add_impl(s, ik, sp):
        rel, L, C, L2, C2 = sp[0], *map(int, sp[1:])
        if rel.startswith('/'): rel = os.path.relpath(rel, s.realroot)
        s.impls[ik] = None
        if rel not in s.src: return
        a = s.offset(rel, L, C); b = s.offset(rel, L2, C2)
        t = s.src[rel][a:b]
        im = Impl(); im.key = ik; im.items = set(); im.rel = rel; im.span = (a, b); im.assoc = {}; im.derive = False
        if not t.startswith('impl') and not t.startswith('unsafe impl'):
            # derive token or macro
            im.derive = True; im.trait = (t.strip(), []); im.gens = []
            m = re.compile(r'\b(struct|enum)\s+([A-Za-z_0-9]+)').search(s.src[rel], b)
            if not m or not re.match(r'^[A-Za-z]+$', t.strip()): return
            im.selfty = ('adt', m.group(2), []); im.text = ''
            s.impls[ik] = im
            return
        i = t.index('impl') + 4
        g = []
        if t[i] == '<':
            j = match_angle(t, i); g = gens(t[i:j]); i = j
        k = i; d = 0
        while not (t[k] == '{' and d == 0):
            if t[k] in '<([': d += 1
            if t[k] in ')]' or (t[k] == '>' and t[k-1] not in '-='): d -= 1
            k += 1
        hd = t[i:k].split(' where')[0].split('\nwhere')[0].strip()
        hd = re.sub(r'\s+', ' ', hd)
        hd = re.sub(r'([<(\[]) ', r'\1', hd); hd = re.sub(r',? ([>)\]])', r'\1', hd)
        names = {n for n, _ in g}
        m = re.match(r'^(.*?) for (.*)$', hd)
        tr = None
        if m and not hd.startswith('for<'):
            trs, sf = m.group(1), m.group(2)
            p = SP(trs); n, ta = p.trait_ref()
            tr = (last(n), [fix_ty(x, names) if x[0] != 'const' else x for x in ta])
        else: sf = hd
        im.gens = g; im.names = [n for n, _ in g]; im.trait = tr
        if sf.startswith('$'): return
        im.selfty = fix_ty(SP(sf).ty(), names)
        kp = ik.split('-')
        if im.selfty[0] == 'adt' and len(kp) > 1 and re.match(r'[a-z_]', kp[-2]) and '-'.join(kp[:-1]) in s.files and '::' not in im.selfty[1]:
            s.localty.append((kp[-2], im))
        im.text = t
        for mm in re.finditer(r'\btype\s+([A-Za-z]+)\s*=\s*([^;]+);', t[k:]):
            try: im.assoc[mm.group(1)] = fix_ty(SP(re.sub(r'\s+', ' ', mm.group(2)).strip()).ty(), names)
            except M.PErr: pass
        s.impls[ik] = im

    # ---- bodies
    def body(s, key):
        b = s.bodies.get(key)
        if b is None:
            if key not in s.files: return None
            b = M.parse_body(s.files[key]); b.key = key
            s.bodies[key] = b
        return b

    def modfile(s, parts):
        """longest module prefix -> source file"""
        for n in range(len(parts), -1, -1):
            p = '/'.join(parts[:n])
            for c in ((p + '.rs') if p else 'lib.rs', (p + '/mod.rs') if p else 'lib.rs'):
                rel = os.path.join(s.srcdir, c)
                if rel in s.src: return rel, n
        return None, 0

    def fn_gens(s, text, name):
        m = re.search(r'\bfn\s+' + re.escape(name) + r'\s*(?=[<(])', text)
        if not m: return []
        i = m.end()
        g = []
        if text[i] == '<':
            j = match_angle(text, i); g = gens(text[i:j]); i = j
        # impl Trait arguments
        if text[i] == '(':
            args = text[i:match_brace(text, i, '(', ')')]
            for a in split_top(args[1:-1]):
                mm = re.match(r'[^:]+:\s*(impl .*)$', a, re.S)
                if mm: g.append((re.sub(r'\s+', ' ', mm.group(1)), ''))
        return g

    def generics(s, key):
        """ordered generic parameter names of a body (parent first)"""
        if key in s.gcache: return s.gcache[key]
        parts = key.split('-')
        out = []
        im = None; ipos = -1
        for i, p in enumerate(parts):
            if p.startswith('{impl#'):
                k = '-'.join(parts[:i+1])
                if s.impls.get(k) is not None: im = s.impls[k]; ipos = i
        rest = parts[ipos+1:] if im else parts
        if im:
            out += im.names if not im.derive else []
            if rest and re.match(r'^[a-z_]', rest[0]) and im.text: out += [n for n, _ in s.fn_gens(im.text, rest[0])]
        else:
            for i, p in enumerate(parts):
                if p in s.traits:
                    rel, a, b, g = s.traits[p]
                    out = ['Self'] + [n for n, _ in g]
                    if i+1 < len(parts) and re.match(r'^[a-z_]', parts[i+1]):
                        out += [n for n, _ in s.fn_gens(s.src[rel][a:b], parts[i+1])]
                    break
            else:
                rel, n = s.modfile(parts)
                if rel and n < len(parts) and re.match(r'^[a-z_]', parts[n]):
                    out = [x for x, _ in s.fn_gens(s.src[rel], parts[n])]
        s.gcache[key] = out
        return out
