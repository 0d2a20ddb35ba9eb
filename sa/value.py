"""Value analysis: a gated value graph (gated SSA in term form) over the resolved AST.

Each function is abstracted to the term its result (and each location it writes) denotes.  Conditionals
become gates (ite terms), constant-trip loops are unrolled, other loops are summarised as one of a small
set of canonical forms (sum / product / exists / map / general loop).  Helper functions are inlined, so a
term does not depend on how the source is split into functions.  Whatever the abstraction does not
understand becomes an opaque term: comparisons that meet one are *undecided*, never violations."""
from fractions import Fraction as Fr
import os, re, sys, time
sys.setrecursionlimit(20000)

class Undecided(Exception):
    pass
class Fault(Undecided):
    """an access that is certainly invalid on a path that is certainly taken"""

# ------------------------------------------------------------------ terms
def num(x):
    if isinstance(x, float): x = Fr(repr(x))
    return ('n', Fr(x))
TRUE, FALSE = ('b', True), ('b', False)
ZERO, ONE = num(0), num(1)
VOID = ('void',)
BOTTOM = ('bottom',)
NULL = ('null',)
NPOS = num(2**64 - 1)
def S(s): return ('s', s)
def sym(n): return ('sym', n)
def app(f, *a): return ('app', f) + a
I = sym('I')

def is_num(t): return t[0] == 'n'

def as_num(t):
    if t[0] == 'n': return t[1]
    if t[0] == 'b': return Fr(int(t[1]))
    return None

def add(a, b):
    if a[0] == 'n' and b[0] == 'n': return ('n', a[1] + b[1])
    if a == ZERO: return b
    if b == ZERO: return a
    return ('+', a, b)
def neg(a):
    if a[0] == 'n': return ('n', -a[1])
    if a[0] == 'neg': return a[1]
    return ('neg', a)
def sub(a, b):
    if a[0] == 'n' and b[0] == 'n': return ('n', a[1] - b[1])
    if b == ZERO: return a
    return ('+', a, neg(b))
def mul(a, b):
    if a[0] == 'n' and b[0] == 'n': return ('n', a[1] * b[1])
    if a == ONE: return b
    if b == ONE: return a
    if a == ZERO or b == ZERO: return ZERO
    return ('*', a, b)
def div(a, b):
    if a[0] == 'n' and b[0] == 'n' and b[1] != 0: return ('n', a[1] / b[1])
    if b == ONE: return a
    return ('/', a, b)
def pw(a, n):
    return ('^', a, n)

def bnot(a):
    if a[0] == 'b': return ('b', not a[1])
    if a[0] == 'not': return a[1]
    return ('not', a)
def band(a, b):
    if a == FALSE or b == FALSE: return FALSE
    if a == TRUE: return b
    if b == TRUE: return a
    if a == b: return a
    return ('and', a, b)
def bor(a, b):
    if a == TRUE or b == TRUE: return TRUE
    if a == FALSE: return b
    if b == FALSE: return a
    if a == b: return a
    return ('or', a, b)
def ite(c, a, b):
    if c == TRUE: return a
    if c == FALSE: return b
    if a == b: return a
    if a == TRUE and b == FALSE: return c
    if a == FALSE and b == TRUE: return bnot(c)
    return ('ite', c, a, b)

BOOLK = ('<', '==', 'not', 'and', 'or', 'exists')
import decimal
GNUM = ('+', '*', '/', 'neg', '^', 'app')
GCTX = decimal.Context(prec=60); GEPS = decimal.Decimal('1e-40')
def gval(t):
    """60-digit value of a ground real term built from rationals and square roots, else None"""
    k = t[0]
    if k == 'n': return GCTX.divide(decimal.Decimal(t[1].numerator), decimal.Decimal(t[1].denominator))
    if k in ('+', '*'):
        r = None
        for x in t[1:]:
            v = gval(x)
            if v is None: return None
            r = v if r is None else (GCTX.add(r, v) if k == '+' else GCTX.multiply(r, v))
        return r
    if k == 'neg':
        v = gval(t[1]); return None if v is None else GCTX.minus(v)
    if k == '/':
        a, b = gval(t[1]), gval(t[2])
        return None if a is None or b is None or b == 0 else GCTX.divide(a, b)
    if k == 'app' and t[1] in ('sqrt', 'csqrt') and len(t) == 3:
        v = gval(t[2]); return None if v is None or v < 0 else GCTX.sqrt(v)
    if k == 'app' and t[1] == 'abs' and len(t) == 3:
        v = gval(t[2]); return None if v is None else abs(v)
    return None
def own_root(r): return r[0] == 'v' or r[0] == 'mem' and r[1][0] == 'new' and len(r[1]) == 3 and isinstance(r[1][2], int)
def cmp_(op, a, b):
    """op in < <= > >= == !=   canonical: only '<' and '=='  (NaN ignored)"""
    na, nb = as_num(a), as_num(b)
    if na is not None and nb is not None:
        r = {'<': na < nb, '<=': na <= nb, '>': na > nb, '>=': na >= nb, '==': na == nb, '!=': na != nb}[op]
        return ('b', r)
    if (na is None and a[0] in GNUM or nb is None and b[0] in GNUM):
        ga = gval(a); gb = gval(b) if ga is not None else None
        if ga is not None and gb is not None and abs(ga - gb) > GEPS * max(1, abs(ga), abs(gb)):
            return ('b', {'<': ga < gb, '<=': ga < gb, '>': ga > gb, '>=': ga > gb, '==': False, '!=': True}[op])
    if a[0] == 's' and b[0] == 's':
        if op == '==': return ('b', a[1] == b[1])
        if op == '!=': return ('b', a[1] != b[1])
    if a[0] == 'enum' and b[0] == 'enum' and a[1] == b[1]:
        return ('b', {'<': a[3] < b[3], '<=': a[3] <= b[3], '>': a[3] > b[3], '>=': a[3] >= b[3], '==': a[3] == b[3], '!=': a[3] != b[3]}[op])
    if op == '<': return ('<', a, b)
    if op == '>': return ('<', b, a)
    if op == '<=': return bnot(('<', b, a))
    if op == '>=': return bnot(('<', a, b))
    if a == b and op in ('==', '!='): return ('b', op == '==')
    if {a, b} == {TRUE, FALSE}: return ('b', op == '!=')
    if op in ('==', '!='):
        if b[0] in BOOLK and a in (ZERO, ONE): a = ('b', a == ONE)
        if a[0] in BOOLK and b in (ZERO, ONE): b = ('b', b == ONE)
    if a in (TRUE, FALSE) and b[0] in ('<', '==', 'not', 'and', 'or', 'exists'): a, b = b, a
    if b in (TRUE, FALSE) and a[0] in ('<', '==', 'not', 'and', 'or', 'exists'):
        r = a if b == TRUE else bnot(a)
        return r if op == '==' else bnot(r)
    # pointers: address of something is never null
    if a in (NULL, ZERO) and b in (NULL, ZERO) and NULL in (a, b): return ('b', op == '==')
    if a[0] == 's' and b == NULL or b[0] == 's' and a == NULL: return ('b', op == '!=')
    if a[0] == 'addr' and b in (NULL, ZERO) or b[0] == 'addr' and a in (NULL, ZERO): return ('b', op == '!=')
    if a[0] == 'addr' and b[0] == 'addr' and own_root(a[1][0]) and own_root(b[1][0]) and a[1][0] != b[1][0]: return ('b', op == '!=')
    k = ('==',) + tuple(sorted((a, b), key=repr))
    return k if op == '==' else bnot(k)

def cat(*ps):
    out = []
    for p in ps:
        if p[0] == 'cat': q = p[1:]
        else: q = (p,)
        for x in q:
            if x == ('s', ''): continue
            if out and out[-1][0] == 's' and x[0] == 's': out[-1] = ('s', out[-1][1] + x[1])
            else: out.append(x)
    if not out: return ('s', '')
    if len(out) == 1: return out[0]
    return ('cat',) + tuple(out)

def subst(t, m):
    """substitute terms (dict term->term), bottom-up"""
    memo = {}
    def go(x):
        if not isinstance(x, tuple): return x
        if x in memo: return memo[x]
        if x in m: r = m[x]
        elif x[0] in ('n', 'b', 's', 'sym', 'clo'): r = x
        else: r = rebuild(tuple(go(y) if isinstance(y, tuple) else y for y in x))
        memo[x] = r
        return r
    return go(t)

def rebuild(t):
    k = t[0]
    if k == '+': return add(t[1], t[2])
    if k == '*': return mul(t[1], t[2])
    if k == '/': return div(t[1], t[2])
    if k == 'neg': return neg(t[1])
    if k == 'ite': return ite(t[1], t[2], t[3])
    if k == 'not': return bnot(t[1])
    if k == 'and': return band(t[1], t[2])
    if k == 'or': return bor(t[1], t[2])
    if k == '<': return cmp_('<', t[1], t[2])
    if k == '==' and len(t) == 3: return cmp_('==', t[1], t[2])
    if k == 'cat': return cat(*t[1:])
    if k == 'idx': return proj(t[1], ('i', t[2]))
    if k == 'fld': return proj(t[1], ('f', t[2]))
    return t

def subterms(t, seen=None):
    if seen is None: seen = set()
    if not isinstance(t, tuple) or t in seen: return
    seen.add(t)
    yield t
    if t and t[0] in ('n', 'b', 's', 'sym', 'clo'): return
    for y in t:
        if isinstance(y, tuple): yield from subterms(y, seen)

def show(t, d=0):
    if not isinstance(t, tuple): return str(t)
    if not t: return '()'
    k = t[0]
    if d > 14: return '...'
    s = lambda x: show(x, d + 1)
    if k == 'n': return str(t[1])
    if k == 'b': return str(t[1]).lower()
    if k == 's': return '"%s"' % t[1]
    if k == 'sym': return str(t[1])
    if k == '+': return '(%s + %s)' % (s(t[1]), s(t[2]))
    if k == '*': return '%s*%s' % (s(t[1]), s(t[2]))
    if k == '/': return '%s/(%s)' % (s(t[1]), s(t[2]))
    if k == 'neg': return '-%s' % s(t[1])
    if k == '^': return '%s^%s' % (s(t[1]), s(t[2]))
    if k == 'ite': return '(%s ? %s : %s)' % (s(t[1]), s(t[2]), s(t[3]))
    if k == 'app': return '%s(%s)' % (t[1], ', '.join(s(x) for x in t[2:]))
    if k == 'fld': return '%s.%s' % (s(t[1]), t[2])
    if k == 'idx': return '%s[%s]' % (s(t[1]), s(t[2]))
    if k in ('<', '=='): return '(%s %s %s)' % (s(t[1]), k, s(t[2]))
    if k == 'cat': return ' ~ '.join(s(x) for x in t[1:])
    if k == 'not': return '!%s' % s(t[1])
    if k in ('and', 'or'): return '(%s %s %s)' % (s(t[1]), k, s(t[2]))
    if k == 'clo': return '<lambda>'
    if k == 'obj' and len(t) == 3 and isinstance(t[2], tuple): return '<obj %s %s>' % (t[1], ' '.join('%s=%s' % (a, s(b)) for a, b in t[2]))
    return '<%s>' % ' '.join(s(x) if isinstance(x, tuple) else str(x) for x in t)

# ------------------------------------------------------------------ projections / functional update
def proj(v, el):
    k = v[0]
    if el[0] == 'f':
        if k == 'with':
            return v[3] if v[2] == el[1] else proj(v[1], el)
        if k == 'obj':
            for f, x in v[2]:
                if f == el[1]: return x
            return ('fld', v, el[1])
        if k == 'ite': return ite(v[1], proj(v[2], el), proj(v[3], el))
        return ('fld', v, el[1])
    i = el[1]
    if k == 'gmap':
        for kk, x in v[1]:
            if kk == i: return x
        return ('idx', v, i)
    if k == 'upd':
        if v[2] == i: return v[3]
        if v[2][0] == 's' and i[0] == 's': return proj(v[1], el)
        a, b = as_num(v[2]), as_num(i)
        if a is not None and b is not None and a != b: return proj(v[1], el)
        return ('idx', v, i)
    if k == 'list':
        n = as_num(i)
        if n is not None and n.denominator == 1 and 0 <= n < len(v) - 1: return v[1 + int(n)]
    if k == 's':
        n = as_num(i)
        if n is not None and n.denominator == 1 and 0 <= n <= len(v[1]): return num(ord((v[1] + chr(0))[int(n)]))
    if k == 'fill' and as_num(i) is not None: return v[2]
    if k == 'map':
        return subst(v[3], {v[2]: i})
    if k == 'ite': return ite(v[1], proj(v[2], el), proj(v[3], el))
    return ('idx', v, i)

def gkey(k):
    """keys of ground maps: distinct terms are distinct keys"""
    return k[0] in ('s', 'n', 'enum') or k[0] == 'list' and all(gkey(x) and x[0] != 'addr' for x in k[1:]) or k[0] == 'addr' and len(k[1]) == 1 and k[1][0][0] == 'mem'
def gorder(k):
    if k[0] == 's': return (0, k[1], '')
    if k[0] == 'n': return (1, '', k[1]) if False else (1, '%040d' % int(k[1] * 1000 + 10**30), '')
    if k[0] == 'list': return (3, tuple(gorder(x) for x in k[1:]), '')
    return (2, repr(k), '')
def gitems(v): return v[1] if v[0] == 'gmap' else () if v[0] == 'emptymap' else None
def mitpath(path):
    """(*map_iterator).second is the mapped value, .first the key"""
    r = path[0]
    if r[0] == 'mem' and r[1][0] == 'mit' and len(path) > 1 and path[1] in (('f', 'second'), ('f', 'first')):
        if path[1][1] == 'second': return r[1][1][1] + (('i', r[1][2]),) + path[2:], None
        return None, r[1][2]
    return path, None

def put(v, path, x):
    if not path: return x
    el = path[0]
    old = proj(v, el)
    nv = put(old, path[1:], x)
    if el[0] == 'f':
        if v[0] == 'obj':
            fs = tuple((f, y) for f, y in v[2] if f != el[1]) + ((el[1], nv),)
            return ('obj', v[1], tuple(sorted(fs)))
        if v[0] == 'with' and v[2] == el[1]: return put(v[1], path[:1], nv) if False else ('with', v[1], el[1], nv)
        if v[0] == 'with' and v[2] > el[1]:
            return ('with', put(v[1], (el,), nv), v[2], v[3])
        return ('with', v, el[1], nv)
    if v[0] == 'list':
        n = as_num(el[1])
        if n is not None and n.denominator == 1 and 0 <= n < len(v) - 1:
            l = list(v); l[1 + int(n)] = nv; return tuple(l)
    if v[0] == 's':
        n = as_num(el[1]); c = as_num(nv) if nv[0] == 'n' else None
        if n is not None and c is not None and 0 <= n < len(v[1]) and 0 <= c < 256: return S(v[1][:int(n)] + chr(int(c)) + v[1][int(n) + 1:])
    if v[0] in ('emptymap', 'gmap') and gkey(el[1]):
        return ('gmap', tuple(sorted([(a, b) for a, b in (v[1] if v[0] == 'gmap' else ()) if a != el[1]] + [(el[1], nv)], key=lambda x: gorder(x[0]))))
    if v[0] == 'upd' and v[2] == el[1]: return ('upd', v[1], el[1], nv)
    return ('upd', v, el[1], nv)

# ------------------------------------------------------------------ names
_sc = {}
def strip_targs(q):
    r = _sc.get(q)
    if r is not None: return r
    m = re.search(r'(operator\s*(<=>|<<=|>>=|->\*|->|<<|>>|<=|>=|<|>|\(\)))((<.*>)?)$', q)
    tail = ''
    base = q
    if m: tail = m.group(1); base = q[:m.start()]
    out, d = [], 0
    for c in base:
        if c == '<': d += 1
        elif c == '>': d -= 1
        elif d == 0: out.append(c)
    r = (''.join(out) + tail).replace('std::__cxx11::', 'std::').replace('__gnu_cxx::', 'gnu::')
    _sc[q] = r
    return r

def is_float(t): 
    t = t.replace('const ', '').replace('&', '').strip()
    return t in ('double', 'float', 'long double')
INTS = {'int', 'unsigned int', 'long', 'unsigned long', 'short', 'unsigned short', 'char', 'unsigned char', 'signed char', 'long long', 'unsigned long long', 'bool'}
def is_int(t): return t.replace('const ', '').replace('&', '').strip() in INTS

# ------------------------------------------------------------------ machine
class Closure:
    def __init__(self, node, frame): self.node, self.frame = node, frame
    def __repr__(self): return '<closure %s>' % self.node.get('l')

class Leaf:
    __slots__ = ('kind', 'st', 'val')
    def __init__(self, kind, st, val=None): self.kind, self.st, self.val = kind, st, val
class Gate:
    __slots__ = ('c', 'a', 'b')
    def __init__(self, c, a, b): self.c, self.a, self.b = c, a, b

class Frame:
    def __init__(self, parent=None): self.m, self.parent = {}, parent
    def get(self, k):
        f = self
        while f is not None:
            if k in f.m: return f.m[k]
            f = f.parent
        return None

class St:
    """store: root -> term"""
    __slots__ = ('s', 'sure')
    def __init__(self, s=None, sure=True): self.s = s if s is not None else {}; self.sure = sure
    def copy(self): return St(dict(self.s), False)      # copies are made where paths part: what happens there need not happen

THE_END = time.time() + float(__import__('os').environ.get('VERIF_SECONDS', '540'))      # no abstract interpretation goes on after this: what is left is undecided
class Machine:
    def __init__(self, prog, overrides=None, depth=24, opaque=(), max_unroll=80, budget=400000, loop_sym=False, hooks=None, inline=None, limit=60):
        self.P, self.ov, self.maxdepth = prog, overrides or {}, depth
        self.opaque = set(opaque)
        self.n = 0
        self.budget = budget
        self.max_unroll = max_unroll
        self.stack = []
        self.notes = []
        self.inlined = set()
        self.hooks = hooks or {}
        self.inline_pred = inline
        self.loopvar = 0
        self.deadline = time.time() + limit if limit else None
        self.effects = []      # ordered opaque calls (gated) : list of term

    # ---- store access
    def fresh(self, name): self.n += 1; return ('v', self.n, name)
    def init_val(self, root):
        if root[0] == 'mem': return ('deref', root[1])
        if root[0] == 'g':
            if root[1].endswith('basic_string<char>::npos'): return NPOS
            return ('none',) if root[1] == 'std::nullopt' else ('glob', root[1])
        return ('uninit', root[2])
    def rd(self, st, path):
        if path[0][0] == 'mem' and path[0] not in st.s:
            path, key = mitpath(path)
            if path is None: return key
        v = st.s.get(path[0])
        if v is None:
            v = self.global_value(path[0]) if path[0][0] == 'g' else None
            if v is None: v = self.init_val(path[0])
        for el in path[1:]:
            if el[0] == 'i' and st.sure and v[0] == 'list' and el[1][0] == 'n' and not 0 <= el[1][1] < len(v) - 1: raise Fault('entry %s of %d is read' % (show(el[1]), len(v) - 1))
            if el[0] == 'i' and st.sure and v[0] == 's' and el[1][0] == 'n' and not 0 <= el[1][1] <= len(v[1]): raise Fault('character %s of "%s" is read' % (show(el[1]), v[1][:40]))
            v = proj(v, el)
        return v
    def wr(self, st, path, x):
        if path[0][0] == 'mem' and len(path) > 1:
            path, key = mitpath(path)
            if path is None: return
        if len(path) == 1: st.s[path[0]] = x; return
        base = st.s.get(path[0])
        if base is None:
            base = self.global_value(path[0]) if path[0][0] == 'g' else None
            if base is None: base = self.init_val(path[0])
        st.s[path[0]] = put(base, path[1:], x)
    def global_value(self, root):
        key = ('G', root)
        c = self.hooks.get('_gcache')
        if c is None: c = self.hooks['_gcache'] = {}
        if root in c: return c[root]
        c[root] = None
        v = self.P.vars.get(root[1])
        val = None
        if v and 'init' in v['v'] and (v['v'].get('const') or v['v']['t'].startswith('const ') or '[' in v['v']['t'] and 'const' in v['v']['t']):
            try:
                st = St(); val = self.rv(v['v']['init'], st, Frame())
            except Undecided: val = None
        elif v and self.hooks.get('static_init'):
            # objects of static storage duration that only their class can reach: state right after static initialisation
            try:
                if 'init' in v['v']: st = St(); val = self.rv(v['v']['init'], st, Frame())
                else:
                    from . import lib
                    val = lib.default_value(v['v']['t'])
                    if val[0] == 'obj': val = None
            except Undecided: val = None
        c[root] = val
        return val

    def tick(self):
        self.budget -= 1
        if self.budget & 255 == 0 and self.deadline and time.time() > min(self.deadline, THE_END): raise Undecided('analysis time exceeded')
        if self.budget < 0: raise Undecided('analysis budget exceeded')

    # ---- merging
    def merge(self, c, a, b):
        s = {}
        for k in set(a.s) | set(b.s):
            x, y = a.s.get(k), b.s.get(k)
            if x is None: x = y if k[0] == 'v' else (self.global_value(k) if k[0] == 'g' else None) or self.init_val(k)
            if y is None: y = x if k[0] == 'v' else (self.global_value(k) if k[0] == 'g' else None) or self.init_val(k)
            s[k] = self.mergeval(c, x, y)
        return St(s, False)
    def mergeval(self, c, x, y):
        if x == y: return x
        # merge structured values fieldwise
        if x[0] == 'obj' and y[0] == 'obj' and x[1] == y[1]:
            fx, fy = dict(x[2]), dict(y[2])
            ks = sorted(set(fx) | set(fy))
            return ('obj', x[1], tuple((k, self.mergeval(c, fx.get(k, ('fld', x, k)), fy.get(k, ('fld', y, k)))) for k in ks))
        if 'with' in (x[0], y[0]):
            bx, fx = unwith(x); by, fy = unwith(y)
            if bx == by:
                r = bx
                for k in sorted(set(fx) | set(fy)):
                    r = ('with', r, k, self.mergeval(c, fx.get(k, proj(bx, ('f', k))), fy.get(k, proj(by, ('f', k)))))
                return r
        if x[0] == 'list' and y[0] == 'list' and len(x) == len(y):
            return ('list',) + tuple(self.mergeval(c, p, q) for p, q in zip(x[1:], y[1:]))
        return ite(c, x, y)

    def then(self, o, k):
        if isinstance(o, Gate):
            a, b = self.then(o.a, k), self.then(o.b, k)
            return self.gate(o.c, a, b)
        if o.kind != 'normal': return o
        return k(o.st)
    def gate(self, c, a, b):
        if c == TRUE: return a
        if c == FALSE: return b
        if isinstance(a, Leaf) and isinstance(b, Leaf) and a.kind == b.kind:
            if a.kind in ('normal', 'brk', 'cont'): return Leaf(a.kind, self.merge(c, a.st, b.st))
            if a.kind == 'ret':
                va, vb = a.val, b.val
                if va == vb: return Leaf('ret', self.merge(c, a.st, b.st), va)
                if va and vb and va[0] == 'lref': va = self.rd(a.st, va[1])
                if va and vb and vb[0] == 'lref': vb = self.rd(b.st, vb[1])
                return Leaf('ret', self.merge(c, a.st, b.st), self.mergeval(c, va, vb))
            if a.kind == 'throw': return Leaf('throw', a.st)
        return Gate(c, a, b)
    def collapse(self, o, ret=True):
        """outcome -> (value, state); falls-off-the-end counts as void return"""
        if isinstance(o, Gate):
            va, sa = self.collapse(o.a); vb, sb = self.collapse(o.b)
            if va and va[0] == 'lref' and not (vb and vb == va): va = self.rd(sa, va[1])
            if vb and vb[0] == 'lref' and not (va and vb == va): vb = self.rd(sb, vb[1])
            if va == BOTTOM: return (vb if False else self.mergeval(o.c, va, vb)), sb
            if vb == BOTTOM: return self.mergeval(o.c, va, vb), sa
            return self.mergeval(o.c, va, vb), self.merge(o.c, sa, sb)
        if o.kind == 'ret': return o.val, o.st
        if o.kind == 'throw': return BOTTOM, o.st
        return VOID, o.st

    # ---- statements
    def block(self, stmts, i, st, fr):
        if i == len(stmts): return Leaf('normal', st)
        o = self.stmt(stmts[i], st, fr)
        if isinstance(o, Leaf) and o.kind == 'normal':
            # tail loop to limit recursion
            return self.block(stmts, i + 1, o.st, fr)
        return self.then(o, lambda s: self.block(stmts, i + 1, s, fr))

    def stmt(self, n, st, fr):
        self.tick()
        if n is None: return Leaf('normal', st)
        k = n['k']
        if k == 'block': return self.block(n['b'], 0, st, fr)
        if k == 'decl':
            for v in n['v']: self.declare(v, st, fr)
            return Leaf('normal', st)
        if k == 'if':
            if 'init' in n:
                o = self.stmt(n['init'], st, fr)
                st = o.st
            if 'cv' in n: self.declare(n['cv'], st, fr)
            c = ('b', bool(n['cxv'])) if 'cxv' in n else self.truth(self.rv(n['c'], st, fr))
            if c == TRUE: return self.stmt(n['t'], st, fr)
            if c == FALSE: return self.stmt(n.get('e'), st, fr)
            a = self.stmt(n['t'], st.copy(), fr)
            b = self.stmt(n.get('e'), st.copy(), fr)
            o = self.gate(c, a, b)
            if isinstance(o, Leaf) and o.kind == 'normal' and o.st is not st: o.st.sure = st.sure
            return o
        if k == 'ret':
            if 'e' not in n: return Leaf('ret', st, VOID)
            if fr.get('retref'):
                p = self.lv(n['e'], st, fr, soft=True)
                if p is not None: return Leaf('ret', st, ('lref', p))
            return Leaf('ret', st, self.rv(n['e'], st, fr))
        if k in ('break',): return Leaf('brk', st)
        if k == 'continue': return Leaf('cont', st)
        if k == 'null': return Leaf('normal', st)
        if k in ('for', 'rfor', 'while', 'do'): return self.loop(n, st, fr)
        if k == 'switch': return self.switch(n, st, fr)
        if k == 'omp': return self.stmt(n.get('b'), st, fr)
        if k == 'try': return self.stmt(n['b'], st, fr)
        if k == 'label': return self.stmt(n['b'], st, fr)
        if k == 'throw': 
            return Leaf('throw', st)
        if k == 'stmt?': raise Undecided('statement ' + n.get('cls', '?'))
        # expression statement
        v = self.rv(n, st, fr)
        if v == BOTTOM: return Leaf('throw', st)
        return Leaf('normal', st)

    def truth(self, v):
        if v[0] == 'b': return v
        if v[0] == 'n': return ('b', v[1] != 0)
        if v == NULL: return FALSE
        if v[0] == 'addr': return TRUE
        if v[0] in ('<', '==', 'not', 'and', 'or', 'exists', 'bool'): return v
        if v[0] == 'ite': return ite(v[1], self.truth(v[2]), self.truth(v[3]))
        return v

    def declare(self, v, st, fr):
        t = v['t']
        if 'bind' in v:
            val = self.rv(v['init'], st, fr) if 'init' in v else ('uninit', v['n'])
            root = self.fresh('sb'); st.s[root] = val
            fr.m[v['id']] = (root,)
            isarr = None
            for i, b in enumerate(v['bind']):
                fr.m[b['id']] = (root, ('f', ['first', 'second'][i]) if val[0] != 'list' and len(v['bind']) == 2 else ('i', num(i)))
            return
        if t.endswith('&') and 'init' in v:
            p = self.lv(v['init'], st, fr, soft=True)
            if p is not None: fr.m[v['id']] = p; return
        root = self.fresh(v['n'])
        fr.m[v['id']] = (root,)
        if v.get('static') and not v.get('const'):
            fr.m[v['id']] = (('g', 'static:' + v['n']),); return
        if 'init' in v:
            st.s[root] = self.coerce(self.rv(v['init'], st, fr), t)
        else:
            st.s[root] = ('uninit', v['n'])

    def coerce(self, v, t):
        return v

    def switch(self, n, st, fr):
        c = self.rv(n['c'], st, fr)
        body = n['b']['b'] if n['b']['k'] == 'block' else [n['b']]
        # flatten cases into list of (labels, index)
        flat = []
        for s in body:
            labels = []
            while s is not None and s['k'] in ('case', 'default'):
                labels.append(('d', None) if s['k'] == 'default' else ('c', s['v']))
                s = s.get('b')
            flat.append((labels, s))
        def run_from(i, st):
            stm = [s for _, s in flat[i:] if s is not None]
            o = self.block(stm, 0, st, fr)
            return o
        conds = []
        dflt = None
        for i, (labels, s) in enumerate(flat):
            for kind, v in labels:
                if kind == 'c':
                    conds.append((cmp_('==', c, self.rv(v, st, fr)), i))
                else: dflt = i
        def chain(j, st):
            if j == len(conds):
                return run_from(dflt, st) if dflt is not None else Leaf('normal', st)
            cc, i = conds[j]
            if cc == TRUE: return run_from(i, st)
            if cc == FALSE: return chain(j + 1, st)
            return self.gate(cc, run_from(i, st.copy()), chain(j + 1, st.copy()))
        o = chain(0, st)
        def unbrk(o):
            if isinstance(o, Gate): return self.gate(o.c, unbrk(o.a), unbrk(o.b))
            if o.kind == 'brk': return Leaf('normal', o.st)
            return o
        return unbrk(o)

    # ---- loops
    def loop(self, n, st, fr):
        k = n['k']
        fr2 = fr
        if k == 'for':
            if 'init' in n and n['init']:
                o = self.stmt(n['init'], st, fr2); st = o.st
        if k == 'rfor':
            rng = self.rv(n['r'], st, fr)
            rp = self.lv(n['r'], st, fr, soft=True)
            if rng[0] == 'obj' and rng[1] != 'pair':
                r2 = self.user_range(rng, rp, st)
                if r2 is not None: rng, rp = r2
            elems = self.elements(rng)
            if gitems(rng) is not None:
                items = gitems(rng); v = n['v']
                back = rp is not None and v['t'].endswith('&') and not v['t'].startswith('const ')
                def itm(i, st):
                    if i == len(items): return Leaf('normal', st)
                    key = items[i][0]
                    cur = proj(self.rd(st, rp), ('i', key)) if rp is not None else items[i][1]
                    root = self.fresh('kv')
                    if cur == ('setmark',): st.s[root] = key
                    else: st.s[root] = ('obj', 'pair', (('first', key), ('second', cur)))
                    if 'bind' in v:
                        for j, b in enumerate(v['bind']): fr2.m[b['id']] = (root, ('f', ['first', 'second'][j]))
                    else: fr2.m[v['id']] = (root,)
                    o = self.stmt(n['b'], st, fr2)
                    def nxt(s):
                        if back and cur != ('setmark',):
                            new = proj(s.s[root], ('f', 'second'))
                            if new != cur: self.wr(s, rp + (('i', key),), new)
                        return itm(i + 1, s)
                    return self.cont(o, nxt)
                return self.unbreak(itm(0, st))
            if elems is not None:
                def it(i, st):
                    if i == len(elems): return Leaf('normal', st)
                    self.bind_elem(n['v'], st, fr2, (rp + (('i', num(i)),)) if rp is not None else None, elems[i])
                    o = self.stmt(n['b'], st, fr2)
                    return self.cont(o, lambda s: it(i + 1, s))
                return self.unbreak(it(0, st))
            return self.symloop(n, st, fr2, rng, rp)
        # try constant unrolling
        saved_budget = self.budget
        st0 = st.copy()
        try:
            return self.unroll(n, st, fr2)
        except NotConstant:
            self.budget = saved_budget - 50
            return self.symloop(n, st0, fr2, None, None)

    def user_range(self, obj, rp, st):
        """range-for over an object with its own begin() / end(): the container they range over, if it is all of one container"""
        if rp is None: rp = self.tmp(obj, st)
        ends = []
        for q in ('begin', 'end'):
            fs = [f for f in self.P.find(obj[1] + '::' + q) if f.get('body') and not f['p']]
            if not fs: return None
            f2 = Frame(); f2.m['this'] = rp
            v = self.run(fs[0]['body'], st, f2)
            if v[0] != 'it' or v[1][0] != 'addr': return None
            ends.append(v)
        if ends[0][1] != ends[1][1] or ends[0][2] != ZERO: return None
        c = self.rd(st, ends[0][1][1])
        if c[0] != 'list' or as_num(ends[1][2]) != len(c) - 1: return None
        return c, ends[0][1][1]

    def unroll(self, n, st, fr):
        body, cond, inc = n['b'], n.get('c'), n.get('inc')
        def it(i, st, first):
            if i > self.max_unroll: raise NotConstant()
            if not (n['k'] == 'do' and first):
                if cond is not None:
                    c = self.truth(self.rv(cond, st, fr))
                    if c == FALSE: return Leaf('normal', st)
                    if c != TRUE: raise NotConstant()
            o = self.stmt(body, st, fr)
            def nxt(s):
                if inc is not None: self.rv(inc, s, fr)
                return it(i + 1, s, False)
            return self.cont(o, nxt)
        return self.unbreak(it(0, st, True))

    def cont(self, o, k):
        if isinstance(o, Gate): return self.gate(o.c, self.cont(o.a, k), self.cont(o.b, k))
        if o.kind in ('normal', 'cont'): return k(o.st)
        return o
    def unbreak(self, o):
        if isinstance(o, Gate): return self.gate(o.c, self.unbreak(o.a), self.unbreak(o.b))
        if o.kind == 'brk': return Leaf('normal', o.st)
        return o

    def elements(self, v):
        if v[0] == 'list': return list(v[1:])
        if v[0] == 's': return [num(ord(c)) for c in v[1]]
        return None
    def bind_elem(self, v, st, fr, path, val):
        if 'bind' in v:
            root = self.fresh('sb'); st.s[root] = val
            for i, b in enumerate(v['bind']):
                fr.m[b['id']] = ((path if path is not None and v['t'].endswith('&') else (root,)) + (('f', ['first', 'second'][i]) if len(v['bind']) == 2 else ('i', num(i)),))
            return
        if v['t'].endswith('&') and path is not None: fr.m[v['id']] = path; return
        root = self.fresh(v['n']); st.s[root] = val; fr.m[v['id']] = (root,)

    def symloop(self, n, st, fr, rng, rp):
        """summarise a loop with symbolic trip count"""
        self.loopvar += 1
        depth = self.loopdepth = getattr(self, 'loopdepth', 0) + 1
        kv = sym('#%d' % depth)
        try:
            return self._symloop(n, st, fr, rng, rp, kv)
        finally:
            self.loopdepth -= 1

    def _symloop(self, n, st, fr, rng, rp, kv):
        body = n['b']
        probe_st = st.copy()
        ivar = None; domain = None; step = None
        if n['k'] == 'rfor':
            domain = ('range', ZERO, app('size', rng))
            def bind(s): self.bind_elem(n['v'], s, fr, rp + (('i', kv),) if rp is not None else None, proj(rng, ('i', kv)))
        else:
            # find induction variable: the root changed by inc by constant +-1
            cond, inc = n.get('c'), n.get('inc')
            if n['k'] in ('while', 'do') or cond is None or inc is None: raise Undecided('while-loop')
            s1 = st.copy()
            self.rv(inc, s1, fr)
            changed = [r for r in s1.s if s1.s[r] != st.s.get(r)]
            if len(changed) != 1: raise Undecided('loop increment')
            root = changed[0]
            cur = st.s[root]
            if cur[0] == 'it': step = sub(s1.s[root][2], cur[2])
            else: step = sub(s1.s[root], cur)
            step = Normal().const(step)
            if step not in (1, -1): raise Undecided('loop step')
            s2 = st.copy()
            ksym = kv if cur[0] != 'it' else ('it', cur[1], kv)
            s2.s[root] = ksym
            c = self.truth(self.rv(cond, s2, fr))
            domain = self.domain(c, kv, cur[2] if cur[0] == 'it' else cur, step)
            if domain is None: raise Undecided('loop condition ' + show(c))
            ivar = root
            def bind(s): s.s[root] = ksym
        # pass 1: find modified roots
        s = st.copy(); bind(s)
        pre = dict(s.s)
        # loop-carried roots become symbols
        o = self.stmt(body, s, fr)
        mods = set()
        def scan(o):
            if isinstance(o, Gate): scan(o.a); scan(o.b); return
            for r in o.st.s:
                if r in pre and o.st.s[r] != pre[r] and r != ivar: mods.add(r)
                elif r not in pre and r[0] in ('mem', 'g'): mods.add(r)
        scan(o)
        mods = sorted(mods, key=lambda r: (r[0], str(r[1:])))
        # pass 2 with symbols for carried
        s = st.copy(); 
        init = {}
        csyms = {}
        for j, r in enumerate(mods):
            init[r] = self.rd(st, (r,))
            csyms[r] = ('carry', kv[1], j)
            s.s[r] = csyms[r]
        bind(s)
        o = self.stmt(body, s, fr)
        return self.summarise(o, st, s, kv, domain, mods, init, csyms)

    def domain(self, c, kv, start, step):
        # c is a condition on kv;  <(kv, N) -> range(start,N)
        if step == 1:
            if c[0] == '<' and c[1] == kv: return ('range', start, c[2])
            if c[0] == 'not' and c[1][0] == '<' and c[1][2] == kv: return ('range', start, add(c[1][1], ONE))
            if c[0] == 'not' and c[1][0] == '==' and kv in c[1][1:]:
                o = c[1][2] if c[1][1] == kv else c[1][1]
                return ('range', start, o)
            # affine: kv + a < N
            if c[0] == '<':
                d = Normal().poly(sub(c[2], c[1]))
                if d is not None:
                    # N - k form
                    m = ((kv, 1),)
                    if d.get(m) == -1 and all(kv not in [a for a, _ in mm] for mm in d if mm != m):
                        rest = {k: v for k, v in d.items() if k != m}
                        return ('range', start, poly_term(rest))
        else:
            # descending: i >= 0 or i != -1, order reversed: treat as range(lo, start+1) (reversed)
            if c[0] == 'not' and c[1][0] == '<' and c[1][1] == kv: return ('rrange', c[1][2], add(start, ONE))
            if c[0] == '<' and c[2] == kv: return ('rrange', add(c[1], ONE), add(start, ONE))
            if c[0] == 'not' and c[1][0] == '==' and kv in c[1][1:]:
                o = c[1][2] if c[1][1] == kv else c[1][1]
                return ('rrange', add(o, ONE), add(start, ONE))
        return None

    def summarise(self, o, st, sbody, kv, domain, mods, init, csyms):
        rets = []
        def leaves(o, c):
            if isinstance(o, Gate):
                leaves(o.a, band(c, o.c)); leaves(o.b, band(c, bnot(o.c))); return
            rets.append((c, o))
        leaves(o, TRUE)
        early = [(c, l) for c, l in rets if l.kind in ('ret', 'brk', 'throw')]
        out = st.copy()
        if early:
            carr = set(csyms.values())
            kinds = {l.kind for _, l in early}
            # early return of a loop-invariant value, no other carried state changes
            ec = FALSE
            for c, _ in early: ec = bor(ec, c)
            normal = [(c, l) for c, l in rets if l.kind in ('normal', 'cont')]
            modchg = False
            for c, l in normal:
                for r in mods:
                    if l.st.s.get(r) != csyms[r]: modchg = True
            for t in subterms(ec):
                if t in carr: modchg = True
            if modchg: raise Undecided('early exit with carried state')
            if kinds == {'ret'} and all(l.val == early[0][1].val for _, l in early) and not any(t == kv for t in subterms(early[0][1].val)):
                e = ('exists', domain_fwd(domain), kv, ec)
                return self.gate(e, Leaf('ret', st.copy(), early[0][1].val), Leaf('normal', out))
            if kinds == {'ret'}:
                # first-match selection
                v = None
                for c, l in reversed(early): v = l.val if v is None else ite(c, l.val, v)
                e = ('exists', domain_fwd(domain), kv, ec)
                return self.gate(e, Leaf('ret', st.copy(), ('first', domain, kv, ec, v)), Leaf('normal', out))
            if kinds == {'brk'}:
                e = ('exists', domain_fwd(domain), kv, ec)
                s2 = st.copy()
                ok = True
                vals = {}
                for r in mods:
                    v = None
                    for c, l in reversed(early):
                        x = l.st.s.get(r)
                        v = x if v is None else ite(c, x, v)
                    if any(t == kv or t in carr for t in subterms(v)) :
                        if v == csyms[r]: continue
                        v = ('first', domain, kv, ec, v)
                    vals[r] = v
                for r, v in vals.items(): s2.s[r] = v
                return Leaf('normal', self.merge(e, s2, out))
            raise Undecided('loop with mixed exits')
        # merge normal outcomes
        fin = None
        def mergeall(o):
            if isinstance(o, Gate):
                a, b = mergeall(o.a), mergeall(o.b)
                return self.merge(o.c, a, b)
            return o.st
        fs = mergeall(o)
        for r in mods:
            v = fs.s.get(r)
            out.s[r] = self.reduce(v, csyms, r, init, kv, domain, fs, mods)
        return Leaf('normal', out)

    def reduce(self, v, csyms, r, init, kv, domain, fs, mods):
        c = csyms[r]
        others = set(csyms.values()) - {c}
        if v == c: return init[r]
        return self.reduceval(v, c, others, init[r], kv, domain, r, fs, csyms, mods)

    def reduceval(self, v, c, others, ini, kv, domain, r, fs, csyms, mods):
        dep = lambda t: any(x in others or x == c for x in subterms(t))
        # structured: fieldwise
        if v[0] == 'with':
            b, f = unwith(v)
            if b == c:
                res = ini
                for k in sorted(f):
                    res = put(res, (('f', k),), self.reduceval(f[k], ('fld', c, k), others | {c}, proj(ini, ('f', k)), kv, domain, r, fs, csyms, mods))
                return res
        if v[0] == 'list' and ini[0] == 'list' and len(v) == len(ini):
            return ('list',) + tuple(self.reduceval(x, proj(c, ('i', num(i))), others | {c}, ini[1 + i], kv, domain, r, fs, csyms, mods) if x != ('idx', c, num(i)) else ini[1 + i] for i, x in enumerate(v[1:]))
        d = domain_fwd(domain)
        # sum
        if v[0] == '+':
            ts = flatten('+', v)
            if ts.count(c) == 1:
                rest = [t for t in ts if t != c]
                if not any(x == c or x in others for t in rest for x in subterms(t)):
                    b = rest[0]
                    for t in rest[1:]: b = add(b, t)
                    return add(ini, ('sum', d, kv, b))
        if v[0] == '*':
            ts = flatten('*', v)
            if ts.count(c) == 1:
                rest = [t for t in ts if t != c]
                if not any(x == c or x in others for t in rest for x in subterms(t)):
                    b = rest[0]
                    for t in rest[1:]: b = mul(b, t)
                    return mul(ini, ('prod', d, kv, b))
        if v[0] == 'neg' and v[1] == c: return mul(ini, ('prod', d, kv, num(-1)))
        if v[0] == 'and' and c in v[1:]:
            rest = v[2] if v[1] == c else v[1]
            if not dep(rest): return band(ini, bnot(('exists', d, kv, bnot(rest))))
        if v[0] == 'or' and c in v[1:]:
            rest = v[2] if v[1] == c else v[1]
            if not dep(rest): return bor(ini, ('exists', d, kv, rest))
        if v[0] == 'ite' and v[2] in (TRUE, FALSE) and v[3] == c and not dep(v[1]):
            e = ('exists', d, kv, v[1]); return ite(e, v[2], ini)
        if v[0] == 'ite' and v[3] in (TRUE, FALSE) and v[2] == c and not dep(v[1]):
            e = ('exists', d, kv, bnot(v[1])); return ite(e, v[3], ini)
        # elementwise map:  upd(c, k, f(k, c[k]))
        if v[0] == 'upd' and v[1] == c and v[2] == kv:
            self_el = ('idx', c, kv)
            b = subst(v[3], {self_el: ('idx', ini, kv) if ini[0] != 'map' else proj(ini, ('i', kv))})
            if not any(x == c or x in others for x in subterms(b)):
                return ('mapover', ini, d, kv, b)
        # conditional map
        if v[0] == 'ite':
            pass
        # append
        if v[0] == 'app' and v[1] == 'append' and v[2] == c and not dep(v[3]):
            return ('app', 'extend', ini, ('maplist', domain, kv, v[3]))
        # set insert / filter
        if v[0] == 'ite' and v[3] == c and v[2][0] == 'app' and v[2][1] == 'append' and v[2][2] == c and not dep(v[1]) and not dep(v[2][3]):
            return ('app', 'extend', ini, ('filterlist', domain, kv, v[1], v[2][3]))
        if v[0] == 'ite' and v[2] == c and v[3][0] == 'app' and v[3][1] == 'append' and v[3][2] == c and not dep(v[1]) and not dep(v[3][3]):
            return ('app', 'extend', ini, ('filterlist', domain, kv, bnot(v[1]), v[3][3]))
        if v[0] == 'cat' and v[1] == c and not any(dep(t) for t in v[2:]):
            return cat(ini, ('catover', domain, kv, cat(*v[2:])))
        if not dep(v) and not any(x == kv for x in subterms(v)):
            return ite(('exists', d, kv, TRUE), v, ini)
        # general loop
        ms = tuple((csyms[m], init_of(ini if m == r else None, m), fs.s.get(m)) for m in mods)
        return ('loop', domain, kv, c, ini, v, tuple((csyms[m], fs.s.get(m)) for m in mods))

    # ---- lvalues
    def lv(self, n, st, fr, soft=False):
        k = n['k']
        if k == 'ref':
            if n.get('dk') in ('var', 'parm', 'bind'):
                p = fr.get(n['id'])
                if p is None:
                    root = ('v', -n['id'], n['n'])
                    if root not in st.s:
                        st.s[root] = ('sym', n['n'])
                    return (root,)
                return p
            if n.get('dk') in ('gvar', 'svar'):
                p = fr.get(n['id'])
                if p is not None: return p
                return (('g', n.get('q', n['n'])),)
            if soft: return None
            raise Undecided('lvalue ref ' + n['n'])
        if k == 'mem' and n.get('dk') == 'field':
            if n.get('arrow'):
                p = self.deref(self.rv(n['b'], st, fr), st)
            else:
                p = self.lv(n['b'], st, fr, soft)
                if p is None:
                    # field of rvalue: materialise
                    v = self.rv(n['b'], st, fr); root = self.fresh('tmp'); st.s[root] = v; p = (root,)
            return p + (('f', n['n']),)
        if k == 'mem' and n.get('dk') == 'static': return (('g', n['q']),)
        if k == 'un' and n['op'] == '*':
            b = n['a'][0]
            return self.deref(self.rv(b, st, fr), st)
        if k == 'un' and n['op'] in ('++', '--') and not n.get('post'):
            self.rv(n, st, fr); return self.lv(n['a'][0], st, fr, soft)
        if k == 'idx':
            b = self.lv(n['a'][0], st, fr, soft=True)
            i = self.rv(n['a'][1], st, fr)
            if b is None:
                v = self.rv(n['a'][0], st, fr)
                b = self.deref(v, st) if v[0] in ('addr',) else None
                if b is None:
                    if v[0] == 'sym' or v[0] == 'fld': b = (('mem', v),); return b + (('i', i),)
                    root = self.fresh('tmp'); st.s[root] = v; b = (root,)
            else:
                cur = self.rd(st, b)
                if cur[0] == 'addr':
                    b = cur[1]
                    if len(b) > 1 and b[-1][0] == 'i' and self.rd(st, b)[0] not in ('list', 'upd', 'fill'): i = add(b[-1][1], i); b = b[:-1]
                elif cur[0] == 'it' and cur[1][0] == 'addr': b = cur[1][1]; i = add(cur[2], i)
                elif cur[0] == 'ptradd': 
                    b = cur[1]; i = add(cur[2], i)
            return b + (('i', i),)
        if k == 'call' and n.get('op') == '[]' and len(n['a']) == 2:
            h = self.hook_call(n, st, fr, lval=True)
            if h is not None: return h[1] if h[0] == 'lref' else self.tmp(h, st)
            f = strip_targs(n.get('f', ''))
            if self.container_index(f):
                b = self.lv(n['a'][0], st, fr, soft=True)
                i = self.rv(n['a'][1], st, fr)
                if b is None: b = self.tmp(self.rv(n['a'][0], st, fr), st)
                if ('map' in f):
                    cur = self.rd(st, b)
                    if gitems(cur) is not None and gkey(i) and not any(kk == i for kk, _ in gitems(cur)):
                        from .lib import default_value
                        self.wr(st, b + (('i', i),), default_value(n.get('t', '')))
                    return b + (('i', i),)
                return b + (('i', i),)
        if k == 'call' and n.get('op') in ('*',) and len(n['a']) == 1:
            f = strip_targs(n.get('f', ''))
            if f.startswith('std::') or f.startswith('gnu::'):
                return self.deref(self.rv(n['a'][0], st, fr), st)
        if k in ('call', 'mcall'):
            v = self.call(n, st, fr)
            if v[0] == 'lref': return v[1]
            if soft: 
                root = self.fresh('tmp'); st.s[root] = v; return (root,)
            return self.tmp(v, st)
        if k == 'asg':
            self.rv(n, st, fr); return self.lv(n['a'][0], st, fr, soft)
        if k == 'cast':
            if n.get('ck') in ('NoOp', 'LValueToRValue', 'DerivedToBase', 'UncheckedDerivedToBase', 'BaseToDerived', 'Dynamic', 'LValueBitCast') : return self.lv(n['a'][0], st, fr, soft)
            if soft: return None
        if k == 'ctor' and (n.get('copy') or n.get('move')) and len(n['a']) >= 1 and soft and False: pass
        if k == 'cond':
            c = self.truth(self.rv(n['a'][0], st, fr))
            if c == TRUE: return self.lv(n['a'][1], st, fr, soft)
            if c == FALSE: return self.lv(n['a'][2], st, fr, soft)
            if soft: return None
        if soft: return None
        return self.tmp(self.rv(n, st, fr), st)
    def tmp(self, v, st):
        root = self.fresh('tmp'); st.s[root] = v; return (root,)
    def deref(self, v, st):
        if v[0] == 'addr': return v[1]
        if v[0] == 'it' and v[1][0] == 'addr' and st.sure and v[2][0] == 'n':
            g = gitems(self.rd(st, v[1][1]))
            if g is not None and v[2][1] >= len(g): raise Fault('the end of a map is dereferenced')
        if v[0] == 'it': return ((v[1][1] if v[1][0] == 'addr' else self.tmp(v[1], st))) + (('i', v[2]),)
        if v[0] == 'rit': return ((v[1][1] if v[1][0] == 'addr' else self.tmp(v[1], st))) + (('i', sub(v[2], ONE)),)
        if v[0] == 'ptradd': return v[1] + (('i', v[2]),)
        if v[0] == 'new': return (('mem', v),)
        if v == NULL and st.sure: raise Fault('a null pointer is dereferenced')
        return (('mem', v),)
    def container_index(self, f):
        return f in ('std::vector::operator[]', 'std::array::operator[]', 'std::map::operator[]', 'std::string::operator[]', 'std::basic_string::operator[]', 'std::vector::at', 'std::array::at', 'std::unordered_map::operator[]', 'std::deque::operator[]', 'std::map::at')

    # ---- rvalues
    def rv(self, n, st, fr):
        self.tick()
        k = n['k']
        if k == 'lit':
            v = n['v']
            if v == 'true': return TRUE
            if v == 'false': return FALSE
            if n.get('fl'):
                s = n.get('src', v).rstrip('fFlL')
                try: return ('n', Fr(s))
                except Exception: return ('n', Fr(v))
            return ('n', Fr(int(v)))
        if k == 'str': return ('s', n['v'])
        if k == 'nullptr': return NULL
        if k == 'zero':
            t = n['t']
            if is_float(t) or is_int(t): return ZERO
            if t.endswith('*'): return NULL
            return ('obj', t, ())
        if k == 'this':
            p = fr.get('this')
            return ('addr', p) if p is not None else ('sym', 'this')
        if k == 'ref':
            if n.get('dk') == 'enum': return ('enum', n['en'], n['n'], Fr(int(n['v'])))
            if n.get('dk') == 'fn': return ('fn', n['u'], n['q'])
            p = self.lv(n, st, fr, soft=True)
            if p is None:
                if n.get('q', n['n']).endswith('basic_string<char>::npos'): return NPOS
                return ('none',) if n.get('q') == 'std::nullopt' else ('glob', n.get('q', n['n']))
            return self.rd(st, p)
        if k == 'mem':
            if n.get('dk') == 'fn': return ('fn', n['u'], n['q'])
            p = self.lv(n, st, fr)
            return self.rd(st, p)
        if k == 'bin': return self.binop(n, st, fr)
        if k == 'asg':
            op = n['op']
            p = self.lv(n['a'][0], st, fr)
            v = self.rv(n['a'][1], st, fr)
            if op != '=':
                cur = self.rd(st, p)
                v = self.arith(op[:-1], cur, v, n.get('ct') or n['t'], n['a'][0].get('t', ''), n['a'][1].get('t', ''))
                if is_int(n['a'][0].get('t', 'x')) and is_float(n.get('ct') or ''): v = self.trunc(v)
            if st.sure and len(p) > 1 and p[-1][0] == 'i' and p[-1][1][0] == 'n':
                c = self.rd(st, p[:-1])
                if c[0] == 'list' and len(c) > 1 and not 0 <= p[-1][1][1] < len(c) - 1: raise Fault('entry %s of %d is written' % (show(p[-1][1]), len(c) - 1))
            self.wr(st, p, v)
            return v
        if k == 'un': return self.unop(n, st, fr)
        if k == 'cond':
            c = self.truth(self.rv(n['a'][0], st, fr))
            if c == TRUE: return self.rv(n['a'][1], st, fr)
            if c == FALSE: return self.rv(n['a'][2], st, fr)
            sa, sb = st.copy(), st.copy()
            a, b = self.rv(n['a'][1], sa, fr), self.rv(n['a'][2], sb, fr)
            m = self.merge(c, sa, sb); st.s = m.s
            return self.mergeval(c, a, b)
        if k == 'cast': return self.cast(n, st, fr)
        if k in ('call', 'mcall'):
            v = self.call(n, st, fr)
            if v[0] == 'lref': return self.rd(st, v[1])
            return v
        if k == 'ctor': return self.ctor(n, st, fr)
        if k == 'idx':
            return self.rd(st, self.lv(n, st, fr))
        if k == 'lambda':
            f2 = Frame(fr)
            c = Closure(n, f2)
            for cp in n['caps']:
                if cp['k'] == 'copy':
                    if 'init' in cp:
                        root = self.fresh(cp['n']); st.s[root] = self.rv(cp['init'], st, fr); f2.m[cp['id']] = (root,)
                    else:
                        p = fr.get(cp['id'])
                        if p is not None:
                            root = self.fresh(cp['n']); st.s[root] = self.rd(st, p); f2.m[cp['id']] = (root,)
            self.closures = getattr(self, 'closures', {})
            self.closures[id(c)] = c
            return ('clo', id(c))
        if k == 'ilist':
            return self.ilist(n, st, fr)
        if k == 'new':
            if 'i' in n: v = self.rv(n['i'], st, fr)
            else: v = ('obj', n['nt'], ())
            self.n += 1
            root = ('mem', ('new', n['nt'], self.n)); st.s[root] = v
            return ('addr', (root,))
        if k == 'delete':
            v = self.rv(n['a'][0], st, fr); self.effects.append(('delete', v)); return VOID
        if k == 'throw': return BOTTOM
        if k == 'sizeof': return num(int(n['v'])) if 'v' in n else ('sizeof', n.get('at', '?'))
        if k == 'stmtexpr':
            raise Undecided('stmt expr')
        if k == 'shuffle':
            return ('app', 'shuffle') + tuple(self.rv(a, st, fr) for a in n['a'])
        if k == 'expr?' and n.get('cls') == 'PredefinedExpr': return ('s', '')
        if k == 'expr?' and n.get('cls') == 'CXXTypeidExpr': return app('typeid')
        if k == 'plist' and len(n['a']) == 1: return self.rv(n['a'][0], st, fr)
        raise Undecided('expression %s %s' % (k, n.get('cls', n.get('n', ''))))

    def ilist(self, n, st, fr):
        t = n['t']
        vals = [self.rv(a, st, fr) for a in n['a']]
        if (is_float(t) or is_int(t) or t.endswith('*')) and len(vals) <= 1: return vals[0] if vals else (NULL if t.endswith('*') else ZERO)
        m = re.match(r'(?:const )?std::array<', t)
        if m and len(vals) == 1 and vals[0][0] == 'list': return vals[0]
        rec = self.P.records.get(t.replace('const ', '').strip())
        if rec and not rec.get('dep'):
            fs = [f['n'] for f in rec['fields']]
            if not rec['bases']:
                out = {}
                for f, v in zip(fs, vals): out[f] = v
                for f in rec['fields'][len(vals):]:
                    if 'init' in f: out[f['n']] = self.rv(f['init'], st, Frame())
                return ('obj', t, tuple(sorted(out.items())))
            if len(rec['bases']) == 1 and len(vals) == 1 and not fs: return vals[0]
        if len(vals) == 1 and vals[0][0] in ('list',) and '[' not in t: return vals[0]
        if n.get('fill'):
            m = re.search(r'\[(\d+)\]$', t)
            if m and int(m.group(1)) <= 64:
                z = ZERO
                vals = vals + [z] * (int(m.group(1)) - len(vals))
        m = re.search(r'\[(\d+)\]$', t)
        if m and len(vals) < int(m.group(1)) <= 64: vals += [ZERO] * (int(m.group(1)) - len(vals))
        return ('list',) + tuple(vals)

    def trunc(self, v):
        if v[0] == 'n': 
            x = v[1]; return ('n', Fr(int(x)))
        if v[0] == 'ite': return ite(v[1], self.trunc(v[2]), self.trunc(v[3]))
        if self.isint(v): return v
        return ('app', 'trunc', v)
    def isint(self, v):
        if v[0] == 'app' and v[1] in ('trunc', 'size', 'int', 'floor', 'round'): return True
        if v[0] == 'sym' and str(v[1]).startswith('#'): return True
        if v[0] in ('+', '*'): return self.isint(v[1]) and self.isint(v[2])
        if v[0] == 'neg': return self.isint(v[1])
        if v[0] == 'n': return v[1].denominator == 1
        return False

    def cast(self, n, st, fr):
        ck = n['ck']
        if ck in ('Dynamic',):
            v = self.rv(n['a'][0], st, fr)
            if v == NULL: return NULL
            if v[0] == 'addr' and len(v[1]) == 1 and v[1][0][0] == 'mem' and v[1][0][1][0] == 'new':
                k = self.derives(v[1][0][1][1], n['t'].replace('const ', '').replace('*', '').strip())
                if k is not None: return v if k else NULL
            return ('dyncast', n['t'], v)
        if ck == 'ToVoid':
            self.rv(n['a'][0], st, fr); return VOID
        v = self.rv(n['a'][0], st, fr)
        if ck == 'FloatingToIntegral': return self.trunc(v)
        if ck in ('IntegralToBoolean', 'FloatingToBoolean', 'PointerToBoolean', 'MemberPointerToBoolean'):
            if v[0] in ('<', '==', 'not', 'and', 'or', 'exists', 'b'): return v
            if v[0] == 'enum': return ('b', v[3] != 0)
            if ck == 'PointerToBoolean': return bnot(cmp_('==', v, NULL))
            return bnot(cmp_('==', v, ZERO))
        if ck in ('IntegralCast', 'IntegralToFloating', 'BooleanToSignedIntegral'):
            if v[0] == 'enum': return ('n', v[3])
            ft = n.get('ft', '')
            if ft.replace('const ', '') == 'bool' and v[0] in ('<', '==', 'not', 'and', 'or', 'exists', 'b'):
                return ite(v, ONE, ZERO)
            return v
        if ck == 'PointerToIntegral' or ck == 'IntegralToPointer': return ('app', ck, v)
        if ck == 'BitCast' and n.get('ex'):
            return v
        return v

    def cmp(self, op, a, b): return cmp_(op, a, b)
    def arith(self, op, a, b, t, ta='', tb=''):
        a = self.debool(a); b = self.debool(b)
        if a[0] == 'enum': a = ('n', a[3])
        if b[0] == 'enum': b = ('n', b[3])
        # pointer / iterator arithmetic
        if a[0] == 'it':
            if op == '+': return ('it', a[1], add(a[2], b))
            if op == '-':
                if b[0] == 'it': return sub(a[2], b[2])
                return ('it', a[1], sub(a[2], b))
        if a[0] == 's' and b[0] == 'n' and op == '+' and t.endswith('char *') and 0 <= b[1] <= len(a[1]): return ('s', a[1][int(b[1]):])
        if a[0] == 'addr' and op in '+-' and t.endswith('*'):
            p = a[1]
            if len(p) > 1 and p[-1][0] == 'i': return ('addr', p[:-1] + (('i', add(p[-1][1], b) if op == '+' else sub(p[-1][1], b)),))
            return ('ptradd', p, b if op == '+' else neg(b))
        if op == '+': return add(a, b)
        if op == '-': return sub(a, b)
        if op == '*': return mul(a, b)
        if op == '/':
            if is_int(t):
                if a[0] == 'n' and b[0] == 'n' and b[1] != 0:
                    q = abs(a[1]) // abs(b[1]); return ('n', Fr(q if (a[1] < 0) == (b[1] < 0) else -q))
                return ('app', 'idiv', a, b) if b != ONE else a
            return div(a, b)
        if op == '%':
            if a[0] == 'n' and b[0] == 'n' and b[1] != 0:
                import math
                r = abs(a[1]) % abs(b[1]); return ('n', r if a[1] >= 0 else -r)
            return ('app', 'mod', a, b)
        if op in ('&', '|', '^', '<<', '>>'):
            if a[0] == 'enum': a = num(a[3])
            if b[0] == 'enum': b = num(b[3])
            if op in '&|' and (a[0] in ('<', '==', 'not', 'and', 'or', 'b', 'exists') or b[0] in ('<', '==', 'not', 'and', 'or', 'b', 'exists')):
                return band(self.truth(a), self.truth(b)) if op == '&' else bor(self.truth(a), self.truth(b))
            if a[0] == 'n' and b[0] == 'n' and a[1].denominator == 1 and b[1].denominator == 1 and (op in '&|^' or a[1] >= 0) and (op in '&|^' or b[1] >= 0):
                x, y = int(a[1]), int(b[1])
                return ('n', Fr({'&': x & y, '|': x | y, '^': x ^ y, '<<': x << y if 0 <= y < 70 else 0, '>>': x >> y if y >= 0 else 0}[op]))
            return ('app', 'bit' + op, a, b)
        raise Undecided('operator ' + op)
    def debool(self, v):
        if v[0] in ('<', '==', 'not', 'exists', 'b') : return v if v[0] != 'b' else ('n', Fr(int(v[1])))
        return v

    def binop(self, n, st, fr):
        op = n['op']
        if op in ('&&', '||'):
            a = self.truth(self.rv(n['a'][0], st, fr))
            if op == '&&':
                if a == FALSE: return FALSE
                if a == TRUE: return self.truth(self.rv(n['a'][1], st, fr))
            else:
                if a == TRUE: return TRUE
                if a == FALSE: return self.truth(self.rv(n['a'][1], st, fr))
            s2 = st.copy()
            b = self.truth(self.rv(n['a'][1], s2, fr))
            if s2.s != st.s:
                m = self.merge(a if op == '&&' else bnot(a), s2, st); st.s = m.s
            return band(a, b) if op == '&&' else bor(a, b)
        if op == ',':
            self.rv(n['a'][0], st, fr); return self.rv(n['a'][1], st, fr)
        a = self.rv(n['a'][0], st, fr); b = self.rv(n['a'][1], st, fr)
        if op in ('<', '<=', '>', '>=', '==', '!='):
            if a[0] == 'it' and b[0] == 'it' and a[1] == b[1]: a, b = a[2], b[2]
            if a[0] == 'enum' and b[0] == 'n': a = ('n', a[3])
            if b[0] == 'enum' and a[0] == 'n': b = ('n', b[3])
            if {a[0], b[0]} == {'addr', 's'}:
                x, y = (a, b) if a[0] == 'addr' else (b, a)
                if len(x[1]) > 1 and x[1][-1][0] == 'i' and x[1][-1][1][0] == 'n' and self.rd(st, x[1][:-1]) == y:
                    return cmp_(op, *((x[1][-1][1], ZERO) if a[0] == 'addr' else (ZERO, x[1][-1][1])))
            if a[0] == 'enum' and b[0] == 'enum' and a[1] == b[1]: return cmp_(op, ('n', a[3]), ('n', b[3]))
            if a[0] == 'b' and b[0] == 'n': a = ('n', Fr(int(a[1])))
            if b[0] == 'b' and a[0] == 'n': b = ('n', Fr(int(b[1])))
            return self.cmp(op, a, b)
        v = n['t']
        if 'vector_size' in v or v.startswith('__attribute__'):
            return ('app', 'v' + op, a, b)
        return self.arith(op, a, b, n['t'], n['a'][0].get('t', ''), n['a'][1].get('t', ''))

    def unop(self, n, st, fr):
        op = n['op']
        if op in ('++', '--'):
            p = self.lv(n['a'][0], st, fr)
            v = self.rd(st, p)
            if v[0] == 'it': nv = ('it', v[1], add(v[2], ONE) if op == '++' else sub(v[2], ONE))
            elif v[0] in ('addr', 'ptradd') and n['t'].endswith('*'): nv = self.arith('+' if op == '++' else '-', v, ONE, n['t'])
            else: nv = add(v, ONE) if op == '++' else sub(v, ONE)
            self.wr(st, p, nv)
            return v if n.get('post') else nv
        if op == '&':
            a = n['a'][0]
            if a['k'] == 'ref' and a.get('dk') == 'fn': return self.rv(a, st, fr)
            p = self.lv(a, st, fr)
            if len(p) == 1 and p[0][0] == 'mem' : return p[0][1] if p[0][1][0] != 'new' else ('addr', p)
            return ('addr', p)
        if op == '*':
            v = self.rv(n['a'][0], st, fr)
            if v[0] == 'fn': return v
            return self.rd(st, self.deref(v, st))
        v = self.rv(n['a'][0], st, fr)
        if op == '-':
            if v[0] == 'enum': v = ('n', v[3])
            return neg(v)
        if op == '+': return v
        if op == '!': return bnot(self.truth(v))
        if op == '~': return num(-int(v[1]) - 1) if v[0] == 'n' and v[1].denominator == 1 else num(-int(v[3]) - 1) if v[0] == 'enum' else ('app', 'bit~', v)
        raise Undecided('unary ' + op)

    # ---- calls
    def hook_call(self, n, st, fr, lval=False):
        f = strip_targs(n.get('f', ''))
        h = self.ov.get(f)
        if h is None:
            for pre, hh in self.ov.items():
                if pre.endswith('*') and f.startswith(pre[:-1]): h = hh; break
        if h is None: return None
        return h(self, n, st, fr)

    def args(self, n, st, fr): return [self.rv(a, st, fr) for a in n['a']]

    def call(self, n, st, fr):
        r = self.hook_call(n, st, fr)
        if r is not None: return r
        from . import lib
        f = strip_targs(n.get('f', ''))
        # closures
        if n['k'] == 'call' and n.get('op') == '()' :
            c = self.rv(n['a'][0], st, fr)
            if c[0] == 'clo': return self.call_closure(c, n['a'][1:], st, fr, n)
            if c[0] == 'fn':
                fn = self.P.fns.get(c[1])
                if fn is not None: return self.inline(fn, None, n['a'][1:], st, fr)
        if 'ce' in n:
            c = self.rv(n['ce'], st, fr)
            if c[0] == 'clo': return self.call_closure(c, n['a'], st, fr, n)
            if c[0] == 'fn':
                fn = self.P.fns.get(c[1])
                if fn is not None: return self.inline(fn, None, n['a'], st, fr)
            return ('app', 'indirect', c) + tuple(self.args(n, st, fr))
        r = lib.call(self, f, n, st, fr)
        if r is not None: return r
        fn = self.P.fns.get(n.get('u'))
        if fn is not None and fn.get('body') and f not in self.opaque and (self.inline_pred is None or self.inline_pred(fn)):
            if n['k'] == 'mcall':
                if n.get('vm') and not n.get('qual'):
                    ov = self.hooks.get('virtual')
                    res = ov(self, n, st, fr) if ov else None
                    if res is not None: return res
                    if self.is_overridden(fn):
                        obj = self.objpath(n, st, fr) if n.get('arrow') else self.lv(n['o'], st, fr, soft=True)
                        dyn = self.dispatch(fn, obj, st) if obj is not None else None
                        if dyn is None: return self.opaque_call(f, n, st, fr)
                        return self.inline(dyn, obj, n['a'], st, fr)
                if n.get('sm'): return self.inline(fn, None, n['a'], st, fr)
                obj = self.objpath(n, st, fr)
                return self.inline(fn, obj, n['a'], st, fr)
            if n.get('mop'):
                obj = self.lv(n['a'][0], st, fr, soft=True)
                if obj is None: obj = self.tmp(self.rv(n['a'][0], st, fr), st)
                return self.inline(fn, obj, n['a'][1:], st, fr)
            return self.inline(fn, None, n['a'], st, fr)
        return self.opaque_call(f, n, st, fr)

    def records_by_type(self):
        byq = getattr(self.P, '_byq', None)
        if byq is None: byq = self.P._byq = {r.get('qt') or r['q']: r for r in self.P.records.values()}
        return byq
    def derives(self, c, base):
        byq = self.records_by_type(); todo, seen = [c], set()
        while todo:
            x = todo.pop()
            if x == base: return True
            if x in seen: continue
            seen.add(x)
            if x not in byq: return None
            todo += list(byq[x].get('bases') or ())
        return False

    def dispatch(self, fn, obj, st):
        """the final overrider of fn for an object whose class is known (created by new, or passed as a whole object)"""
        if obj is None or len(obj) != 1: return None
        v = self.rd(st, obj)
        if v[0] != 'obj': return None
        if obj[0][0] == 'mem' and not (obj[0][1][0] == 'new' and obj[0][1][1] == v[1]): return None
        c, seen = v[1], 0
        byq = self.records_by_type()
        while c in byq and seen < 10:
            for mm in byq[c]['methods']:
                if mm['u'] == fn['u'] or fn['u'] in mm.get('ovr', ()):
                    g = self.P.fns.get(mm['u'])
                    return g if g is not None and g.get('body') else None
            bs = byq[c].get('bases') or ()
            if len(bs) != 1: return None
            c = bs[0]; seen += 1
        return None

    def is_overridden(self, fn):
        c = getattr(self.P, '_ovr', None)
        if c is None:
            c = self.P._ovr = set()
            for r in self.P.records.values():
                for m in r['methods']: c.update(m.get('ovr', ()))
        return fn['u'] in c

    def objpath(self, n, st, fr):
        o = n['o']
        if n.get('arrow'): return self.deref(self.rv(o, st, fr), st)
        p = self.lv(o, st, fr, soft=True)
        if p is None: p = self.tmp(self.rv(o, st, fr), st)
        return p

    def call_closure(self, c, argn, st, fr, n):
        clo = self.closures[c[1]]
        node = clo.node
        ps, body = node['p'], node['b']
        if node.get('gen'):
            # find the instantiation chosen at this call
            cands = self.P.lambdas.get(node['id'], [])
            fn = None
            for cf in cands:
                if n.get('u') and cf['u'] == n['u']: fn = cf; break
            if fn is None and len(cands) == 1: fn = cands[0]
            if fn is None:
                for cf in cands:
                    if [p['t'] for p in cf['p']] == n.get('pt'): fn = cf; break
            if fn is None and cands:
                fn = cands[0]
            if fn is None: return ('app', 'generic-lambda') + tuple(self.rv(a, st, fr) for a in argn)
            ps, body = fn['p'], fn['body']
        f2 = Frame(clo.frame)
        self.bind_params(ps, argn, st, fr, f2)
        f2.m['retref'] = node.get('rt', '').endswith('&')
        return self.run(body, st, f2)

    def call_value(self, c, vals, st):
        """call a function value (closure / fn) on already-evaluated values"""
        if c[0] == 'obj' and len(vals) == 2 and c[1].startswith(('std::less', 'std::greater')) and 'equal' not in c[1] and '_' not in c[1]:
            from . import lib
            return lib.lex_less(*(vals if 'less' in c[1] else vals[::-1]))
        if c[0] == 'clo':
            clo = self.closures[c[1]]
            node = clo.node
            ps, body = node['p'], node['b']
            if node.get('gen'):
                cands = self.P.lambdas.get(node['id'], [])
                if not cands: raise Undecided('generic lambda without instantiation')
                ps, body = cands[0]['p'], cands[0]['body']
            f2 = Frame(clo.frame)
            for p, v in zip(ps, vals):
                root = self.fresh(p['n']); st.s[root] = v; f2.m[p['id']] = (root,)
            f2.m['retref'] = False
            return self.run(body, st, f2)
        if c[0] == 'fn':
            fn = self.P.fns.get(c[1])
            if fn is not None and fn.get('body'):
                f2 = Frame()
                for p, v in zip(fn['p'], vals):
                    root = self.fresh(p['n']); st.s[root] = v; f2.m[p['id']] = (root,)
                return self.run(fn['body'], st, f2)
            return app(strip_targs(c[2]), *vals)
        if c[0] == 'app' and len(c) == 2 and c[1].startswith('ctor:std::') and len(vals) == 2:
            k = c[1][10:].split('<')[0]
            x, y = vals
            if k == 'multiplies': return mul(x, y)
            if k == 'plus': return add(x, y)
            if k == 'minus': return sub(x, y)
            if k in ('less', 'greater', 'less_equal', 'greater_equal', 'equal_to', 'not_equal_to'):
                op = {'less': '<', 'greater': '>', 'less_equal': '<=', 'greater_equal': '>=', 'equal_to': '==', 'not_equal_to': '!='}[k]
                return self.compare(op, x, y) if hasattr(self, 'compare') else cmp_(op, x, y)
        if c[0] == 'obj':
            fs = [f for f in self.P.fns.values() if f.get('body') and f['q'] == c[1] + '::operator()' and len(f['p']) == len(vals) and not f.get('dep')]
            if len(fs) == 1:
                f2 = Frame(); fn = fs[0]
                root = self.fresh('this'); st.s[root] = c; f2.m['this'] = (root,)
                for p, v in zip(fn['p'], vals):
                    r2 = self.fresh(p['n']); st.s[r2] = v; f2.m[p['id']] = (r2,)
                return self.run(fn['body'], st, f2)
        return ('app', 'indirect', c) + tuple(vals)

    def bind_params(self, ps, argn, st, fr, f2):
        vals = []
        for i, p in enumerate(ps):
            if i < len(argn):
                a = argn[i]
                if p['t'].endswith('&') :
                    path = self.lv(a, st, fr, soft=True)
                    if path is not None: vals.append((p, 'path', path)); continue
                vals.append((p, 'val', self.rv(a, st, fr)))
            elif 'd' in p: vals.append((p, 'val', self.rv(p['d'], st, fr)))
            else: vals.append((p, 'val', ('sym', p['n'])))
        for p, k, v in vals:
            if k == 'path': f2.m[p['id']] = v
            else:
                root = self.fresh(p['n']); st.s[root] = v; f2.m[p['id']] = (root,)

    def run(self, body, st, f2):
        if len(self.stack) > self.maxdepth: raise Undecided('inlining depth')
        self.stack.append(id(body))
        try:
            o = self.stmt(body, st, f2)
        finally: self.stack.pop()
        v, s = self.collapse(o)
        st.s = s.s
        return v

    def inline(self, fn, obj, argn, st, fr):
        if self.stack.count(id(fn['body'])) > self.hooks.get('recur', 0):
            vals = tuple(self.rv(a, st, fr) for a in argn)
            ov = (self.rd(st, obj),) if obj is not None else ()
            return ('app', 'rec:' + fn['q']) + ov + vals
        f2 = Frame()
        f2.m['this'] = obj
        f2.m['retref'] = fn['rt'].endswith('&')
        self.bind_params(fn['p'], argn, st, fr, f2)
        self.inlined.add(fn['q'])
        if fn.get('fk') == 'ctor': self.run_inits(fn, obj, st, f2)
        return self.run(fn['body'], st, f2)

    def opaque_call(self, f, n, st, fr):
        if n.get('op') == '=' and n.get('mop') and len(n['a']) == 2 and not (self.P.fns.get(n.get('u')) or {}).get('body'):
            pt = (n.get('pt') or [''])[0].replace('const ', '').replace('&', '').strip()
            if f == strip_targs(pt) + '::operator=':      # implicit / defaulted member-wise assignment
                p = self.lv(n['a'][0], st, fr, soft=True)
                if p is not None:
                    self.wr(st, p, self.rv(n['a'][1], st, fr)); return ('lref', p)
        if n['k'] == 'mcall':
            obj = self.objpath(n, st, fr)
            ov = self.rd(st, obj)
        else: obj = None; ov = None
        args = []
        paths = []
        for i, a in enumerate(n['a']):
            pt = n.get('pt', [])
            off = 1 if n.get('mop') else 0
            t = pt[i - off] if 0 <= i - off < len(pt) else ''
            if t.endswith('&') and not t.startswith('const ') and not t.endswith('&&'):
                p = self.lv(a, st, fr, soft=True)
                if p is not None:
                    paths.append((i, p)); args.append(self.rd(st, p)); continue
            args.append(self.rv(a, st, fr))
        head = (ov,) if ov is not None else ()
        t = ('app', f or '?') + head + tuple(args)
        for i, p in paths: self.wr(st, p, ('app', '%s#%d' % (f, i)) + head + tuple(args))
        for i, v in enumerate(args):
            at = n['a'][i].get('t', '')
            if v[0] == 'it' and v[1][0] == 'addr' and not re.search(r'<const |const_iterator', at) and not (at.endswith('*') and at.startswith('const ')):
                self.wr(st, v[1][1], ('app', '%s#%d' % (f, i)) + head + tuple(args))
            elif v[0] == 'addr' and at.endswith('*') and not at.startswith('const ') and len(v[1]) >= 1 and v[1][0][0] == 'v':
                self.wr(st, v[1], ('app', '%s#%d' % (f, i)) + head + tuple(args))
        if obj is not None and not n.get('cm') and not n.get('sm'):
            self.wr(st, obj, ('app', f + '#this') + head + tuple(args))
        if n.get('mop') and not n.get('cm') and n['a']:
            p = self.lv(n['a'][0], st, fr, soft=True)
            if p is not None: self.wr(st, p, ('app', f + '#this') + tuple(args))
        self.effects.append(t)
        if n.get('t') == 'void': return VOID
        return t

    # ---- construction
    def run_inits(self, fn, obj, st, f2):
        for i in fn.get('inits', []):
            if 'e' not in i: continue
            if 'm' in i:
                v = self.rv(i['e'], st, f2)
                self.wr(st, obj + (('f', i['m']),), v)
            elif 'base' in i:
                e = i['e']
                if e['k'] == 'ctor':
                    bfn = self.P.fns.get(e.get('u'))
                    if bfn is not None and bfn.get('body'):
                        f3 = Frame(); f3.m['this'] = obj
                        self.bind_params(bfn['p'], e['a'], st, f2, f3)
                        self.run_inits(bfn, obj, st, f3)
                        self.run(bfn['body'], st, f3)
                    elif e['a']:
                        self.wr(st, obj + (('f', '$' + i['base']),), self.rv(e, st, f2))
            elif 'deleg' in i:
                e = i['e']
                bfn = self.P.fns.get(e.get('u')) if e['k'] == 'ctor' else None
                if bfn is None: raise Undecided('delegating ctor')
                f3 = Frame(); f3.m['this'] = obj
                self.bind_params(bfn['p'], e['a'], st, f2, f3)
                self.run_inits(bfn, obj, st, f3)
                self.run(bfn['body'], st, f3)

    def ctor(self, n, st, fr):
        from . import lib
        c = strip_targs(n['c'])
        if not (n.get('copy') or n.get('move')):
            h = self.ov.get('ctor:' + c)
            if h is not None:
                r = h(self, n, st, fr)
                if r is not None: return r
        if (n.get('copy') or n.get('move')) and len(n['a']) >= 1: 
            fn = self.P.fns.get(n.get('u'))
            if fn is None or not fn.get('body') or fn.get('dflt'): return self.rv(n['a'][0], st, fr)
        r = lib.ctor(self, c, n, st, fr)
        if r is not None: return r
        fn = self.P.fns.get(n.get('u'))
        if fn is not None and fn.get('body') and strip_targs(fn['q']) not in self.opaque:
            return self.construct(fn, n['t'], n['a'], st, fr)
        rec = self.P.records.get(n['t'].replace('const ', ''))
        if rec and n.get('def'):
            out = []
            for f in rec['fields']:
                if 'init' in f: out.append((f['n'], self.rv(f['init'], st, Frame())))
            return ('obj', n['t'], tuple(sorted(out)))
        return ('app', 'ctor:' + c) + tuple(self.args(n, st, fr))

    def construct(self, fn, t, argn, st, fr):
        if self.stack.count(id(fn['body'])) > self.hooks.get('recur', 1): raise Undecided('recursive construction')
        root = self.fresh('obj'); st.s[root] = ('obj', t, ())
        f2 = Frame(); f2.m['this'] = (root,); f2.m['retref'] = False
        self.bind_params(fn['p'], argn, st, fr, f2)
        self.inlined.add(fn['q'])
        self.run_inits(fn, (root,), st, f2)
        self.run(fn['body'], st, f2)
        return st.s[root]

    # ---- entry point
    def function(self, fn, args=None, this=None, mem=None):
        """abstract fn, see function_; a construct the analysis cannot handle makes the result undecided"""
        try: return self.function_(fn, args, this, mem)
        except (KeyError, IndexError, TypeError, ValueError, AttributeError, RecursionError, AssertionError, ZeroDivisionError, OverflowError) as e:
            if os.environ.get('SA_DEBUG'): raise
            raise Undecided('not handled: %s %s' % (type(e).__name__, str(e)[:80]))
    def function_(self, fn, args=None, this=None, mem=None):
        """abstract fn; args: list of terms (or None -> symbols named after the parameter); mem: initial contents of memory roots"""
        st = St(dict(mem) if mem else None); f2 = Frame()
        troot = None
        if fn.get('cls') and not fn.get('static'):
            troot = ('v', 0, 'this')
            if this is not None and this[0] == 'at': troot = this[1][0]
            else: st.s[troot] = this if this is not None else (sym('this') if fn.get('fk') != 'ctor' else ('obj', fn['cls'], ()))
            f2.m['this'] = (troot,)
        roots = []
        for i, p in enumerate(fn['p']):
            if args is not None and i < len(args) and args[i] is not None and args[i][0] == 'at':
                f2.m[p['id']] = args[i][1]; roots.append(args[i][1][0]); continue
            root = self.fresh(p['n'])
            st.s[root] = args[i] if args is not None and i < len(args) and args[i] is not None else sym(p['n'] or 'arg%d' % i)
            f2.m[p['id']] = (root,)
            roots.append(root)
        f2.m['retref'] = fn['rt'].endswith('&')
        if fn.get('fk') == 'ctor': self.run_inits(fn, (troot,), st, f2)
        v = self.run(fn['body'], st, f2)
        res = {'ret': v, 'st': st}
        if v[0] == 'lref': res['ret'] = self.rd(st, v[1]); res['retpath'] = v[1]
        if troot: res['this'] = st.s[troot]
        res['args'] = [st.s[r] for r in roots]
        return res

class NotConstant(Exception):
    pass

def init_of(i, m): return i
def unwith(v):
    f = {}
    while v[0] == 'with':
        f.setdefault(v[2], v[3]); v = v[1]
    return v, f
def flatten(op, t):
    if t[0] == op: return flatten(op, t[1]) + flatten(op, t[2])
    return [t]
def domain_fwd(d):
    return ('range',) + d[1:] if d[0] == 'rrange' else d

# ------------------------------------------------------------------ normal forms
class Normal:
    """canonical form of arithmetic terms: ratio of polynomials over atoms, with optional rewrite rules
    atom^n -> polynomial.  Atoms are canonicalised recursively."""
    def __init__(self, rules=None, funcs=None, limit=20000, assume=None):
        self.rules = rules or {}     # atom -> (n, poly)
        self.memo = {}
        self.funcs = funcs or {}
        self.limit = limit
        self.deadline = time.time() + 15
        self.assume = assume or {}
        if sym('I') not in self.rules: self.rules = dict(self.rules); self.rules[sym('I')] = (2, {(): Fr(-1)})
    # poly ops
    def padd(self, a, b, s=1):
        r = dict(a)
        for m, c in b.items():
            x = r.get(m, 0) + s * c
            if x == 0: r.pop(m, None)
            else: r[m] = x
        return r
    def pmul(self, a, b):
        r = {}
        if len(a) * len(b) > self.limit: raise Undecided('normal form too large')
        if time.time() > self.deadline: raise Undecided('normal form takes too long')
        for m1, c1 in a.items():
            for m2, c2 in b.items():
                m = self.mm(m1, m2)
                x = r.get(m, 0) + c1 * c2
                if x == 0: r.pop(m, None)
                else: r[m] = x
        return self.applyrules(r)
    def mm(self, a, b):
        if not a: return b
        if not b: return a
        d = dict(a)
        for k, e in b: d[k] = d.get(k, 0) + e
        return tuple(sorted(((k, e) for k, e in d.items() if e), key=lambda x: repr(x)))
    def applyrules(self, p):
        if not self.rules: return p
        for _ in range(64):
            hit = None
            for m in p:
                for k, e in m:
                    r = self.rule(k)
                    if r and e >= r[0]: hit = (m, k, e, r); break
                if hit: break
            if not hit: return p
            m, k, e, (n, q) = hit
            c = p[m]
            rest = tuple((a, x) for a, x in m if a != k)
            if e - n: rest = self.mm(rest, ((k, e - n),))
            p = dict(p); del p[m]
            add_ = {}
            for m2, c2 in q.items():
                mm = self.mm(rest, m2)
                add_[mm] = add_.get(mm, 0) + c * c2
            p = self.padd(p, add_)
        raise Undecided('rewriting does not terminate')
    def rule(self, atom):
        r = self.rules.get(atom)
        if r: return r
        if atom[0] == 'app' and atom[1] in ('sqrt', 'csqrt'):
            n, d = self.rf(atom[2])
            if d == {(): Fr(1)} : return (2, n)
        return None
    def canon(self, t):
        """canonical term"""
        if t in self.memo: return self.memo[t]
        r = self._canon(t)
        self.memo[t] = r
        return r
    def _canon(self, t):
        k = t[0]
        if k in ('n', '+', '*', '/', 'neg', '^'):
            n, d = self.rf(t)
            return self.rfterm(n, d)
        if k in ('b', 's', 'sym', 'clo', 'enum', 'void', 'null', 'bottom', 'glob'): return t
        if k in ('not', 'and', 'or', 'ite', '<', '=='):
            return self.logic(t)
        if k in ('sum', 'prod', 'exists'):
            # scale
            return (k, self.canon(t[1]), t[2], self.canon(t[3]))
        if k == 'app':
            args = tuple(self.canon(a) if isinstance(a, tuple) else a for a in t[2:])
            if t[1] == 'pow' and len(args) == 2 and as_num(args[1]) is not None and (2 * as_num(args[1])).denominator == 1 and abs(as_num(args[1])) <= 12:
                return self.canon(('^', args[0], args[1]))
            h = self.funcs.get(t[1])
            if h:
                r = h(self, args)
                if r is not None: return r
            return ('app', t[1]) + args
        return tuple(self.canon(x) if isinstance(x, tuple) and x and isinstance(x[0], str) else (tuple(self.canon(y) if isinstance(y, tuple) and y and isinstance(y[0], str) else y for y in x) if isinstance(x, tuple) else x) for x in t)
    def rfterm(self, n, d):
        # normalise sign/content: leading coefficient of d = 1, cancel common monomials
        if not n: return ZERO
        if len(d) == 1:
            (m, c), = d.items()
            # divide n by monomial where possible
            n2 = {}
            common = dict(m)
            for mm in n:
                dd = dict(mm)
                for a in list(common):
                    common[a] = min(common[a], dd.get(a, 0))
            common = {a: e for a, e in common.items() if e > 0}
            inv = tuple((a, -e) for a, e in common.items())
            n = {self.mm(mm, inv): cc / c for mm, cc in n.items()}
            m = self.mm(m, inv)
            d = {m: Fr(1)}
        else:
            lead = min(d, key=repr)
            c = d[lead]
            n = {m: x / c for m, x in n.items()}; d = {m: x / c for m, x in d.items()}
            if n == d: return ONE
            if len(n) == len(d) and set(n) == set(d):
                q = {n[m] / d[m] for m in n}
                if len(q) == 1: return ('n', q.pop())
        nt = poly_term(n)
        if d == {(): Fr(1)}: return nt
        return ('/', nt, poly_term(d))
    def rf(self, t):
        k = t[0]
        if k == 'n': return ({(): t[1]} if t[1] else {}), {(): Fr(1)}
        if k == '+':
            a, b = self.rf(t[1]), self.rf(t[2])
            if a[1] == b[1]: return self.padd(a[0], b[0]), a[1]
            return self.padd(self.pmul(a[0], b[1]), self.pmul(b[0], a[1])), self.pmul(a[1], b[1])
        if k == 'neg':
            a = self.rf(t[1]); return {m: -c for m, c in a[0].items()}, a[1]
        if k == '*':
            a, b = self.rf(t[1]), self.rf(t[2])
            return self.pmul(a[0], b[0]), self.pmul(a[1], b[1])
        if k == '/':
            a, b = self.rf(t[1]), self.rf(t[2])
            if not b[0]: raise Undecided('division by zero term')
            return self.pmul(a[0], b[1]), self.pmul(a[1], b[0])
        if k == '^':
            e = as_num(t[2])
            if e is not None and e.denominator == 1 and abs(e) <= 12:
                a = self.rf(t[1]); e = int(e)
                if e < 0: a = (a[1], a[0]); e = -e
                n, d = {(): Fr(1)}, {(): Fr(1)}
                for _ in range(e): n = self.pmul(n, a[0]); d = self.pmul(d, a[1])
                return n, d
            if e is not None and e.denominator == 2 and abs(e) <= 12:
                return self.rf(('^', ('app', 'sqrt', t[1]), num(2 * e)))
            return self.atom(('app', 'pow', t[1], t[2]))
        return self.atom(t)
    def atom(self, t):
        c = self.canon(t) if t[0] not in ('sym',) else t
        if c[0] in ('n', '+', '*', '/', 'neg', '^'):
            if c == t: pass
            return self.rf2(c)
        p = self.applyrules({((c, 1),): Fr(1)})
        return p, {(): Fr(1)}
    def rf2(self, t): return self.rf(t)
    def poly(self, t):
        n, d = self.rf(t)
        if d != {(): Fr(1)}: return None
        return n
    def const(self, t):
        try: p = self.poly(t)
        except Undecided: return None
        if p is None: return None
        if not p: return 0
        if set(p) == {()}: return p[()]
        return None
    def zero(self, t):
        n, d = self.rf(t)
        return not n
    def equal(self, a, b):
        return self.zero_rf(a, b)
    def zero_rf(self, a, b):
        x, y = self.rf(a), self.rf(b)
        if x[1] == y[1]: return not self.padd(x[0], y[0], -1)
        return not self.padd(self.pmul(x[0], y[1]), self.pmul(y[0], x[1]), -1)
    # logic: multi-terminal decision tree over canonical predicates
    def pred(self, t):
        """canonical predicate (atom, polarity)"""
        if t[0] == 'not':
            a, p = self.pred(t[1]); return a, not p
        if t[0] == '<':
            # 0 < b-a
            d = sub(t[2], t[1])
            try:
                n, den = self.rf(d)
                if len(den) == 1 and list(den) == [()]:
                    if not n: return ('b', False), True
                    cst = n.get((), None) if set(n) <= {()} else None
                    if cst is not None: return ('b', cst > 0), True
                    lead = min((m for m in n if m != ()), key=repr)
                    c = abs(n[lead])
                    n = {m: x / c for m, x in n.items()}
                    pos = ('<', ZERO, poly_term(n))
                    if n[lead] < 0:
                        # 0 < -p  ==  p < 0 ; canonical atom  not(0 <= p) keep separate atom
                        return ('<', poly_term({m: -x for m, x in n.items()}), ZERO), True
                    return pos, True
            except Undecided: pass
            return ('<', self.canon(t[1]), self.canon(t[2])), True
        if t[0] == '==':
            a, b = t[1], t[2]
            if arithy(a) or arithy(b) :
                try:
                    n, den = self.rf(sub(a, b))
                    if not n: return ('b', True), True
                    if set(n) == {()} : return ('b', False), True
                    lead = min((m for m in n), key=repr)
                    c = n[lead]
                    return ('==', ZERO, poly_term({m: x / c for m, x in n.items()})), True
                except Undecided: pass
            return ('==',) + tuple(sorted((self.canon(a), self.canon(b)), key=repr)), True
        return self.canon(t), True
    def logic(self, t):
        preds = []
        def collect(x):
            if x[0] in ('not',): collect(x[1])
            elif x[0] in ('and', 'or'): collect(x[1]); collect(x[2])
            elif x[0] == 'ite': collect(x[1]); collect(x[2]); collect(x[3])
            elif x[0] in ('<', '=='):
                a, _ = self.pred(x)
                if a not in preds: preds.append(a)
            elif x[0] in ('n', '+', '*', '/', 'neg', '^'):
                # arithmetic leaf: lift ite inside
                for y in x[1:]:
                    if isinstance(y, tuple): collect_arith(y)
            elif x[0] in ('b',): pass
            else:
                if self.boolish(x):
                    a = self.canon(x)
                    if a not in preds: preds.append(a)
        def collect_arith(y):
            if y[0] == 'ite': collect(y)
            elif y[0] in ('+', '*', '/', 'neg', '^'):
                for z in y[1:]:
                    if isinstance(z, tuple): collect_arith(z)
        # conditions that are opaque terms
        def collect_cond(x):
            if x[0] == 'ite':
                cc(x[1]); collect_cond(x[2]); collect_cond(x[3])
            elif x[0] in ('+', '*', '/', 'neg', '^'):
                for z in x[1:]:
                    if isinstance(z, tuple): collect_cond(z)
            elif x[0] in ('not', 'and', 'or', '<', '=='): cc(x)
        def cc(x):
            if x[0] == 'not': cc(x[1])
            elif x[0] in ('and', 'or'): cc(x[1]); cc(x[2])
            elif x[0] == 'b': pass
            elif x[0] == 'ite': cc(x[1]); cc(x[2]); cc(x[3])
            else:
                a, _ = self.pred(x)
                if a[0] != 'b' and a not in preds: preds.append(a)
        collect_cond(t)
        preds.sort(key=repr)
        if len(preds) > 14: raise Undecided('too many predicates')
        return self.tree(t, preds, {})
    def boolish(self, x): return False
    def ev(self, x, env):
        if x[0] == 'b': return x
        if x[0] == 'not':
            r = self.ev(x[1], env); return bnot(r)
        if x[0] == 'and': return band(self.ev(x[1], env), self.ev(x[2], env))
        if x[0] == 'or': return bor(self.ev(x[1], env), self.ev(x[2], env))
        if x[0] == 'ite': 
            c = self.ev(x[1], env)
            return self.leafev(x[2], env) if c == TRUE else (self.leafev(x[3], env) if c == FALSE else ite(c, self.leafev(x[2], env), self.leafev(x[3], env)))
        a, pol = self.pred(x)
        if a[0] == 'b': return a if pol else bnot(a)
        v = env.get(a)
        if v is None: return x
        return ('b', v == pol)
    def leafev(self, x, env):
        if x[0] in ('not', 'and', 'or', 'ite', '<', '=='): return self.ev(x, env)
        if x[0] in ('+', '*', '/', 'neg', '^'):
            return rebuild((x[0],) + tuple(self.leafev(y, env) if isinstance(y, tuple) else y for y in x[1:]))
        return x
    def related(self, env):
        """consistency of a predicate assignment: p<0, 0<p, p==0 on the same polynomial"""
        pos = {}
        for a, v in env.items():
            if a[0] == '<' and a[1] == ZERO: pos.setdefault(a[2], {})['>'] = v
            elif a[0] == '<' and a[2] == ZERO: pos.setdefault(a[1], {})['<'] = v
            elif a[0] == '==' and a[1] == ZERO: pos.setdefault(a[2], {})['='] = v
        for p, d in pos.items():
            if sum(1 for v in d.values() if v) > 1: return False
            if len(d) == 3 and not any(d.values()): return False
        # equality of the same term with two different literals
        eq = {}
        for a, v in env.items():
            if a[0] == '==' and v and len(a) == 3:
                x, y = a[1], a[2]
                for p, q in ((x, y), (y, x)):
                    if p[0] in ('s', 'enum'):
                        if eq.setdefault(q, p) != p: return False
        return True
    def tree(self, t, preds, env):
        if not preds:
            r = self.leafev(t, env)
            if r[0] in ('not', 'and', 'or', 'ite', '<', '=='): return r
            return self.canon(r)
        p = preds[0]
        ea = dict(env); ea[p] = True
        eb = dict(env); eb[p] = False
        ca, cb = self.related(ea), self.related(eb)
        if ca and not cb: return self.tree(t, preds[1:], ea)
        if cb and not ca: return self.tree(t, preds[1:], eb)
        if not ca and not cb: return BOTTOM
        a, b = self.tree(t, preds[1:], ea), self.tree(t, preds[1:], eb)
        if a == b: return a
        if a == BOTTOM: return b
        if b == BOTTOM: return a
        return ('ite', p, a, b)

def arithy(t): return t[0] in ('n', '+', '*', '/', 'neg', '^')
def poly_term(p):
    if not p: return ZERO
    r = None
    for m in sorted(p, key=repr):
        c = p[m]
        x = None
        for a, e in m:
            y = a if e == 1 else ('^', a, num(e))
            x = y if x is None else ('*', x, y)
        if x is None: x = ('n', c)
        elif c != 1: x = ('*', ('n', c), x)
        r = x if r is None else ('+', r, x)
    return r

OPAQUE_OK = ()
def same(a, b, rules=None, funcs=None):
    """True / False / None(undecided)"""
    try:
        N = Normal(rules, funcs)
        if hasite(a) or hasite(b):
            ca, cb = N.canon(a), N.canon(b)
            if ca == cb: return True
            # decide difference leafwise
            d = sub(a, b) if not boolterm(a) and not boolterm(b) else None
            if d is not None:
                try:
                    z = N.canon(d)
                    if z == ZERO: return True
                    return leaf_zero(N, z)
                except Undecided: return None
            return False
        if arithy(a) or arithy(b) or True:
            try: return N.equal(a, b)
            except Undecided: raise
    except (Undecided, RecursionError, OverflowError):
        return None
def leaf_zero(N, z):
    if z[0] == 'ite':
        a, b = leaf_zero(N, z[2]), leaf_zero(N, z[3])
        return a and b
    return N.zero(z)
def boolterm(t): return t[0] in ('b', 'not', 'and', 'or', '<', '==', 'exists') or (t[0] == 'ite' and boolterm(t[2]))
def hasite(t): return any(x[0] in ('ite', 'not', 'and', 'or', '<', '==') for x in subterms(t) if x)

def oob(t):
    """a read outside a list of known size that evaluating the term certainly makes, or None"""
    if not isinstance(t, tuple) or not t: return None
    if t[0] in ('s', 'n', 'sym', 'b', 'clo', 'addr'): return None
    if t[0] == 'idx' and t[1][0] == 'list' and t[2][0] == 'n' and not 0 <= t[2][1] < len(t[1]) - 1: return 'entry %s of %d is read' % (show(t[2]), len(t[1]) - 1)
    if t[0] == 'ite': return oob(t[1])
    if t[0] in ('and', 'or'): return oob(t[1])
    if t[0] in ('obj',):
        for _, x in t[2]:
            r = oob(x)
            if r: return r
        return None
    if t[0] in ('list', 'map', 'sum', 'lam', 'gmap'): return None
    for x in t[1:]:
        r = oob(x) if isinstance(x, tuple) and x and isinstance(x[0], str) else None
        if r: return r
