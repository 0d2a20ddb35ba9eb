"""Expression-node model: the classes of the expression tree, the source text each node emits, and a parser that
gives that text its C++ meaning as a term."""
import re
from .value import *
from . import value as V
from .extract import AnalysisBroken

BASE = 'AmpGen::IExpression'

class Nodes:
    def __init__(self, P):
        self.P = P
        subs = P.subclasses(BASE)
        if len(subs) < 10: raise AnalysisBroken('expression node hierarchy not found')
        self.bases = {q: set() for q in subs}
        for q in subs:
            todo = [q]
            while todo:
                r = P.records.get(todo.pop())
                if not r: continue
                for b in r['bases']:
                    if b not in self.bases[q]: self.bases[q].add(b); todo.append(b)
        self.concrete = []
        for q in subs:
            pure = {m['n'] for m in P.records[q]['methods'] if m.get('pure')}
            if not pure: self.concrete.append(q)
        self.unary = [q for q in self.concrete if 'AmpGen::IUnaryExpression' in self.bases[q]]
        self.binary = [q for q in self.concrete if 'AmpGen::IBinaryExpression' in self.bases[q]]
    def isa(self, q, t): return q == t or t in self.bases.get(q, ())
    def method(self, q, name):
        """most-derived definition of a method"""
        todo = [q]
        while todo:
            c = todo.pop(0)
            fs = [f for f in self.P.byq.get(c + '::' + name, []) if not f.get('dep')]
            if name == 'operator()': fs = [f for f in fs if not f['p']]
            if fs: return fs[0]
            r = self.P.records.get(c)
            if r: todo += r['bases']
        return None
    def fields(self, q):
        """expression-valued members (own and inherited), in declaration order"""
        out = []
        todo = [q]
        chain = []
        while todo:
            c = todo.pop(0); r = self.P.records.get(c)
            if r: chain.insert(0, r); todo += r['bases']
        for r in chain:
            for f in r['fields']:
                out.append(f)
        return out
    def children(self, q):
        return [f['n'] for f in self.fields(q) if f['t'].replace('const ', '') in ('AmpGen::Expression', 'AmpGen::Parameter', 'AmpGen::Array')]

def tmpl_class(n):
    """template argument of is<T>/cast<T>"""
    ta = n.get('ta') or []
    return re.sub(r'^(class|struct) ', '', ta[0]) if ta else None

def node_overrides(nodes, kinds, cfg, text_of):
    """kinds: child value term -> class ; cfg: dict(avx,cuda) or None (no resolver); text_of(child) -> term"""
    def is_(m, n, st, fr):
        T = tmpl_class(n); v = m.rv(n['a'][0], st, fr)
        k = kinds.get(v)
        if k is not None: return ('b', nodes.isa(k, T))
        return ('app', 'is', S(T), v)
    def ev(m, n, st, fr):
        v = m.rv(n['o'] if n['k'] == 'mcall' else n['a'][0], st, fr)
        return ('app', 'val', v)
    def txt(m, n, st, fr):
        v = m.rv(n['o'], st, fr) if not n.get('arrow') else m.rd(st, m.objpath(n, st, fr))
        return text_of(v)
    return {
        'AmpGen::is': is_,
        'AmpGen::Expression::operator()': ev,
        'AmpGen::Parameter::operator()': ev,
        'AmpGen::IExpression::operator()': ev,
        'AmpGen::Expression::to_string': txt,
        'AmpGen::Parameter::to_string': txt,
        'AmpGen::type_string': lambda m, n, st, fr: ('app', 'typetext', S((n.get('ta') or ['?'])[0])),
        'AmpGen::ASTResolver::enableAVX': lambda m, n, st, fr: ('b', bool(cfg and cfg.get('avx'))),
        'AmpGen::ASTResolver::enableCuda': lambda m, n, st, fr: ('b', bool(cfg and cfg.get('cuda'))),
    }

# ------------------------------------------------------------------ emitted-source parser
TOK = re.compile(r'\s*(?:(\d+\.?\d*(?:[eE][-+]?\d+)?|\.\d+)|([A-Za-z_][A-Za-z_0-9]*(?:::[A-Za-z_][A-Za-z_0-9]*)*)|(&&|\|\||<=|>=|==|!=|[-+*/%<>?:(),\[\]!&]))')
class ParseError(Exception): pass

def tokens(t):
    """t: string term (s / cat of s, placeholders)"""
    ps = t[1:] if t[0] == 'cat' else (t,)
    out = []
    for p in ps:
        if p[0] == 's':
            s = p[1]; i = 0
            while i < len(s):
                if s[i:].strip() == '': break
                m = TOK.match(s, i)
                if not m: raise ParseError('token at %r' % s[i:i + 20])
                if m.group(1): out.append(('num', m.group(1)))
                elif m.group(2): out.append(('id', m.group(2)))
                else: out.append(('op', m.group(3)))
                i = m.end()
        else: out.append(('ph', p))
    return out

PREC = {'||': 1, '&&': 2, '==': 3, '!=': 3, '<': 4, '>': 4, '<=': 4, '>=': 4, '+': 5, '-': 5, '*': 6, '/': 6, '%': 6}
def truth(v):
    if boolterm(v): return v
    if v[0] == 'n': return ('b', v[1] != 0)
    return bnot(cmp_('==', v, ZERO))

class Parser:
    def __init__(self, toks, leaf): self.t, self.i, self.leaf = toks, 0, leaf
    def peek(self): return self.t[self.i] if self.i < len(self.t) else ('end', '')
    def next(self): x = self.peek(); self.i += 1; return x
    def expect(self, op):
        x = self.next()
        if x != ('op', op): raise ParseError('expected %s, got %s' % (op, x))
    def parse(self):
        v = self.ternary()
        if self.peek()[0] != 'end': raise ParseError('trailing %s' % (self.peek(),))
        return v
    def ternary(self):
        c = self.binary(1)
        if self.peek() == ('op', '?'):
            self.next(); a = self.ternary(); self.expect(':'); b = self.ternary()
            return ite(truth(c), a, b)
        return c
    def binary(self, p):
        l = self.unary()
        while True:
            k, o = self.peek()
            if k != 'op' or o not in PREC or PREC[o] < p: return l
            self.next(); r = self.binary(PREC[o] + 1)
            if o == '+': l = add(l, r)
            elif o == '-': l = V.sub(l, r)
            elif o == '*': l = mul(l, r)
            elif o == '/': l = div(l, r)
            elif o == '%': l = app('mod', l, r)
            elif o == '&&': l = band(truth(l), truth(r))
            elif o == '||': l = bor(truth(l), truth(r))
            else: l = cmp_(o, l, r)
    def unary(self):
        if self.peek() == ('op', '-'): self.next(); return neg(self.unary())
        if self.peek() == ('op', '+'): self.next(); return self.unary()
        if self.peek() == ('op', '!'): self.next(); return bnot(truth(self.unary()))
        return self.postfix()
    def args(self):
        out = []
        if self.peek() == ('op', ')'): self.next(); return out
        while True:
            out.append(self.ternary())
            x = self.next()
            if x == ('op', ')'): return out
            if x != ('op', ','): raise ParseError('argument list')
    def postfix(self):
        k, v = self.next()
        if k == 'num': return num(float(v)) if not re.fullmatch(r'\d+\.?', v) else num(int(v.rstrip('.')))
        if k == 'op' and v == '(':
            r = self.ternary(); self.expect(')'); return r
        if k == 'id':
            if self.peek() == ('op', '('):
                self.next(); return self.func(v, self.args())
            return self.leaf(('id', v))
        if k == 'ph':
            if self.peek() == ('op', '('):
                self.next(); return self.func(v, self.args())
            return self.leaf(v)
        raise ParseError('unexpected %s' % (v,))
    def func(self, f, a):
        if isinstance(f, tuple):
            if f[0] == 'app' and f[1] == 'typetext' and 'omplex' in repr(f[2]) and len(a) == 2: return add(a[0], mul(I, a[1]))
            return ('app', 'call', f) + tuple(a)
        f = f.split('::')[-1]
        if f == 'select' and len(a) == 3: return ite(truth(a[0]), a[1], a[2])
        if f == 'rsqrt' and len(a) == 1: return div(ONE, app('sqrt', a[0]))
        if f == 'fabs': f = 'abs'
        if f == 'pow' and len(a) == 2:
            from .lib import math2
            return math2(None, 'pow', a[0], a[1])
        return ('app', f) + tuple(a)

def strip_real(t):
    """real(x) -> x below comparisons / logical connectives (emitted code compares the values directly)"""
    def go(x, inb):
        if not isinstance(x, tuple) or not x: return x
        if x[0] in ('n', 'b', 's', 'sym', 'clo'): return x
        if x[0] in ('<', '=='): return rebuild((x[0],) + tuple(go(y, True) for y in x[1:]))
        if inb and x[0] == 'app' and x[1] == 'real': return go(x[2], True)
        if x[0] == 'app' and x[1] in ('atan2', 'fmod', 'lgamma'): return x[:2] + tuple(go(y, True) for y in x[2:])
        if x[0] == 'ite' and x[2] == ONE and x[3] == ZERO: return go(x[1], inb)
        if inb and x[0] in ('ite',): return rebuild((x[0],) + tuple(go(y, True) for y in x[1:]))
        return rebuild((x[0],) + tuple(go(y, False) if isinstance(y, tuple) else y for y in x[1:]))
    return go(t, False)
