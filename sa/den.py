"""Denotational reading of code that builds expression trees: an Expression *is* the mathematical value it stands for.
(The expression layer itself is what X01/X02 verify; here it is taken at its specification.)"""
from .value import *
from . import value as V
from .expr import tmpl_class, truth
import re

def T(n): return n.get('t', '').replace('const ', '').replace('&', '').strip()
EXPRS = {'AmpGen::Expression', 'Expression'}
UN = {'Log': 'log', 'Exp': 'exp', 'Sqrt': 'sqrt', 'Abs': 'abs', 'Norm': 'norm', 'Conj': 'conj', 'Real': 'real', 'Imag': 'imag', 'Sin': 'sin', 'Cos': 'cos', 'Tan': 'tan', 'ASin': 'asin', 'ACos': 'acos', 'ATan': 'atan', 'LGamma': 'lgamma'}
def bool_(c): return c
BIN = {'Sum': add, 'Sub': V.sub, 'Product': mul, 'Divide': div, 'Pow': lambda a, b: pow_(a, b), 'Fmod': lambda a, b: app('fmod', a, b), 'ATan2': lambda a, b: app('atan2', a, b),
       'LessThan': lambda a, b: cmp_('<', a, b), 'GreaterThan': lambda a, b: cmp_('>', a, b), 'LessThanEqualTo': lambda a, b: cmp_('<=', a, b), 'GreaterThanEqualTo': lambda a, b: cmp_('>=', a, b),
       'And': lambda a, b: band(truth(a), truth(b)), 'Or': lambda a, b: bor(truth(a), truth(b)), 'Equal': lambda a, b: cmp_('==', a, b)}
OPS = {'+': add, '-': V.sub, '*': mul, '/': div, '<': BIN['LessThan'], '>': BIN['GreaterThan'], '<=': BIN['LessThanEqualTo'], '>=': BIN['GreaterThanEqualTo'], '&&': BIN['And'], '||': BIN['Or'], '==': BIN['Equal']}
NODE = set(UN) | set(BIN) | {'ISqrt', 'Ternary', 'Constant', 'Parameter', 'SubTree', 'ComplexParameter', 'Function', 'Array', 'Spline'}

def pow_(a, b):
    from .lib import math2
    return math2(None, 'pow', a, b)
def un(f, x):
    from .lib import math1
    return math1(None, f, x)

def exprlike(t):
    t = t.replace('const ', '').replace('&', '').strip()
    return t in EXPRS or (t.startswith('AmpGen::') and t[8:] in NODE)

def overrides(extra=None, param=None):
    ov = {}
    def binop(op):
        def h(m, n, st, fr):
            pt = n.get('pt') or []
            if n.get('mop') or len(n['a']) != 2 or not any(exprlike(t) for t in pt): return None
            if not exprlike(n.get('t', '')): return None
            ts = [t.replace('const ', '').replace('&', '').strip() for t in pt]
            if not all(exprlike(t) or is_float(t) or is_int(t) or 'complex' in t for t in ts): return None
            a, b = m.rv(n['a'][0], st, fr), m.rv(n['a'][1], st, fr)
            if a[0] in ('<', '==', 'not', 'and', 'or') and op in '+-*/': a = ite(a, ONE, ZERO)
            if b[0] in ('<', '==', 'not', 'and', 'or') and op in '+-*/': b = ite(b, ONE, ZERO)
            return OPS[op](a, b)
        return h
    for op in OPS: ov['AmpGen::operator' + op] = binop(op)
    def compound(op):
        def h(m, n, st, fr):
            p = m.lv(n['a'][0], st, fr)
            v = OPS[op](m.rd(st, p), m.rv(n['a'][1], st, fr))
            m.wr(st, p, v); return v
        return h
    for op in '+-*/': ov['AmpGen::Expression::operator%s=' % op] = compound(op)
    ov['AmpGen::Expression::operator-'] = lambda m, n, st, fr: neg(m.rv(n['a'][0], st, fr))
    def evalop(m, n, st, fr): return m.rv(n['a'][0] if n['k'] == 'call' else n['o'], st, fr)
    ov['AmpGen::Expression::operator()'] = evalop
    ov['AmpGen::Parameter::operator()'] = evalop
    def ctorE(m, n, st, fr):
        if not n['a']: return ZERO
        return m.rv(n['a'][0], st, fr)
    ov['ctor:AmpGen::Expression'] = ctorE
    def conv(m, n, st, fr): return m.rd(st, m.objpath(n, st, fr))
    for k in NODE: ov['AmpGen::%s::operator Expression' % k] = conv; ov['AmpGen::%s::operator AmpGen::Expression' % k] = conv
    def c1(f):
        def h(m, n, st, fr): return un(f, m.rv(n['a'][0], st, fr))
        return h
    for k, f in UN.items(): ov['ctor:AmpGen::' + k] = c1(f)
    def c2(f):
        def h(m, n, st, fr):
            if len(n['a']) != 2: return None
            return f(m.rv(n['a'][0], st, fr), m.rv(n['a'][1], st, fr))
        return h
    for k, f in BIN.items(): ov['ctor:AmpGen::' + k] = c2(f)
    ov['ctor:AmpGen::ISqrt'] = lambda m, n, st, fr: div(ONE, un('sqrt', m.rv(n['a'][0], st, fr)))
    def tern(m, n, st, fr):
        c, a, b = [m.rv(x, st, fr) for x in n['a'][:3]]
        return ite(truth(c), a, b)
    ov['ctor:AmpGen::Ternary'] = tern
    def const(m, n, st, fr):
        x = [m.rv(y, st, fr) for y in n['a']]
        return x[0] if len(x) == 1 else add(x[0], mul(I, x[1]))
    ov['ctor:AmpGen::Constant'] = const
    def par(m, n, st, fr):
        x = [m.rv(y, st, fr) for y in n['a']]
        if param: 
            r = param(x)
            if r is not None: return r
        return ('app', 'param', x[0] if x else S(''))
    ov['ctor:AmpGen::Parameter'] = par
    ov['ctor:AmpGen::SubTree'] = lambda m, n, st, fr: m.rv(n['a'][0], st, fr)
    ov['ctor:AmpGen::ComplexParameter'] = lambda m, n, st, fr: add(m.rv(n['a'][0], st, fr), mul(I, m.rv(n['a'][1], st, fr)))
    ov['AmpGen::make_cse'] = lambda m, n, st, fr: m.rv(n['a'][0], st, fr)
    for f in ('sqrt', 'cos', 'sin', 'tan', 'abs', 'acos', 'asin', 'atan', 'norm', 'conj', 'exp', 'log'):
        ov['AmpGen::fcn::' + f] = c1(f)
    ov['AmpGen::fcn::complex_sqrt'] = lambda m, n, st, fr: csqrt(m.rv(n['a'][0], st, fr))
    ov['AmpGen::fcn::isqrt'] = lambda m, n, st, fr: div(ONE, un('sqrt', m.rv(n['a'][0], st, fr)))
    def safe(m, n, st, fr):
        x = m.rv(n['a'][0], st, fr); return ite(cmp_('>', x, ZERO), un('sqrt', x), ZERO)
    ov['AmpGen::fcn::safe_sqrt'] = safe
    ov['AmpGen::fcn::pow'] = c2(pow_)
    ov['AmpGen::fcn::fpow'] = c2(pow_)
    ov['AmpGen::fcn::atan2'] = c2(lambda a, b: app('atan2', a, b))
    def is_(m, n, st, fr):
        t = tmpl_class(n); v = m.rv(n['a'][0], st, fr)
        if t == 'AmpGen::Constant': return ('b', numeric(v))
        return ('app', 'is', S(t), v)
    ov['AmpGen::is'] = is_
    if extra: ov.update(extra)
    return ov

def csqrt(x):
    if x[0] == 'n' and x[1] >= 0: return un('sqrt', x)
    return app('csqrt', x)
def numeric(v):
    if v[0] == 'n': return True
    if v == I: return True
    if v[0] in ('+', '*', '/', 'neg'): return all(numeric(x) for x in v[1:])
    return False
