"""For every analytic unary node, the tree its derivative method builds is abstracted to a term and compared, in rational normal
form, with the derivative (by the standard rules) of the term its own evaluator denotes."""
from ..value import *
from ..expr import *
from .. import extract, den, value as V
from ..run import where
from .X01 import evaluate, SRC

ASSUMPTIONS = ['analytic functions only: conj, abs, norm, real, imag and lgamma have no tree derivative in this library', 'principal branches; rounding ignored']

class NoRule(Exception): pass
def diff(t, x):
    k = t[0]
    if t == x: return ONE
    if k in ('n', 'sym') : return ZERO
    if not any(s == x for s in subterms(t)): return ZERO
    if k == '+': return add(diff(t[1], x), diff(t[2], x))
    if k == 'neg': return neg(diff(t[1], x))
    if k == '*': return add(mul(diff(t[1], x), t[2]), mul(t[1], diff(t[2], x)))
    if k == '/': return div(V.sub(mul(diff(t[1], x), t[2]), mul(t[1], diff(t[2], x))), mul(t[2], t[2]))
    if k == '^' and t[2][0] == 'n': return mul(mul(t[2], ('^', t[1], num(t[2][1] - 1))), diff(t[1], x))
    if k == 'app' and len(t) == 3:
        u = t[2]; f = t[1]
        d = {'log': lambda: div(ONE, u), 'exp': lambda: app('exp', u), 'sin': lambda: app('cos', u), 'cos': lambda: neg(app('sin', u)),
             'tan': lambda: div(ONE, mul(app('cos', u), app('cos', u))), 'sqrt': lambda: div(ONE, mul(num(2), app('sqrt', u))),
             'asin': lambda: div(ONE, app('sqrt', V.sub(ONE, mul(u, u)))), 'acos': lambda: neg(div(ONE, app('sqrt', V.sub(ONE, mul(u, u))))),
             'atan': lambda: div(ONE, add(ONE, mul(u, u))), 'sinh': lambda: app('cosh', u), 'cosh': lambda: app('sinh', u)}.get(f)
        if d: return mul(d(), diff(u, x))
    raise NoRule(show(t))

def trig(N, args): return None
def check(ctx):
    P = extract.load(SRC)
    nodes = Nodes(P)
    for q in nodes.unary:
        f = nodes.method(q, 'd'); e = nodes.method(q, 'operator()')
        if f is None: continue
        ctx.saw('derivative methods', q)
        name = '%s derivative' % q
        ch = nodes.children(q)
        try:
            x = sym('x')
            val = subst(evaluate(nodes, q), {('app', 'val', ('fld', sym('this'), ch[0])): x})
            try: want = diff(val, x)
            except NoRule as r: ctx.unknown(name, where(f), 'not analytic: %s' % r); continue
            m = Machine(P, den.overrides(), limit=20)
            got = m.function(f, this=('obj', q, ((ch[0], x),)))['ret']
            pyth = {app('sin', x): (2, {(): Fr(1), ((app('cos', x), 2),): Fr(-1)}), app('tan', x): (1, None)}
            rules = {app('sin', x): (2, {(): Fr(1), ((app('cos', x), 2),): Fr(-1)})}
            ta = {app('tan', x): div(app('sin', x), app('cos', x))}
            want, got = subst(want, ta), subst(got, ta)
            if any(t[0] == 'app' and t[1] not in ('sqrt', 'sin', 'cos', 'tan', 'exp', 'log', 'asin', 'acos', 'atan', 'pow') for t in subterms(got)):
                ctx.unknown(name, where(f), 'opaque term ' + show(got)); continue
            ctx.decide(name, same(got, want, rules), where(f), 'd() builds %s but d/dx %s = %s' % (show(got), show(val), show(want)))
        except Undecided as r: ctx.unknown(name, where(f), r)
