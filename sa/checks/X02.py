"""Every tree-building operator and function of the expression layer (+ - * / and their compound and unary forms, comparisons, the
fcn:: library, bracket expansion and normal ordering) is abstracted to the value of the tree it returns, with a gate for every
shape test it makes; under the facts of each gate (the operand is a sum, a constant near 0, ...) the value must equal the plain
mathematical operation in rational normal form.  Calls between the operators are read at their specification (induction on tree
size); recursive private helpers get the arithmetic summary that most of their own exits agree with."""
from ..value import *
from ..expr import *
from .. import extract, den, value as V
from ..run import where

ASSUMPTIONS = ['constants within machine epsilon of 0 or 1 are treated as 0 or 1 by the library by design', 'rounding ignored', 'parameters are real (conj of a parameter)']
SRC = ['src/Expression.cpp', 'src/BinaryExpression.cpp', 'src/UnaryExpression.cpp', 'src/Simplify.cpp']
BINKIND = {'Sum': add, 'Sub': V.sub, 'Product': mul, 'Divide': div}

def part(k): 
    def h(m, n, st, fr):
        o = m.rd(st, m.objpath(n, st, fr)) if n.get('arrow') else m.rv(n['o'], st, fr)
        return ('app', k, o)
    return h

def ov(extra=None):
    o = den.overrides()
    def is_(m, n, st, fr):
        t = tmpl_class(n); v = m.rv(n['a'][0], st, fr)
        if v[0] == 'n' or v == I: return ('b', t == 'AmpGen::Constant')
        return ('app', 'is', S(t), v)
    o['AmpGen::is'] = is_
    o['AmpGen::cast'] = lambda m, n, st, fr: m.rv(n['a'][0], st, fr)
    for k in ('l', 'r', 'arg'):
        for b in ('IBinaryExpression', 'IUnaryExpression'): o['AmpGen::%s::%s' % (b, k)] = part(k)
    def ev(m, n, st, fr): return m.rv(n['a'][0] if n['k'] == 'call' else n['o'], st, fr)
    for k in den.NODE: o['AmpGen::%s::operator()' % k] = ev
    o['AmpGen::SubTree::setKey'] = lambda m, n, st, fr: VOID
    o['AmpGen::NormalOrderedExpression::operator Expression'] = None
    o['ctor:AmpGen::NormalOrderedExpression'] = lambda m, n, st, fr: m.rv(n['a'][0], st, fr)
    for k in ('AmpGen::NormalOrderedExpression::operator Expression', 'AmpGen::NormalOrderedExpression::operator AmpGen::Expression'):
        o[k] = lambda m, n, st, fr: m.rd(st, m.objpath(n, st, fr))
    o['AmpGen::FNV1a_hash'] = lambda m, n, st, fr: sym('hash')
    o['AmpGen::Expression::to_string'] = lambda m, n, st, fr: ('app', 'text', m.rv(n['o'], st, fr))
    if extra: o.update(extra)
    return {k: v for k, v in o.items() if v}

# ---- facts
def leaves(t, facts=()):
    if t[0] == 'ite':
        c = t[1]
        for f in conj(c, True): yield from leaves(t[2], facts + (f,)) 
        for f in conj(c, False): yield from leaves(t[3], facts + (f,))
    else: yield facts, t

def conj(c, pos):
    """disjunction of fact sets implied by c being `pos`"""
    if c[0] == 'not': return conj(c[1], not pos)
    if c[0] == 'and' and pos or c[0] == 'or' and not pos: return [a + b for a in conj(c[1], pos) for b in conj(c[2], pos)]
    if c[0] == 'or' and pos or c[0] == 'and' and not pos: return conj(c[1], pos) + conj(c[2], pos)
    return [((c, pos),)]

def near(c):
    """|x - a| < eps  ->  linear facts: returns (kind, term) with kind re/im/any meaning term == 0"""
    if c[0] == '<' and c[2][0] == 'n' and 0 < c[2][1] < Fr(1, 10**6) and c[1][0] == 'app' and c[1][1] == 'abs': return c[1][2]
    return None

def nests(t):
    """sub-expression roots that facts may talk about"""
    return t[0] == 'sym' or (t[0] == 'app' and t[1] in ('l', 'r', 'arg'))

def apply_facts(facts, ts):
    fl = [f for g in facts for f in g]
    pos = [c for c, p in fl if p]
    # contradictory class facts
    kinds = {}
    for c, p in fl:
        if c[0] == 'app' and c[1] == 'is': kinds.setdefault(c[3], []).append((c[2][1], p))
    for e, ks in kinds.items():
        if not any(all(NODES.isa(k, q) == p for q, p in ks) for k in NODES.concrete): return None
    # near-zero facts
    zero, rez, imz = [], set(), set()
    for c in pos:
        x = near(c)
        if x is None: continue
        if x[0] == 'app' and x[1] == 'real': rez.add(x[2])
        elif x[0] == 'app' and x[1] == 'imag': imz.add(x[2])
        else: zero.append(x)
    zero += [x for x in rez if x in imz]
    # real(A) - c : |real(A - c)|
    def re_part(x):
        return None
    sub = {}
    for c in pos:                                    # real(A)-1 style facts
        x = near(c)
        if x is None: continue
    m = {}
    order = sorted([(e, ks) for e, ks in kinds.items()], key=lambda z: -len(repr(z[0])))
    out = list(ts)
    names = {}
    def ren(t):
        if t not in names: names[t] = sym('_%d' % len(names))
        return names[t]
    shape = {}; params = set()
    for e, ks in kinds.items():
        for k, p in ks:
            k = k.split('::')[-1]
            if p and k == 'Parameter': params.add(e)
            if p and k in BINKIND: shape[e] = BINKIND[k](('app', 'l', e), ('app', 'r', e))
            if p and k in den.UN: shape[e] = den.un(den.UN[k], ('app', 'arg', e))
            if p and k == 'ISqrt': shape[e] = div(ONE, den.un('sqrt', ('app', 'arg', e)))
    # flatten: every root -> independent symbol or shape in terms of children
    def val(e, d=0):
        if e in consts: return consts[e]
        if e in shape and d < 6:
            s = shape[e]
            return subst(s, {y: val(y, d + 1) for y in ((('app', 'l', e)), ('app', 'r', e), ('app', 'arg', e)) })
        return ren(e)
    consts = {}
    for z in zero:
        z2 = z
        if nests(z2): consts[z2] = ZERO
        elif z2[0] == '+' and nests(z2[1]) and (z2[2][0] == 'n' or z2[2][0] == 'neg'): consts[z2[1]] = neg(z2[2])
        elif z2[0] == '+' and nests(z2[2]) and z2[1][0] == 'n': consts[z2[2]] = neg(z2[1])
        elif z2[0] == 'neg' and nests(z2[1]): consts[z2[1]] = ZERO
    res = []
    for t in out:
        memo = {}
        def go(x):
            if not isinstance(x, tuple): return x
            if x in memo: return memo[x]
            if nests(x): r = val(x) if x != I else x
            elif x[0] in ('n', 'b', 's', 'clo'): r = x
            elif x[0] == 'app' and x[1] == 'conj' and x[2] in params: r = go(x[2])
            else: r = rebuild(tuple(go(y) if isinstance(y, tuple) else y for y in x))
            memo[x] = r; return r
        res.append(go(t))
    return res

# abs(A-1) must survive as near-fact: rf canonical handled by same()
def dconj(t):
    """conjugation distributes over the field operations"""
    memo = {}
    def c(x):
        if x[0] in ('+', '*', '/'): return (div if x[0] == '/' else add if x[0] == '+' else mul)(c(x[1]), c(x[2]))
        if x[0] == 'neg': return neg(c(x[1]))
        if x[0] == 'n': return x
        if x == I: return neg(I)
        if x[0] == 'app' and x[1] == 'conj': return x[2]
        return app('conj', x)
    def go(x):
        if not isinstance(x, tuple) or x[0] in ('n', 'b', 's', 'sym', 'clo'): return x
        if x in memo: return memo[x]
        r = rebuild(tuple(go(y) if isinstance(y, tuple) else y for y in x))
        if r[0] == 'app' and r[1] == 'conj': r = c(r[2])
        memo[x] = r; return r
    return go(t)

def plain(t):
    """pointer views of a tree node are the node"""
    for _ in range(4):
        m = {}
        for x in subterms(t):
            if x[0] == '==' and NULL in x[1:]:
                y = x[1] if x[2] == NULL else x[2]
                if y[0] == 'dyncast': m[x] = bnot(('app', 'is', S(y[1].replace('const ', '').replace('*', '').strip()), y[2][2] if y[2][0] == 'app' and y[2][1].endswith('::get') else y[2]))
            elif x[0] == 'deref' and x[1][0] == 'dyncast': m[x] = x[1][2][2] if x[1][2][0] == 'app' and x[1][2][1].endswith('::get') else x[1][2]
            elif x[0] == 'fld' and x[2] == 'm_expression': m[x] = x[1]
        if not m: break
        t = subst(t, m)
    return t

def judge(got, want):
    got = plain(got)
    """-> (n_leaves, first bad text, undecided text)"""
    bad = und = None; n = 0; good = 0
    for facts, leaf in leaves(got):
        if leaf == BOTTOM: continue
        r = apply_facts(facts, [leaf, want])
        if r is None: continue
        n += 1
        s = same(dconj(r[0]), dconj(r[1]))
        if s is None and denc(r[0]) is not None: s = None
        if s is True: good += 1
        elif s is False and not opaque(leaf): bad = bad or 'on path [%s] the tree built is %s, expected %s' % (' && '.join(('' if p else '!') + show(c) for g in facts for c, p in g), show(leaf), show(want))
        elif not opaque(leaf) and zerodiv(leaf) and not zerodiv(r[1]): bad = bad or 'on path [%s] the tree built divides by zero: %s' % (' && '.join(('' if p else '!') + show(c) for g in facts for c, p in g), show(leaf))
        else: und = und or 'leaf %s' % show(leaf)
    return n, good, bad, und
def zerodiv(t): return any(x[0] == '/' and x[2] == ZERO for x in subterms(t) if x)
def denc(x): return None
OKAPP = {'l', 'r', 'arg', 'real', 'imag', 'abs', 'is', 'sqrt', 'csqrt', 'sin', 'cos', 'tan', 'asin', 'acos', 'atan', 'atan2', 'exp', 'log', 'conj', 'norm', 'pow', 'lgamma', 'fmod', 'p1', 'p2', 'text'}
def opaque(t): return any((x[0] == 'app' and x[1] not in OKAPP) or x[0] in ('uninit', 'loop', 'glob', 'deref') for x in subterms(t) if x)

def calls(fn):
    out = []
    def go(x):
        if isinstance(x, dict):
            if x.get('k') in ('call', 'mcall') and x.get('u'): out.append(x['u'])
            for v in x.values(): go(v)
        elif isinstance(x, list):
            for v in x: go(v)
    go(fn['body'])
    return out

def recursive_helpers(P):
    """functions returning Expression that can call themselves other than through the specified operators"""
    spec = set(den.overrides())
    res = []
    for u, f in P.fns.items():
        if not f.get('body') or f.get('cls') or f.get('dep') or not f['rt'].replace('const ', '').endswith('Expression'): continue
        if strip_targs(f['q']) in spec: continue
        seen, todo = set(), [u]
        rec = False
        while todo and not rec:
            for c in calls(P.fns[todo.pop()]):
                if c == u: rec = True
                if c in P.fns and c not in seen and P.fns[c].get('body') and strip_targs(P.fns[c]['q']) not in spec: seen.add(c); todo.append(c)
        if rec: res.append(f)
    return res

CANDS = [('x+y', add), ('x-y', V.sub), ('y-x', lambda a, b: V.sub(b, a)), ('x*y', mul), ('x/y', div), ('y/x', lambda a, b: div(b, a))]

NODES = None
def check(ctx):
    global NODES
    P = extract.load(SRC)
    NODES = Nodes(P)
    A, B = sym('A'), sym('B')
    summaries = {}
    for f in recursive_helpers(P):
        ep = [i for i, p in enumerate(f['p']) if den.exprlike(p['t'])]
        if len(ep) != 2: continue
        best = None
        q = strip_targs(f['q'])
        for cn, c in CANDS:
            h = (lambda c: lambda m, n, st, fr: c(m.rv(n['a'][ep[0]], st, fr), m.rv(n['a'][ep[1]], st, fr)))(c)
            try:
                m = Machine(P, ov({q: h}), limit=20)
                args = [None] * len(f['p']); args[ep[0]], args[ep[1]] = A, B
                got = m.function(f, args)['ret']
            except Undecided as e: continue
            n, good, bad, und = judge(got, c(A, B))
            if best is None or good > best[0]: best = (good, cn, h, n, bad, und)
        if best is None or best[0] == 0: ctx.unknown('%s keeps one arithmetic meaning' % q, where(f), 'no summary'); continue
        ctx.saw('recursive helpers', '%s = %s' % (q, best[1]))
        summaries[q] = best[2]
        ctx.decide('%s denotes %s on every exit' % (q, best[1]), False if best[4] else (True if not best[5] else None), where(f), best[4] or best[5] or '')
    def run(f, args, want, name, this=None):
        ctx.saw('tree builders', f['q'])
        try:
            got = Machine(P, ov(summaries), limit=30).function(f, args, this)['ret']
        except Undecided as e: ctx.unknown(name, where(f), e); return
        n, good, bad, und = judge(got, want)
        if bad: ctx.bad(name, where(f), bad)
        elif und or not n: ctx.unknown(name, where(f), und or 'no exit')
        else: ctx.ok(name, where(f), '%d exits' % n)
    E = lambda t: den.exprlike(t)
    for op, sem in den.OPS.items():
        for f in P.all('AmpGen::operator' + op):
            if len(f['p']) != 2 or not any(t['t'].replace('const ', '').replace('&', '').strip() in den.EXPRS for t in f['p']) or 'Expression' not in f['rt'] or 'Tensor' in str(f['p']): continue
            run(f, [A, B], sem(A, B), 'operator%s(%s)' % (op, ', '.join(p['t'] for p in f['p'])))
    for op in '+-*/':
        for f in P.all('AmpGen::Expression::operator%s=' % op):
            name = 'Expression::operator%s=' % op
            try:
                r = Machine(P, ov(summaries), limit=30).function(f, [B], A)
                ctx.saw('tree builders', f['q'])
                res = [judge(r[k], den.OPS[op](A, B)) for k in ('ret', 'this')]
                bad = [x[2] for x in res if x[2]]; und = [x[3] for x in res if x[3]]
                ctx.decide(name, False if bad else None if und else True, where(f), (bad + und + [''])[0])
            except Undecided as e: ctx.unknown(name, where(f), e)
    for f in P.all('AmpGen::Expression::operator-'):
        run(f, [], neg(A), 'unary minus', A if True else None)
    spec1 = {'sqrt': 'sqrt', 'cos': 'cos', 'sin': 'sin', 'tan': 'tan', 'abs': 'abs', 'acos': 'acos', 'asin': 'asin', 'atan': 'atan', 'norm': 'norm', 'conj': 'conj', 'exp': 'exp', 'log': 'log'}
    for k, s in spec1.items():
        for f in P.all('AmpGen::fcn::' + k): run(f, [A], den.un(s, A), 'fcn::' + k)
    for f in P.all('AmpGen::fcn::conj'): pass
    for f in P.all('AmpGen::fcn::isqrt'): run(f, [A], div(ONE, app('sqrt', A)), 'fcn::isqrt')
    for f in P.all('AmpGen::fcn::safe_sqrt'): run_ite(ctx, P, f, summaries, [A], ite(cmp_('>', A, ZERO), app('sqrt', A), ZERO), 'fcn::safe_sqrt')
    for f in P.all('AmpGen::fcn::complex_sqrt'): run_ite(ctx, P, f, summaries, [A], ite(cmp_('>', A, ZERO), app('sqrt', A), mul(I, app('sqrt', neg(A)))), 'fcn::complex_sqrt', drop_const=True)
    for f in P.all('AmpGen::fcn::atan2'): run(f, [A, B], app('atan2', A, B), 'fcn::atan2')
    for f in P.all('AmpGen::fcn::pow'): run(f, [A, B], den.pow_(A, B), 'fcn::pow')
    for f in P.all('AmpGen::fcn::fpow'):
        for n in range(-4, 8):
            w = ONE
            for _ in range(abs(n)): w = mul(w, A)
            run(f, [A, num(n)], w if n >= 0 else div(ONE, w), 'fcn::fpow(x,%d)' % n)
    for f in P.all('AmpGen::make_cse'):
        for s in (TRUE, FALSE): run(f, [A, s], A, 'make_cse(simplify=%s)' % s[1])
    for f in P.all('AmpGen::Simplify'): run(f, [A], A, 'Simplify')
    normal_order(ctx, P, summaries)

def run_ite(ctx, P, f, summaries, args, want, name, drop_const=False):
    ctx.saw('tree builders', f['q'])
    try: got = Machine(P, ov(summaries), limit=30).function(f, args)['ret']
    except Undecided as e: ctx.unknown(name, where(f), e); return
    c = ('app', 'is', S('AmpGen::Constant'), args[0])
    if drop_const: got = subst(got, {c: FALSE})
    if opaque(got): ctx.unknown(name, where(f), show(got)); return
    ctx.decide(name, same(got, want), where(f), 'builds %s, expected %s' % (show(got), show(want)))

def normal_order(ctx, P, summaries):
    N = 'AmpGen::NormalOrderedExpression'
    A = sym('A')
    p1 = lambda e: ('app', 'p1', e)
    def expand(m, n, st, fr):
        e = m.rv(n['a'][0], st, fr)
        return ('list', p1(e), V.sub(e, p1(e)))
    for f in P.all(N + '::ExpandBrackets'):
        name = 'bracket expansion sums back to the expression'
        ctx.saw('tree builders', f['q'])
        try: got = Machine(P, ov(dict(summaries, **{N + '::ExpandBrackets': expand})), limit=30).function(f, [A], ('obj', N, (('m_expandSubTrees', TRUE), ('m_terms', ('list',)))))['ret']
        except Undecided as e: ctx.unknown(name, where(f), e); continue
        def tot(t):
            if t[0] == 'ite': return ite(t[1], tot(t[2]), tot(t[3]))
            if t[0] == 'list':
                s = ZERO
                for x in t[1:]: s = add(s, x)
                return s
            return ('app', 'opaque', t)
        got = subst_fix(tot(got))
        n, good, bad, und = judge(got, A)
        ctx.decide(name, False if bad else None if und or not n else True, where(f), bad or und or '')
    T = N + '::Term'
    pf, d, t0 = sym('pf'), sym('div'), sym('t0')
    this = ('obj', T, (('m_divisor', d), ('m_expressionAsString', sym('s')), ('m_markForRemoval', FALSE), ('m_prefactor', pf), ('m_terms', ('list', ('obj', 'std::pair', (('first', t0), ('second', sym('s0'))))))))
    def value(o):
        v = proj(o, ('f', 'm_prefactor'))
        l = proj(o, ('f', 'm_terms'))
        if l[0] != 'list': return None
        for x in l[1:]:
            v = mul(v, proj(x, ('f', 'first')))
        return div(v, proj(o, ('f', 'm_divisor')))
    def addx(m, n, st, fr):
        p = m.objpath(n, st, fr)
        o = m.rd(st, p)
        e = m.rv(n['a'][0], st, fr)
        m.wr(st, p, put(o, (('f', 'm_prefactor'),), mul(proj(o, ('f', 'm_prefactor')), e)))
        return VOID
    for f in P.all(T + '::addExpression'):
        name = 'normal-ordered term accumulates every factor'
        ctx.saw('tree builders', f['q'])
        try: o = Machine(P, ov(dict(summaries, **{T + '::addExpression': addx})), limit=30).function(f, [A], this)['this']
        except Undecided as e: ctx.unknown(name, where(f), e); continue
        def tot(t):
            if t[0] == 'ite': return ite(t[1], tot(t[2]), tot(t[3]))
            v = value(t)
            if v is None: return ('app', 'opaque', t)
            return v
        def hoist(o):
            """gates inside the fields -> one gate outside"""
            for x in subterms(o):
                if x[0] == 'ite': 
                    c = x[1]
                    return ite(c, hoist(assume(o, c, True)), hoist(assume(o, c, False)))
            return o
        got = tot(hoist(o))
        # sums never reach this function (brackets are expanded first): drop those paths
        got = subst(got, {('app', 'is', S('AmpGen::Sum'), A): FALSE, ('app', 'is', S('AmpGen::Sub'), A): FALSE})
        n, good, bad, und = judge(got, div(mul(mul(pf, t0), A), d))
        ctx.decide(name, False if bad else None if und or not n else True, where(f), bad or und or '')
    for f in [f for q in P.byq for f in P.byq[q] if q.startswith(T + '::operator') and 'Expression' in q]:
        name = 'normal-ordered term rebuilds its value'
        ctx.saw('tree builders', f['q'])
        try: got = Machine(P, ov(summaries), limit=30).function(f, [], this)['ret']
        except Undecided as e: ctx.unknown(name, where(f), e); continue
        ctx.decide(name, None if opaque(got) else same(got, div(mul(pf, t0), d)), where(f), show(got))
    for f in [f for q in P.byq for f in P.byq[q] if q.startswith(N + '::operator') and 'Expression' in q]:
        name = 'normal-ordered expression is the sum of its terms'
        ctx.saw('tree builders', f['q'])
        x, y, z = sym('x'), sym('y'), sym('z')
        try: got = Machine(P, ov(dict(summaries, **{T + '::operator Expression': lambda m, n, st, fr: m.rd(st, m.objpath(n, st, fr))})), limit=30).function(f, [], ('obj', N, (('m_expandSubTrees', FALSE), ('m_terms', ('list', x, y, z)))))['ret']
        except Undecided as e: ctx.unknown(name, where(f), e); continue
        ctx.decide(name, None if opaque(got) else same(got, add(add(x, y), z)), where(f), show(got))

    def term(pf, st, d=ONE, mark=FALSE):
        return ('obj', T, (('m_divisor', d), ('m_expressionAsString', S(st)), ('m_markForRemoval', mark), ('m_prefactor', pf), ('m_terms', ('list', ('obj', 'std::pair', (('first', sym('v_' + st)), ('second', S(st)))))))) 
    for f in P.all(N + '::groupExpressions'):
        ctx.saw('tree builders', f['q'])
        for pat in ('a', 'aa', 'ab', 'aab', 'abb', 'aaa', 'abc', 'aabb', 'abbc', 'aaab'):
            name = 'grouping of like terms keeps the sum [%s]' % pat
            try:
                l = ('list',) + tuple(term(sym('c%d' % i), c) for i, c in enumerate(reversed(pat)))
                o = Machine(P, ov(summaries), limit=30).function(f, [], ('obj', N, (('m_expandSubTrees', FALSE), ('m_terms', l))))['this']
                r = proj(o, ('f', 'm_terms'))
                if r[0] != 'list': ctx.unknown(name, where(f), show(r)); continue
                tot = ZERO; want = ZERO
                for x in r[1:]: tot = add(tot, value(x))
                for x in l[1:]: want = add(want, value(x))
                ctx.decide(name, None if opaque(tot) else same(tot, want), where(f), 'sum after grouping is %s, before %s' % (show(tot), show(want)))
            except Undecided as e: ctx.unknown(name, where(f), e)
    for f in P.all(T + '::Term'):
        if len(f['p']) != 1 or 'Expression' not in f['p'][0]['t']: continue
        ctx.saw('tree builders', f['q'])
        def fillx(m, n, st, fr):
            p = m.objpath(n, st, fr); o = m.rd(st, p)
            pairs = tuple(('obj', 'std::pair', (('first', sym('v_' + c)), ('second', S(c)))) for c in 'ab')
            o = put(o, (('f', 'm_prefactor'),), mul(proj(o, ('f', 'm_prefactor')), pf))
            o = put(o, (('f', 'm_divisor'),), mul(proj(o, ('f', 'm_divisor')), d))
            m.wr(st, p, put(o, (('f', 'm_terms'),), ('list',) + pairs)); return VOID
        try:
            o = Machine(P, ov(dict(summaries, **{T + '::addExpression': fillx})), limit=30).function(f, [A])['this']
            v = value(o); w = div(mul(mul(pf, sym('v_a')), sym('v_b')), d)
            ctx.decide('normal-ordered term starts from the neutral element', None if v is None or opaque(v) else same(v, w), where(f), show(v) if v else show(o))
            k = proj(o, ('f', 'm_expressionAsString'))
            name = 'the grouping key of a term is the text of everything but its prefactor'
            if k[0] == 'app' and k[1] == 'text' and not opaque(k): ctx.decide(name, same(k[2], div(w, pf)), where(f), 'key is the text of %s' % show(k[2]))
            elif k[0] == 's': ctx.decide(name, False, where(f), 'every term has the key "%s", so that different terms are merged' % k[1])
            else: ctx.unknown(name, where(f), show(k))
        except Undecided as e: ctx.unknown('normal-ordered term construction', where(f), e)
    for f in P.all(N + '::NormalOrderedExpression'):
        if len(f['p']) != 2: continue
        ctx.saw('tree builders', f['q'])
        name = 'normal ordering keeps every expanded term'
        try:
            o3 = dict(summaries, **{N + '::ExpandBrackets': lambda m, n, st, fr: ('list', term(sym('c0'), 'a'), term(sym('c1'), 'b'), term(sym('c2'), 'a')), N + '::groupExpressions': lambda m, n, st, fr: VOID,
                    'ctor:' + T: lambda m, n, st, fr: m.rv(n['a'][0], st, fr)})
            o = Machine(P, ov(o3), limit=30).function(f, [A, FALSE])['this']
            r = proj(o, ('f', 'm_terms'))
            if r[0] != 'list': ctx.unknown(name, where(f), show(r)); continue
            tot = ZERO
            for x in r[1:]: tot = add(tot, value(x))
            w = add(add(mul(sym('c0'), sym('v_a')), mul(sym('c1'), sym('v_b'))), mul(sym('c2'), sym('v_a')))
            ctx.decide(name, None if opaque(tot) else same(tot, w), where(f), show(tot))
            ks = [proj(x, ('f', 'm_expressionAsString'))[1] for x in r[1:]]
            ctx.decide('like terms are adjacent before grouping', all(i == 0 or ks[i] == ks[i - 1] or ks[i] not in ks[:i] for i in range(len(ks))), where(f), 'order %s' % ks)
        except Undecided as e: ctx.unknown(name, where(f), e)

def assume(t, c, v):
    return subst(t, {c: ('b', v)})
def subst_fix(t): return t
