"""For every operator node of the expression tree (discovered from the class hierarchy), the term denoted by its in-situ
evaluator is compared with the C++ meaning of the text template it emits, for every emission mode and for every node class
nested in every operand position (so missing brackets show); every floating constant that reaches emitted text must be
printed with a conversion that round-trips a double."""
from ..value import *
from ..expr import *
from .. import extract, expr, den
from ..run import where

ASSUMPTIONS = ['emitted comparisons act on the real part of their operands', 'floating-point rounding is not modelled']
SRC = ['src/Expression.cpp', 'src/BinaryExpression.cpp', 'src/UnaryExpression.cpp', 'src/ASTResolver.cpp', 'src/CompiledExpressionBase.cpp', 'src/Array.cpp']
CFGS = [('none', None), ('scalar', {}), ('avx', {'avx': 1}), ('cuda', {'cuda': 1})]

def child(name): return ('fld', sym('this'), name)

def evaluate(nodes, q):
    f = nodes.method(q, 'operator()')
    if f is None: return None
    m = Machine(nodes.P, node_overrides(nodes, {}, None, lambda v: ('app', 'txt', v)), limit=20)
    return m.function(f)['ret']

def template(nodes, q, cfg, kinds=None, texts=None):
    """text emitted by node class q; children in `texts` are replaced by the given text"""
    f = nodes.method(q, 'to_string')
    texts = texts or {}
    def text_of(v): return texts.get(v, ('app', 'txt', v))
    m = Machine(nodes.P, node_overrides(nodes, kinds or {}, cfg, text_of), limit=20)
    r = m.function(f, [NULL if cfg is None else ('addr', (('mem', sym('resolver')),))])
    return r['ret']

def leafval(x):
    if x[0] == 'app' and x[1] == 'txt': return ('app', 'val', x[2])
    raise ParseError('unknown text fragment %s' % show(x))

def parse(t): return Parser(tokens(t), leafval).parse()

def rename(t, pre):
    """re-root the children of a template below another child"""
    return subst(t, {sym('this'): pre})

def check(ctx):
    P = extract.load(SRC)
    nodes = Nodes(P)
    work = nodes.unary + nodes.binary + [q for q in ('AmpGen::Ternary', 'AmpGen::ComplexParameter') if q in nodes.concrete]
    evs, tpl = {}, {}
    broken = set()
    for q in work:
        ctx.saw('node classes', q)
        f = nodes.method(q, 'operator()'); g = nodes.method(q, 'to_string')
        if f is None or g is None: continue
        try: evs[q] = strip_real(evaluate(nodes, q))
        except Undecided as e: ctx.unknown('%s evaluator' % q, where(f), e); continue
        if any(t[0] == 'app' and t[1] not in KNOWNF for t in subterms(evs[q]) if t): 
            ctx.unknown('%s evaluator' % q, where(f), 'opaque call in ' + show(evs[q])); del evs[q]; continue
        short = q.split('::')[-1]
        want = meaning(short, [('app', 'val', child(c)) for c in nodes.children(q)])
        if want is not None:
            ctx.decide('%s evaluates to what its name says' % q, same(evs[q], want), where(f), 'evaluator computes %s, expected %s' % (show(evs[q]), show(want)))
        for cn, cfg in CFGS:
            name = '%s emitted text = evaluator [%s]' % (q, cn)
            try:
                t = template(nodes, q, cfg)
                opaque = [x for x in (t[1:] if t[0] == 'cat' else (t,)) if x[0] not in ('s',) and not (x[0] == 'app' and x[1] in ('txt', 'typetext'))]
                # gates on the class of the operand (bracketing) are resolved per operand class below
                if any(x[0] == 'ite' for x in opaque) or t[0] == 'ite': tpl[q, cn] = None; continue
                if opaque: ctx.unknown(name, where(g), 'text not understood: ' + show(t)); continue
                tpl[q, cn] = t
                v = strip_real(parse(t))
            except Undecided as e: ctx.unknown(name, where(g), e); continue
            except ParseError as e:
                ctx.bad(name, where(g), 'emitted text is not a well-formed expression: %s in %s' % (e, show(t))); continue
            if same(v, evs[q]) is False: broken.add(q)
            ctx.decide(name, same(v, evs[q]), where(g), 'emitted %s means %s but the evaluator computes %s' % (show(t), show(v), show(evs[q])))
    # nesting: every operand position x every operand class
    infix = []
    work = [q for q in work if q not in broken]
    for q in work:
        if q not in evs: continue
        t = tpl.get((q, 'none'))
        try: toks = tokens(t) if t else None
        except ParseError: toks = None
        d = 0; root = False
        for k, v in (toks or [('op', '+')]):
            if k == 'op' and v in '([': d += 1
            elif k == 'op' and v in ')]': d -= 1
            elif k == 'op' and d == 0 and v != ',': root = True
        if root or toks is None: infix.append(q)
    for cn, cfg in CFGS[:1] + CFGS[2:3]:
        for q in work:
            if q not in evs: continue
            g = nodes.method(q, 'to_string')
            ch = nodes.children(q)
            bad = None; und = None; cnt = 0
            for i, c in enumerate(ch):
                for k in work:
                    if k not in evs: continue
                    kch = nodes.children(k)
                    inner = [None] + ([(j, k2) for j in range(len(kch)) for k2 in infix] if k in infix else [])
                    for nest in inner:
                        try:
                            kinds, texts, vals = {}, {}, {}
                            def place(cls, root, nst):
                                """text and value of a node of class cls rooted at `root`"""
                                kk, tt, vv = {}, {}, {}
                                for j, fn_ in enumerate(nodes.children(cls)):
                                    cc = ('fld', root, fn_)
                                    if nst and nst[0] == j:
                                        tx, vx = place(nst[1], cc, nst[2] if len(nst) > 2 else None)
                                        tt[('fld', sym('this'), fn_)] = tx; kk[('fld', sym('this'), fn_)] = nst[1]; vv[('app', 'val', ('fld', sym('this'), fn_))] = vx
                                    else:
                                        kk[('fld', sym('this'), fn_)] = 'AmpGen::Parameter'
                                        tt[('fld', sym('this'), fn_)] = ('app', 'txt', cc); vv[('app', 'val', ('fld', sym('this'), fn_))] = ('app', 'val', cc)
                                key = (cls, cn, tuple(sorted((a, b) for a, b in kk.items())), tuple(sorted(tt.items(), key=repr)))
                                return template(nodes, cls, cfg, kk, tt), subst(evs[cls], vv)
                            t, v = place(q, sym('root'), (i, k, nest) if nest else (i, k))
                            pv = strip_real(parse(t))
                            cnt += 1
                            r = same(pv, strip_real(v))
                            if r is False and bad is None: bad = 'operand %s of class %s%s: text %s means %s, evaluator gives %s' % (c, k, ' over ' + nest[1] if nest else '', show(t), show(pv), show(v))
                            if r is None: und = 'undecided at %s' % k
                        except ParseError as e: bad = bad or 'operand %s of class %s: ill-formed text %s' % (c, k, e)
                        except Undecided as e: und = str(e)
                        if bad: break
                    if bad: break
                if bad: break
            name = '%s nested operands keep their meaning [%s]' % (q, cn)
            if bad: ctx.bad(name, where(g), bad)
            elif cnt == 0: ctx.unknown(name, where(g), und or 'no nesting analysed')
            else: ctx.ok(name, where(g), '%d nestings' % cnt)
    constants(ctx, P, nodes)

def meaning(short, ch):
    if short in den.UN and len(ch) == 1: return strip_real(den.un(den.UN[short], ch[0]))
    if short in den.BIN and len(ch) == 2: return den.BIN[short](*ch)
    if short == 'ISqrt' and len(ch) == 1: return div(ONE, app('sqrt', ch[0]))
    if short == 'Ternary' and len(ch) == 3: return ite(truth(ch[0]), ch[1], ch[2])
    if short == 'ComplexParameter' and len(ch) == 2: return add(ch[0], mul(I, ch[1]))
    return None

KNOWNF = {'val', 'real', 'imag', 'sqrt', 'sin', 'cos', 'tan', 'asin', 'acos', 'atan', 'exp', 'log', 'abs', 'norm', 'conj', 'atan2', 'pow', 'fmod', 'lgamma', 'is', 'rsqrt'}

def constants(ctx, P, nodes):
    """numeric values that reach generated source: every conversion to text must keep every bit"""
    roots = [('constants', nodes.method('AmpGen::Constant', 'to_string'))]
    roots += [('compile-time constant parameters (%s)' % f['p'][0]['t'].split('::')[-1].rstrip(' &'), f) for f in P.find('AmpGen::ASTResolver::resolve') if f['p'] and f['p'][0]['t'].split('::')[-1].rstrip(' &') in ('Parameter', 'MinuitParameterLink')]
    roots += [('built-in parameter values', f) for f in P.byq.get('AmpGen::CompiledExpressionBase::compileWithParameters', [])]
    roots += [('linked parameters', f) for f in P.byq.get('AmpGen::MinuitParameterLink::to_string', [])]
    for what, g in roots:
        if g is None: continue
        fmts = conversions(P, g)
        res = None; det = ''
        for s, l, fn in fmts:
            m = re.search(r'%[-+ #0]*\d*(?:\.(\d+))?(l?[gfeEaG])', s)
            if not m: continue
            conv = m.group(2)[-1]; prec = int(m.group(1)) if m.group(1) else 6
            good = conv == 'a' or (conv in 'gG' and prec >= 17) or (conv in 'eE' and prec >= 16)
            if not good: res = False; det = 'line %s of %s: conversion "%s" keeps %d digits of a double' % (l, fn['q'], s, prec)
            elif res is None: res = True
        if res is None and what != 'constants': continue
        ctx.decide('%s are emitted with round-trip precision' % what, res, where(g), det or 'no conversion recognised')

def conversions(P, g):
    seen = set(); fmts = []
    def walk(fn, depth=0):
        if id(fn) in seen or depth > 4: return
        seen.add(id(fn))
        def go(x):
            if isinstance(x, dict):
                if x.get('k') == 'lambda' and x.get('gen'):
                    for c in P.lambdas.get(x['id'], []): go(c['body'])
                    return
                if x.get('k') in ('call', 'mcall'):
                    f = strip_targs(x.get('f', ''))
                    if x.get('k') == 'call' and f.split('::')[-1] in ('mysprintf', 'snprintf', 'sprintf'):
                        for a in x['a']:
                            b = a
                            while isinstance(b, dict) and b.get('k') in ('cast', 'ctor') and b.get('a'): b = b['a'][0]
                            if b.get('k') == 'str': fmts.append((b['v'], x.get('l'), fn)); break
                    elif f == 'std::to_string' and is_float((x.get('pt') or [''])[0]): fmts.append(('%f', x.get('l'), fn))
                    else:
                        c = P.fns.get(x.get('u'))
                        if c is not None and c.get('body') and 'printf' not in f: walk(c, depth + 1)
                for v in x.values(): go(v)
            elif isinstance(x, list):
                for v in x: go(v)
        go(fn['body'])
    walk(g)
    return fmts
