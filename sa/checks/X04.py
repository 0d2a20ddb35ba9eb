"""For every concrete expression-tree node class the set of operands whose text its to_string can emit is computed from the value of
the emitted string, and the set of operands its resolve method visits from the abstract effect of resolve (helpers inlined, loops
over operand lists unrolled over a generic list); every emitted operand must be visited on every path, and leaf nodes whose text is
looked up in the resolver must register themselves.  The sub-tree, parameter, lambda and spline handlers of the resolver are analysed
the same way: each exit either finds the object already registered or registers it."""
from ..value import *
from ..expr import *
from .. import extract, den, value as V
from ..run import where

ASSUMPTIONS = ['a dependency is registered if its resolve method (or the resolver) is called for it on the path']
SRC = ['src/Expression.cpp', 'src/BinaryExpression.cpp', 'src/UnaryExpression.cpp', 'src/ASTResolver.cpp', 'src/Array.cpp', 'src/Spline.cpp', 'src/Tensor.cpp', 'src/MinuitExpression.cpp', 'src/ExpressionParser.cpp']
LOG = ('g', '$resolved')
LEAF = ('AmpGen::Expression', 'AmpGen::Parameter', 'AmpGen::Array')

def instance(nodes, q):
    """an abstract object: operand fields are symbols, operand lists are generic two-element lists"""
    fs = []; ops = []
    for f in nodes.fields(q):
        t = f['t'].replace('const ', '')
        if t in LEAF: v = sym('op_' + f['n']); ops.append((f['n'], v))
        elif t.startswith('std::vector<AmpGen::Expression'): v = ('list', sym('op_%s_0' % f['n']), sym('op_%s_1' % f['n'])); ops += [(f['n'] + '[0]', v[1]), (f['n'] + '[1]', v[2])]
        elif t == 'AmpGen::Tensor':
            e = ('list', sym('op_%s_0' % f['n']), sym('op_%s_1' % f['n']))
            v = ('obj', 'AmpGen::Tensor', tuple(sorted((('m_dim', ('list', num(2))), ('m_elements', e), ('m_symmetrisedCoordinates', ('list', ZERO, ONE)), ('m_uniqueElements', ('list', ZERO, ONE))))))
            ops += [(f['n'] + '[0]', e[1]), (f['n'] + '[1]', e[2])]
        else: v = sym('f_' + f['n'])
        fs.append((f['n'], v))
    return ('obj', q, tuple(sorted(fs))), ops

def visited(m, v, st):
    cur = st.s.get(LOG)
    if cur is None: cur = ('list',)
    st.s[LOG] = cur + (v,) if cur[0] == 'list' else ('app', 'more', cur, v)

def logs(t, v):
    """condition under which v is logged"""
    if t is None: return FALSE
    if t[0] == 'list': return TRUE if v in t[1:] else FALSE
    if t[0] == 'ite': return ite(t[1], logs(t[2], v), logs(t[3], v))
    if t[0] == 'app' and t[1] == 'more': return bor(TRUE if t[3] == v else FALSE, logs(t[2], v))
    return ('app', 'unknown-log', t)

def ovr(nodes, selfv=None):
    o = den.overrides()
    def res(m, n, st, fr):
        if n['k'] == 'mcall':
            p = m.objpath(n, st, fr); v = m.rd(st, p)
            if v[0] == 'obj' and v[1] in nodes.concrete: return None
            visited(m, v, st); return VOID
    for k in ('Expression', 'Parameter', 'Array', 'IExpression'): o['AmpGen::%s::resolve' % k] = res
    def reg(m, n, st, fr):
        v = m.rv(n['a'][0], st, fr)
        if v[0] == 'obj' and v[1] in nodes.concrete or n.get('ta') : visited(m, ('self', strip_targs(n['a'][0].get('t', '').replace('const ', ''))), st)
        else: visited(m, v, st)
        return VOID
    o['AmpGen::ASTResolver::resolve'] = reg
    o['AmpGen::Expression::to_string'] = lambda m, n, st, fr: ('app', 'txt', m.rv(n['o'], st, fr))
    def ts(m, n, st, fr):
        p = m.objpath(n, st, fr); v = m.rd(st, p)
        if v[0] == 'obj' and v[1] in nodes.concrete: return None
        return ('app', 'txt', v)
    for k in ('Parameter', 'Array', 'IExpression', 'Ternary'): o['AmpGen::%s::to_string' % k] = ts
    o['AmpGen::type_string'] = lambda m, n, st, fr: sym('$type')
    o['AmpGen::mysprintf'] = lambda m, n, st, fr: sym('$digits')
    o['AmpGen::ASTResolver::resolvedParameter'] = lambda m, n, st, fr: sym('$lookup')
    return o

def check(ctx):
    P = extract.load(SRC, root_stubs=False)
    nodes = Nodes(P)
    for q in nodes.concrete:
        r = nodes.method(q, 'resolve'); t = nodes.method(q, 'to_string')
        if r is None or t is None: continue
        obj, ops = instance(nodes, q)
        ctx.saw('node classes', q)
        try:
            texts = set(); lookup = False
            for res in (NULL, ('addr', (('mem', sym('resolver')),))):
                o = ovr(nodes)
                m = Machine(P, o, limit=20)
                v = m.function(t, [res], obj)['ret']
                ops_in = {s for s in subterms(v) if s[0] == 'app' and s[1] == 'txt'}
                inner = {y for s in ops_in for y in subterms(s)}
                texts |= {(n, s) for n, s in ops if s in inner}
                if res != NULL: lookup = sym('$lookup') in set(subterms(v))
            if q.endswith('::SubTree'): texts |= {(n, s) for n, s in ops}
            m = Machine(P, ovr(nodes), limit=20)
            st = m.function(r, [('addr', (('mem', sym('resolver')),))], obj)['st']
            log = st.s.get(LOG)
        except Undecided as e: ctx.unknown(q, where(r), e); continue
        for n, s in sorted(texts):
            if q.endswith('::SubTree'):
                c = bor(logs(log, ('self', q)), logs(log, s))
            else: c = logs(log, s)
            und = any(x[0] == 'app' and x[1] == 'unknown-log' for x in subterms(c))
            ctx.decide('%s resolves operand %s' % (q, n), None if und else c == TRUE, where(r), 'operand %s can appear in the emitted text but resolve does not visit it%s' % (n, '' if c == FALSE else ' when ' + show(bnot(c))))
        if lookup:
            c = logs(log, ('self', q))
            c = subst(c, {sym('f_m_resolved'): FALSE, ('not', sym('f_m_resolved')): TRUE})
            c = subst(c, {('==', ZERO, sym('f_m_resolved')): TRUE, ('==', sym('f_m_resolved'), ZERO): TRUE})
            ctx.decide('%s registers itself with the resolver' % q, c == TRUE if c in (TRUE, FALSE) else None, where(r), 'text is looked up in the resolver, but resolve never registers the node')
    handlers(ctx, P, nodes)

def handlers(ctx, P, nodes):
    """resolver handlers: on every path the object is already known or becomes registered"""
    REG = ('g', '$registered')
    for f in P.all('AmpGen::ASTResolver::resolve'):
        if f.get('dep') or not f.get('body') or not f['p']: continue
        pt = f['p'][0]['t'].replace('const ', '').replace('&', '').strip()
        if not f['body'].get('b'): continue
        ctx.saw('resolver handlers', pt)
        o = den.overrides()
        for k in list(o):
            if k.startswith('ctor:'): del o[k]
        def add_res(m, n, st, fr):
            st.s[REG] = TRUE; return VOID
        o['AmpGen::ASTResolver::addResolvedParameter'] = add_res
        o['AmpGen::ASTResolver::addCacheFunction'] = lambda m, n, st, fr: sym('address')
        o['AmpGen::IExpression::resolve'] = lambda m, n, st, fr: (st.s.__setitem__(('g', '$sub'), TRUE), VOID)[1]
        o['AmpGen::Expression::resolve'] = o['AmpGen::IExpression::resolve']
        if pt.endswith('SubTree'):
            name = 'sub-tree handler records the sub-tree and its dependencies'
            try:
                m = Machine(P, o, limit=20)
                m.hooks['_gcache'] = {('g', '$sub'): FALSE}
                r = m.function(f, None, None)
                tt = proj(r['this'], ('f', 'm_tempTrees'))
                sub = r['st'].s.get(('g', '$sub'), FALSE)
                old = ('fld', sym('this'), 'm_tempTrees')
                known = {}
                for x in list(subterms(tt)) + list(subterms(sub)):
                    if x[0] == 'app' and x[1] == 'contains' and x[2] == old: known[x] = FALSE
                tt, sub = subst(tt, known), subst(sub, known)
                ok = True; why = ''
                def leaves(t, c=()):
                    if t[0] == 'ite': yield from leaves(t[2], c + ((t[1], True),)); yield from leaves(t[3], c + ((t[1], False),))
                    else: yield c, t
                for c, t in leaves(tt):
                    if t == old:
                        ok = False; why = 'a new sub-tree is not recorded on the path %s' % [show(x[0]) for x in c]
                    elif t[0] != 'upd': ok = None
                ctx.decide(name, ok, where(f), why or show(tt))
            except Undecided as e: ctx.unknown(name, where(f), e)
            continue
        name = 'handler for %s registers the object' % pt
        try:
            m = Machine(P, o, limit=20)
            m.hooks['_gcache'] = {REG: FALSE}
            r = m.function(f, None, None)
            c = r['st'].s.get(REG, FALSE)
            def norm(c):
                # paths where the object is known already, flagged resolved, or the parameter set has no entry are exempt
                mp = {}
                for x in subterms(c):
                    if x[0] == 'app' and x[1] == 'contains' and 'm_resolvedParameters' in repr(x[2]): mp[x] = FALSE
                c = subst(c, mp)
                mp = {}
                for x in subterms(c):
                    if x[0] == '==' and (x[1] == ZERO or x[2] == ZERO) and 'm_resolvedParameters' in repr(x): mp[x] = TRUE
                c = subst(c, mp)
                mp = {}
                for x in subterms(c):
                    if x[0] == 'fld' and x[2] == 'm_resolved': mp[x] = FALSE
                    if pt.endswith('Link') and x[0] == '==' and NULL in x[1:]: mp[x] = FALSE
                return subst(c, mp)
            c = norm(c)
            free = [x for x in subterms(c) if x[0] == 'ite']
            ctx.decide(name, True if c == TRUE else (False if reach_false(c) else None), where(f), 'registered only when ' + show(c)[:300])
        except Undecided as e: ctx.unknown(name, where(f), e)

def reach_false(c):
    """some gate combination leaves the object unregistered"""
    if c == FALSE: return True
    if c[0] == 'ite': return reach_false(c[2]) or reach_false(c[3])
    return c[0] in ('not', 'and', '<', '==', 'or', 'app', 'fld', 'sym')
