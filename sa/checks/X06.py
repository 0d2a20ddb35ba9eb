"""Sharing of sub-expressions in generated source.  (a) The name a shared node emits and the name its definition is emitted under are
the same function of its key, the key is the hash of the node's own full text, and the hash folds in every character in order.
(b) The ordering routine of the resolver is abstractly interpreted over every dependency shape of up to three shared nodes (four in
selected shapes; with equal-keyed copies), every relative order of keys: each reachable key must be listed exactly once and after
everything it refers to.  (c) Definitions are emitted in list order and before the returned expression, in every function form.
(d) The text of a leaf without a resolver must identify the leaf (function-valued leaves of one type must not share a name)."""
import itertools
from ..value import *
from ..expr import *
from .. import extract, den, value as V
from ..run import where

ASSUMPTIONS = ['hash collisions between different texts are ignored (the library offers a run-time check for them)', 'dependency shapes bounded to four shared nodes']
SRC = ['src/ASTResolver.cpp', 'src/Expression.cpp', 'src/CompiledExpressionBase.cpp', 'src/Utilities.cpp', 'src/Simplify.cpp', 'src/Tensor.cpp']
TU = [extract.VERIF + '/tools/tus/compiled.cpp']

def check(ctx):
    P = extract.load(SRC, extra_tus=TU)
    names(ctx, P)
    hashing(ctx, P)
    ordering(ctx, P)
    emission(ctx, P)
    leaves(ctx, P)

def opaque(t): return any(x[0] == 'app' and x[1] not in ('to_string', 'txt', 'hash', 'NO', 'H', 'size') and not x[1].startswith('str::') or x[0] in ('uninit', 'loop') for x in subterms(t))

def names(ctx, P):
    H = lambda m, n, st, fr: ('app', 'H', m.rv(n['a'][0], st, fr))
    T = lambda m, n, st, fr: ('app', 'txt', m.rv(n['o'], st, fr))
    ov = {'AmpGen::FNV1a_hash': H, 'AmpGen::Expression::to_string': T, 'ctor:AmpGen::NormalOrderedExpression': lambda m, n, st, fr: ('app', 'NO', m.rv(n['a'][0], st, fr)),
          'AmpGen::NormalOrderedExpression::operator AmpGen::Expression': lambda m, n, st, fr: m.rv(n['o'], st, fr), 'AmpGen::NormalOrderedExpression::operator Expression': lambda m, n, st, fr: m.rv(n['o'], st, fr)}
    for f in P.byq.get('AmpGen::SubTree::SubTree', []):
        if f.get('dep') or not f['p'] or 'Expression' not in f['p'][0]['t']: continue
        nm = 'the key of a shared node is the hash of its text'
        try: r = Machine(P, ov, limit=10).function(f, [sym('other')])['this']
        except Undecided as e: ctx.unknown(nm, where(f), e); continue
        k = proj(r, ('f', 'm_key')); want = ('app', 'H', ('app', 'txt', sym('other')))
        ctx.saw('functions', f['q'])
        ctx.decide(nm, True if k == want else None if opaque(k) else False, where(f), 'key is %s' % show(k))
        ctx.decide('a shared node holds the expression it was given', same(proj(r, ('f', 'm_expression')), sym('other')), where(f), show(r))
    for f in P.byq.get('AmpGen::SubTree::key', []):
        r = Machine(P, ov, limit=10).function(f)['ret']
        ctx.saw('functions', f['q'])
        k = ('fld', sym('this'), 'm_key')
        ctx.decide('the key read back is the key stored', True if r == k or r == ('app', 'H', ('app', 'txt', ('fld', sym('this'), 'm_expression'))) else False if not opaque(r) else None, where(f), show(r))
    for f in P.byq.get('AmpGen::SubTree::setKey', []):
        r = Machine(P, ov, limit=10).function(f, [sym('k')])['this']
        ctx.saw('functions', f['q'])
        ctx.decide('setting the key stores it', same(proj(r, ('f', 'm_key')), sym('k')), where(f), show(r))
    for f in P.byq.get('AmpGen::SubTree::expression', []):
        r = Machine(P, ov, limit=10).function(f)['ret']
        ctx.decide('a shared node hands out its expression', same(r, ('fld', sym('this'), 'm_expression')), where(f), show(r))
    for f in P.byq.get('AmpGen::SubTree::to_string', []):
        r = Machine(P, {'AmpGen::SubTree::key': lambda m, n, st, fr: sym('key')}, limit=10).function(f, [sym('r')])['ret']
        ctx.saw('functions', f['q'])
        ctx.use = r
        ok = r == cat(S('v'), app('to_string', sym('key')))
        ctx.subtext = r
    for f in P.byq.get('AmpGen::make_cse', []):
        # the key a simplified shared node receives is the hash of the text of an equal expression
        keys = []
        def setk(m, n, st, fr): keys.append((m.rv(n['a'][0], st, fr), n.get('l'))); return VOID
        o = dict(ov); o['AmpGen::SubTree::setKey'] = setk; o['ctor:AmpGen::SubTree'] = lambda m, n, st, fr: ('app', 'SubTree', m.rv(n['a'][0], st, fr))
        o['AmpGen::SubTree::operator Expression'] = o['AmpGen::SubTree::operator AmpGen::Expression'] = lambda m, n, st, fr: m.rv(n['o'], st, fr)
        o['AmpGen::is'] = lambda m, n, st, fr: ('app', 'is', S(tmpl_class(n) or '?'), m.rv(n['a'][0], st, fr))
        o['ctor:AmpGen::Expression'] = lambda m, n, st, fr: m.rv(n['a'][0], st, fr)
        nm = 'a simplified shared node is keyed by the text of an equal expression'
        try: Machine(P, o, limit=10).function(f, [sym('A'), sym('simplify')])
        except Undecided as e: ctx.unknown(nm, where(f), e); continue
        good = (('app', 'H', ('app', 'txt', ('app', 'NO', sym('A')))), ('app', 'H', ('app', 'txt', sym('A'))))
        res = True; det = ''
        for k, l in keys:
            k = unwrap(k)
            if k not in good: res = None if opaque(k) else False; det = 'line %s: key %s' % (l, show(k))
        ctx.saw('functions', f['q'])
        ctx.decide(nm, res, where(f), det)

def unwrap(t):
    if t[0] == 'app' and t[1] in ('ctor:AmpGen::Expression',) and len(t) == 3: return unwrap(t[2])
    if t[0] in ('app',): return t[:2] + tuple(unwrap(x) for x in t[2:])
    return t

def hashing(ctx, P):
    for f in P.byq.get('AmpGen::FNV1a_hash', []):
        nm = 'the hash folds in every character in order'
        cs = [sym('c%d' % i) for i in range(3)]
        ctx.saw('functions', f['q'])
        try:
            r3 = Machine(P, {}, limit=10).function(f, [('list',) + tuple(cs)])['ret']
            r2 = Machine(P, {}, limit=10).function(f, [('list',) + tuple(cs[:2])])['ret']
            rs = Machine(P, {}, limit=10).function(f, [('list', cs[1], cs[0], cs[2])])['ret']
        except Undecided as e: ctx.unknown(nm, where(f), e); continue
        st = set(subterms(r3))
        if any(x[0] == 'loop' for x in st): ctx.unknown(nm, where(f), show(r3)[:200]); continue
        miss = [show(c) for c in cs if c not in st]
        ctx.decide(nm, not miss and r3 != r2 and r3 != rs, where(f), 'hash of c0 c1 c2 is %s' % show(r3)[:300])

def shapes(thorough):
    for n in (1, 2, 3):
        pairs = [(i, j) for i in range(n) for j in range(i + 1, n)]
        for mask in range(1 << len(pairs)):
            edges = {i: [j for (a, j), b in zip(pairs, range(len(pairs))) if a == i and mask >> b & 1] for i in range(n)}
            for rm in range(1, 1 << n):
                roots = [i for i in range(n) if rm >> i & 1]
                reach = set(); todo = list(roots)
                while todo:
                    x = todo.pop()
                    if x not in reach: reach.add(x); todo += edges[x]
                if len(reach) != n: continue
                for perm in itertools.permutations(range(n)): yield n, edges, roots, perm, None
                if n <= 2 or mask in (3, 7):
                    for perm in itertools.permutations(range(n)):
                        for c in range(n): yield n, edges, roots, perm, c
    four = [{0: [1, 2], 1: [3], 2: [3], 3: []}, {0: [1], 1: [2], 2: [3], 3: []}, {0: [1, 3], 1: [2], 2: [3], 3: []}, {0: [1, 2, 3], 1: [], 2: [], 3: []}, {0: [2, 3], 1: [0, 3], 2: [3], 3: []}]
    for e in four:
        for roots in ([0], [0, 3], [1, 0, 2]):
            reach = set(); todo = list(roots)
            while todo:
                x = todo.pop()
                if x not in reach: reach.add(x); todo += e[x]
            if len(reach) != 4: continue
            ps = list(itertools.permutations(range(4)))
            for perm in (ps if thorough else ps[::5]): yield 4, e, roots, perm, None

def ordering(ctx, P):
    f = (P.byq.get('AmpGen::ASTResolver::getOrderedSubExpressions') or [None])[0]
    if f is None: ctx.unknown('ordering', '', 'routine not found'); return
    hs = [g for g in P.find('AmpGen::ASTResolver::resolve') if g['p'] and g['p'][0]['t'].endswith('SubTree &')]
    if not hs: ctx.unknown('ordering', where(f), 'sub-tree handler not found'); return
    handler = hs[0]
    ctx.saw('functions', f['q']); ctx.saw('functions', handler['q'])
    nm = 'every shared node is listed once, after its dependencies'
    tot = 0; bad = None; und = None
    P1 = lambda s: ('addr', (('mem', sym(s)),))
    EX = lambda i: ('obj', 'AmpGen::Expression', (('m_expression', P1('e%s' % i)),))
    for n, edges, roots, perm, clone in shapes(ctx.tier == 'thorough'):
        if und or bad: break
        tot += 1
        mem = {}
        kids = {str(i): [str(j) for j in edges[i]] for i in range(n)}
        key = {str(i): num(100 + perm[i]) for i in range(n)}
        rts = [str(i) for i in roots]
        if clone is not None:
            kids['c'] = kids[str(clone)]; key['c'] = key[str(clone)]; rts = rts + ['c']
        for i in kids:
            mem[('mem', sym('s' + i))] = ('obj', 'AmpGen::SubTree', (('m_expression', EX(i)), ('m_key', key[i])))
        def visit(m, ids, st, fr, thisn):
            for c in ids:
                f2 = Frame(); f2.m['this'] = thisn
                f2.m[handler['p'][0]['id']] = (('mem', sym('s' + c)),); f2.m['retref'] = False
                m.run(handler['body'], st, f2)
        THIS = (('v', 0, 'this'),)
        def res(m, nn, st, fr):
            if nn.get('arrow'): p = m.rv(nn['o'], st, fr)
            else:
                v = m.rd(st, m.objpath(nn, st, fr)); p = proj(v, ('f', 'm_expression')) if v[0] == 'obj' else v
            if p[0] == 'addr' and p[1][0] == ('mem', sym('root')): visit(m, rts, st, fr, THIS); return VOID
            if p[0] != 'addr' or p[1][0][0] != 'mem' or p[1][0][1][0] != 'sym': raise Undecided('resolve of ' + show(p))
            visit(m, kids[p[1][0][1][1][1:]], st, fr, THIS); return VOID
        ov = {'AmpGen::Expression::resolve': res, 'AmpGen::IExpression::resolve': res, 'AmpGen::Expression::get': lambda m, nn, st, fr: proj(m.rd(st, m.objpath(nn, st, fr)), ('f', 'm_expression')),
              'AmpGen::Expression::operator=': None}
        ov = {k: v for k, v in ov.items() if v}
        this = ('with', ('with', sym('this'), 'm_check_hashes', FALSE), 'm_tempTrees', ('emptymap',))
        try: r = Machine(P, ov, limit=60, budget=2000000).function(f, [EX('root')[:2] + ((('m_expression', P1('root')),),)], this, mem)['ret']
        except Undecided as e: und = e; break
        if r[0] != 'list': und = 'result ' + show(r)[:200]; break
        ks = [proj(x, ('f', 'first')) for x in r[1:]]; es = [proj(proj(x, ('f', 'second')), ('f', 'm_expression')) for x in r[1:]]
        want = set(key.values())
        desc = 'dependencies %s, roots %s, keys %s: listed %s' % (kids, rts, {i: show(k) for i, k in key.items()}, [show(k) for k in ks])
        if any(as_num(k) is None for k in ks): und = desc; break
        if set(ks) != want or len(ks) != len(want): bad = desc; break
        for i in kids:
            for c in kids[i]:
                if ks.index(key[c]) > ks.index(key[i]): bad = desc
        for k, e in zip(ks, es):
            if e not in [P1('e' + i) for i in kids if key[i] == k]: bad = 'key %s defined by %s; %s' % (show(k), show(e), desc)
    if bad: ctx.bad(nm, where(f), bad)
    elif und: ctx.unknown(nm, where(f), und)
    else: ctx.ok(nm, where(f), '%d shapes' % tot); ctx.notes.append('%d shapes' % tot)
    for i in range(tot): ctx.saw('dependency shapes', i)

def emission(ctx, P):
    A, B = sym('eA'), sym('eB')
    deps = ('list', ('obj', 'pair', (('first', sym('kA')), ('second', A))), ('obj', 'pair', (('first', sym('kB')), ('second', B))))
    T = lambda m, n, st, fr: ('app', 'txt', m.rv(n['o'], st, fr))
    sub = getattr(ctx, 'subtext', None)
    for f in P.byq.get('AmpGen::CompiledExpressionBase::addDependentExpressions', []):
        nm = 'shared nodes are defined under the name they are used by, in list order'
        ctx.saw('functions', f['q'])
        try: r = Machine(P, {'AmpGen::Expression::to_string': T}, limit=10).function(f, [S(''), ZERO], ('with', sym('this'), 'm_dependentSubexpressions', deps))
        except Undecided as e: ctx.unknown(nm, where(f), e); continue
        t = r['args'][0]
        if sub is None or t[0] != 'cat': ctx.unknown(nm, where(f), show(t)[:200]); continue
        use = [subst(sub, {sym('key'): sym(k)}) for k in ('kA', 'kB')]
        ctx.decide(nm, match_defs(t, list(zip(use, (('app', 'txt', A), ('app', 'txt', B))))), where(f), 'emits %s; nodes are used as %s' % (show(t)[:300], show(use[0])))
    for f in P.byq.get('AmpGen::CompiledExpressionBase::addDebug', []):
        nm = 'debug output defines its shared nodes and reports every symbol'
        ctx.saw('functions', f['q'])
        db = ('list', ('obj', 'pair', (('first', S('sA')), ('second', sym('dA')))), ('obj', 'pair', (('first', S('sB')), ('second', sym('dB')))))
        try: r = Machine(P, {'AmpGen::Expression::to_string': T, 'AmpGen::type_string': lambda m, n, st, fr: S('TYPE'), 'AmpGen::CompiledExpressionBase::fcnSignature': lambda m, n, st, fr: S('sig')}, limit=10).function(f, [S('')], ('with', ('with', sym('this'), 'm_db', db), 'm_debugSubexpressions', deps))
        except Undecided as e: ctx.unknown(nm, where(f), e); continue
        t = r['args'][0]
        for c in {x[1] for x in subterms(t) if x[0] == 'ite'}: t = subst(t, {c: FALSE if c[0] == '==' else TRUE})
        if sub is None or t[0] != 'cat': ctx.unknown(nm, where(f), show(t)[:200]); continue
        use = [subst(sub, {sym('key'): sym(k)}) for k in ('kA', 'kB')]
        ctx.decide(nm, match_defs(t, list(zip(use, (('app', 'txt', A), ('app', 'txt', B)))), tail=[('app', 'txt', sym('dA')), ('app', 'txt', sym('dB'))]), where(f), show(t)[:300])
        lit = [x for x in t[1:] if x[0] == 's']; net = {o: sum(x[1].count(o) - x[1].count(c) for x in lit) for o, c in ('{}', '()')}
        if all(x[0] in ('s', 'app', 'sym') or x in use or x[0] == 'fld' for x in t[1:]): ctx.decide('debug output closes every bracket it opens', not any(net.values()), where(f), 'left open: %s' % net)
        else: ctx.unknown('debug output closes every bracket it opens', where(f), show(t)[:200])
    for f in P.byq.get('AmpGen::CompiledExpressionBase::to_stream', []):
        ctx.saw('functions', f['q'])
        for rto in (False, True):
            for tensor in ((False, True) if rto else (False,)):
                for cuda in ((False, True) if not rto else (False,)):
                    nm = 'definitions precede the result (%s%s%s)' % ('array output' if rto else 'value output', ', tensor' if tensor else '', ', cuda' if cuda else '')
                    def dep(m, n, st, fr):
                        p = m.lv(n['a'][0], st, fr); m.wr(st, p, cat(m.rd(st, p), ('app', 'DEFS'))); return VOID
                    ov = {'AmpGen::CompiledExpressionBase::addDependentExpressions': dep, 'AmpGen::CompiledExpressionBase::use_rto': lambda m, n, st, fr: ('b', rto),
                          'AmpGen::Expression::to_string': T, 'AmpGen::CompiledExpressionBase::fcnSignature': lambda m, n, st, fr: S('SIG'), 'AmpGen::CompiledExpressionBase::returnTypename': lambda m, n, st, fr: S('RT'),
                          'AmpGen::CompiledExpressionBase::arg_type': lambda m, n, st, fr: S('double*'), 'AmpGen::is': lambda m, n, st, fr: ('b', tensor),
                          'AmpGen::cast': lambda m, n, st, fr: ('obj', 'AmpGen::TensorExpression', (('m_tensor', TEN),)), 'ctor:AmpGen::NamedParameter': lambda m, n, st, fr: ('b', cuda),
                          'AmpGen::NamedParameter::operator bool': lambda m, n, st, fr: ('b', cuda), 'AmpGen::NamedParameter::operator T': lambda m, n, st, fr: ('b', cuda), 'AmpGen::NamedParameter::getVal': lambda m, n, st, fr: ('b', cuda),
                          'AmpGen::CompiledExpressionBase::progName': lambda m, n, st, fr: S('PROG')}
                    this = sym('this')
                    for fld, v in (('m_db', ('list',)), ('m_disableBatch', TRUE), ('m_includeParameters', FALSE), ('m_includePythonBindings', FALSE), ('m_obj', sym('obj'))): this = ('with', this, fld, v)
                    try: t = Machine(P, ov, limit=10).function(f, [S('')], this)['args'][0]
                    except Undecided as e: ctx.unknown(nm, where(f), e); continue
                    if t[0] != 'cat': ctx.unknown(nm, where(f), show(t)[:200]); continue
                    ps = t[1:]
                    texts = [('app', 'txt', x) for x in ((sym('t0'), sym('t1'), sym('t2')) if tensor else (sym('obj'),))]
                    if ('app', 'DEFS') not in ps: ctx.decide(nm, False if all(x in ps for x in texts) and not any(x[0] == 'ite' for x in ps) else None, where(f), 'no definitions in ' + show(t)[:300]); continue
                    if not all(x in ps for x in texts): ctx.decide(nm, False if not any(x[0] not in ('s', 'app') or x[0] == 'app' and x[1] not in ('txt', 'DEFS', 'to_string', 'text') for x in ps) else None, where(f), 'result text missing in ' + show(t)[:300]); continue
                    pos = [ps.index(x) for x in texts]
                    ok = all(ps.index(('app', 'DEFS')) < q for q in pos)
                    det = show(t)[:300]
                    if ok and tensor:   # r[s[j]] gets element j
                        for j, q in enumerate(pos):
                            before = flat(ps[:q]).rsplit(';', 1)[-1].replace(' ', '')
                            if not re.search(r'r\[s\[%d\]\]=' % j, before): ok = False; det = 'element %d is stored by %r' % (j, before)
                    if ok and rto and not tensor:
                        before = flat(ps[:pos[0]]).rsplit('DEFS', 1)[-1].replace(' ', '')
                        if 'r[s[0]]=' not in before: ok = False; det = before
                    if ok and not rto and not cuda:
                        before = flat(ps[:pos[0]]).rsplit('DEFS', 1)[-1]
                        if 'return' not in before: ok = False; det = before
                    ctx.decide(nm, ok, where(f), det)

TEN = ('obj', 'AmpGen::Tensor', tuple(sorted((('m_dim', ('list', num(3))), ('m_elements', ('list', sym('t0'), sym('t1'), sym('t2'))), ('m_symmetrisedCoordinates', ('list', ZERO, ONE, num(2))), ('m_uniqueElements', ('list', ZERO, ONE, num(2)))))))

def flat(ps):
    out = ''
    for x in ps:
        if x[0] == 's': out += x[1]
        elif x[0] == 'app' and x[1] in ('to_string', 'text') and as_num(x[2]) is not None: out += str(as_num(x[2]))
        elif x[0] == 'n': out += str(x[1])
        elif x[0] == 'app' and x[1] == 'DEFS': out += 'DEFS'
        else: out += '<%s>' % show(x)
    return out

def match_defs(t, defs, tail=()):
    """every (use, value) is defined as '<type> use = value;' in order; None if the text is not understood"""
    s = flat(t[1:])
    pos = 0
    for u, v in defs:
        us = flat(u[1:] if u[0] == 'cat' else (u,)); vs = flat((v,))
        m = re.search(r'(?:^|[\s;{])' + re.escape(us) + r'\s*=\s*\(?\s*' + re.escape(vs) + r'\s*\)?\s*;', s[pos:])
        if not m: return False if vs in s else (None if '<app' in s else False)
        pos += m.end()
    for v in tail:
        vs = flat((v,)); i = s.find(vs, pos)
        if i < 0: return False
        pos = i + len(vs)
    return True

def leaves(ctx, P):
    """function-valued leaves: text without resolver"""
    cs = [f for f in P.byq.get('AmpGen::LambdaExpression::LambdaExpression', []) if f.get('fk') == 'ctor' and not f.get('dep') and f['p'] and 'LambdaExpression' not in f['p'][0]['t']]
    nm = 'two function-valued leaves of one type have different text'
    ts = P.byq.get('AmpGen::LambdaExpression::to_string', [])
    if not cs or not ts: ctx.unknown(nm, '', 'no instantiation found'); return
    for f in cs[:1]:
        ctx.saw('functions', f['q'])
        try:
            m = Machine(P, {'AmpGen::type_string': lambda m, n, st, fr: S('lambdatype')}, limit=10)
            r = m.function(f, [sym('fn')])
            o = r['this']
            t = Machine(P, {'AmpGen::programatic_name': lambda m, n, st, fr: m.rv(n['a'][0], st, fr)}, limit=10).function(ts[0], [NULL], o)['ret']
        except Undecided as e: ctx.unknown(nm, where(f), e); continue
        if t[0] == 's': ctx.bad(nm, where(f), 'the text is the constant %r for every function of a type' % t[1])
        elif any(x == sym('fn') or x[0] in ('glob', 'new', 'v') for x in subterms(t)) or any(k[0] == 'g' for k in r['st'].s) or opaque(t): ctx.ok(nm, where(f), show(t)) if not opaque(t) or any(x[0] == 'glob' for x in subterms(t)) else ctx.unknown(nm, where(f), show(t))
        else: ctx.unknown(nm, where(f), show(t))
