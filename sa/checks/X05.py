"""Slot discipline of the argument block of compiled functions: the allocator hands out [n, n+size) and advances the counter by size
(so blocks are disjoint), hands back the same block for a name it knows, and builds the transfer object with the block's first
address; every transfer class writes exactly the slots address .. address+size-1 once each, with the value of its source; the text a
parameter resolves to names the slot the allocator returned (argument 0) or the event index (argument 1); the buffer is resized to
the slot count before the transfers run, every allocated transfer is run, and a write to a slot is visible in the buffer."""
from ..value import *
from ..expr import *
from .. import extract, den, value as V
from ..run import where

ASSUMPTIONS = ['spline blocks analysed for generic knot lists of length 4 to 6', 'std::map lookups by name are exact']
SRC = ['src/ASTResolver.cpp', 'src/CacheTransfer.cpp', 'src/Spline.cpp', 'src/CompiledExpressionBase.cpp', 'src/Expression.cpp']
TU = [extract.VERIF + '/tools/tus/compiled.cpp']
BASE = 'AmpGen::CacheTransfer'
LOG = ('g', '$log')

def method(P, q, name):
    todo = [q]
    while todo:
        c = todo.pop(0)
        fs = [f for f in P.byq.get(c + '::' + name, []) if f.get('body') and not f.get('dep')]
        if fs: return fs[0]
        r = P.records.get(c)
        if r: todo += r['bases']
    return None

def virtual(P, names):
    def h(m, n, st, fr):
        nm = strip_targs(n.get('f', '')).split('::')[-1]
        if nm not in names: return None
        p = m.objpath(n, st, fr); v = m.rd(st, p)
        if v[0] != 'obj': return None
        f = method(P, v[1], nm)
        return m.inline(f, p, n['a'], st, fr) if f else None
    return h

def size_of_obj(P, v):
    f = method(P, v[1], 'size')
    if f is None: return None
    return Machine(P, {}, limit=10).function(f, [], v)['ret']

def isreal(t): return not any(x[0] in ('app', 'uninit', 'loop') for x in subterms(t))

def check(ctx):
    P = extract.load(SRC, extra_tus=TU)
    allocator(ctx, P)
    transfers(ctx, P)
    texts(ctx, P)
    buffer(ctx, P)
    sessions(ctx, P)

def allocator(ctx, P):
    fs = P.find('AmpGen::ASTResolver::addCacheFunction')
    for f in fs:
        kind = ', '.join(p['t'] for p in f['p'][1:])
        ctx.saw('allocator instantiations', kind)
        nm = 'allocator<%s>' % kind
        try:
            m = Machine(P, {}, limit=20, hooks={'virtual': virtual(P, {'size', 'address'})})
            r = m.function(f)
        except Undecided as e: ctx.unknown(nm, where(f), e); continue
        cont = ('app', 'contains', ('fld', sym('this'), 'm_cacheFunctions'), sym('name'))
        n0 = ('fld', sym('this'), 'm_nParameters')
        n1 = proj(r['this'], ('f', 'm_nParameters')); ret = r['ret']
        if cont not in set(subterms(ret)): ctx.unknown(nm, where(f), 'lookup not recognised in ' + show(ret)[:200]); continue
        def known(t): return deit(subst(t, {cont: TRUE}))
        def new(t): return deit(subst(t, {cont: FALSE}))
        a = known(ret)
        ok = a[0] == 'fld' and a[2] == 'm_address' and sym('name') in set(subterms(a))
        ctx.decide('%s reuses the block of a known name' % nm, True if ok else (False if isreal(a) else None), where(f), 'returns ' + show(a)[:200])
        ctx.decide('%s leaves the counter alone for a known name' % nm, same(known(n1), n0), where(f), 'counter becomes ' + show(known(n1))[:200])
        ctx.decide('%s returns the first free slot' % nm, same(new(ret), n0), where(f), 'returns ' + show(new(ret))[:300])
        news = [(k, v) for k, v in r['st'].s.items() if k[0] == 'mem' and isinstance(k[1], tuple) and k[1][0] == 'new']
        if len(news) != 1: ctx.unknown('%s object' % nm, where(f), 'no single allocation'); continue
        obj = news[0][1]
        if obj[0] == 'ite': obj = obj[2] if obj[2][0] == 'obj' else obj[3]
        if obj[0] != 'obj': ctx.unknown('%s object' % nm, where(f), show(obj)[:200]); continue
        sz = size_of_obj(P, obj)
        ctx.decide('%s advances the counter by the block size' % nm, same(new(n1), add(n0, sz)), where(f), 'counter becomes %s, block size %s' % (show(new(n1))[:200], show(sz)))
        ctx.decide('%s builds %s at the first free slot' % (nm, obj[1]), same(proj(obj, ('f', 'm_address')), n0), where(f), 'address %s' % show(proj(obj, ('f', 'm_address'))))
        upd = new(proj(r['this'], ('f', 'm_cacheFunctions')))
        ok = upd[0] == 'upd' and upd[2] == sym('name')
        ctx.decide('%s records the transfer under its name' % nm, True if ok else (False if upd == ('fld', sym('this'), 'm_cacheFunctions') else None), where(f), show(upd)[:200])
    if not fs: ctx.unknown('allocator', '', 'addCacheFunction not found')

def deit(t):
    m = {}
    for x in subterms(t):
        if x[0] == '==' and len(x) == 3 and {x[1][0], x[2][0]} == {'it', 'mit'}: m[x] = FALSE
    return subst(t, m) if m else t

def transfers(ctx, P):
    classes = [BASE] + P.subclasses(BASE)
    for q in classes:
        if q not in P.records: continue
        f = method(P, q, 'transfer')
        if f is None: ctx.unknown('%s transfer' % q, '', 'no definition'); continue
        ctx.saw('transfer classes', q)
        fields = [x['n'] for x in allfields(P, q)]
        for K in ((4, 5, 6) if 'm_parameters' in fields else (1,)):
            name = '%s writes its block%s' % (q, ' (%d knots)' % K if K > 1 else '')
            fs = []
            for x in fields:
                v = sym('f_' + x)
                if x == 'm_parameters': v = ('list',) + tuple(('addr', (('mem', sym('p%d' % i)),)) for i in range(K))
                if x == 'm_nKnots': v = num(K)
                if x == 'm_size': v = ONE if q == BASE else sym('f_m_size')
                if x == 'm_source': v = ('addr', (('mem', sym('src')),))
                fs.append((x, v))
            this = ('obj', q, tuple(sorted(fs)))
            def setx(m, n, st, fr):
                v, a = m.rv(n['a'][0], st, fr), m.rv(n['a'][1], st, fr)
                cur = st.s.get(LOG, ('list',))
                st.s[LOG] = cur + (('obj', 'w', (('a', a), ('v', v))),)
                return VOID
            try:
                m = Machine(P, {'AmpGen::CompiledExpressionBase::setExternal': setx, 'gsl_matrix_get': lambda m, n, st, fr: ('app', 'Minv') + tuple(m.rv(x, st, fr) for x in n['a'][1:])}, limit=30)
                st = m.function(f, [('addr', (('mem', sym('dest')),))], this)['st']
                sz = size_of_obj(P, this)
            except Undecided as e: ctx.unknown(name, where(f), e); continue
            log = st.s.get(LOG, ('list',))
            if log[0] != 'list' or sz is None or as_num(sz) is None: ctx.unknown(name, where(f), 'log %s size %s' % (show(log)[:200], show(sz))); continue
            base = sym('f_m_address')
            offs = [Normal().const(V.sub(proj(w, ('f', 'a')), base)) for w in log[1:]]
            if None in offs: ctx.unknown(name, where(f), 'addresses ' + show(log)[:300]); continue
            want = list(range(int(as_num(sz))))
            ctx.decide(name, sorted(offs) == want, where(f), 'size() is %s but offsets written are %s' % (show(sz), [str(o) for o in offs]))
            # values
            vals = {int(o): proj(w, ('f', 'v')) for o, w in zip(offs, log[1:])}
            name = '%s writes the value of its source%s' % (q, ' (%d knots)' % K if K > 1 else '')
            mean = lambda i: ('app', 'AmpGen::MinuitParameter::mean', ('deref', sym(i)))
            if q == BASE: exp = {0: sym('f_m_value')}
            elif 'm_parameters' in fields: exp = {i: 'p%d' % i for i in range(K)}
            elif 'm_source' in fields: exp = {0: 'src'}
            elif 'm_function' in fields: exp = {0: ('app', 'indirect', sym('f_m_function'))}
            else: exp = {}
            res = True if exp else None; det = ''
            for i, e in exp.items():
                if i not in vals: res = False; det = 'slot %d not written' % i; break
                v = vals[i]
                if isinstance(e, str): ok = v[0] == 'app' and v[1].endswith('::mean') and ('deref', sym(e)) in set(subterms(v)) | {v}
                else: ok = same(v, e)
                if ok is not True: res = False if ok is False else None; det = 'slot +%d receives %s' % (i, show(v)); break
            ctx.decide(name, res, where(f), det)
    # constructors keep the address they are given
    for q in classes:
        for f in P.byq.get(q + '::' + q.split('::')[-1], []):
            if f.get('fk') != 'ctor' or f.get('dep') or not f['p'] or 'unsigned long' not in f['p'][0]['t']: continue
            name = '%s keeps the address it is given' % q
            try: o = Machine(P, {}, limit=20).function(f)['this']
            except Undecided as e: ctx.unknown(name, where(f), e); continue
            a = proj(o, ('f', 'm_address'))
            ctx.decide(name, same(a, sym(f['p'][0]['n'])), where(f), show(a))
    for f in P.byq.get(BASE + '::address', []):
        r = Machine(P, {}, limit=5).function(f)['ret']
        ctx.decide('address() is the block address', same(r, ('fld', sym('this'), 'm_address')), where(f), show(r))

def allfields(P, q):
    out, todo = [], [q]
    while todo:
        r = P.records.get(todo.pop(0))
        if r: out += r['fields']; todo += r['bases']
    return out

def texts(ctx, P):
    for f in P.byq.get('AmpGen::ASTResolver::addResolvedParameter', []):
        if len(f['p']) != 3: continue
        name = 'the text of a slot names argument and index'
        try: r = Machine(P, {}, limit=10).function(f)
        except Undecided as e: ctx.unknown(name, where(f), e); continue
        t = proj(r['this'], ('f', 'm_resolvedParameters'))
        if t[0] != 'upd': ctx.unknown(name, where(f), show(t)); continue
        want = cat(S('x'), app('to_string', sym(f['p'][2]['n'])), S('['), app('to_string', sym(f['p'][1]['n'])), S(']'))
        v = t[3]
        if v[0] == 'cat': v = cat(*[S(x[1].replace(' ', '')) if x[0] == 's' else x for x in v[1:]])
        ok = v == want and t[2] == sym(f['p'][0]['n'])
        und = any(x[0] == 'app' and x[1] != 'to_string' for x in subterms(v))
        ctx.decide(name, True if ok else None if und else False, where(f), 'registers %s for %s' % (show(t[3]), show(t[2])))
    for f in P.find('AmpGen::ASTResolver::resolvedParameter'):
        name = 'lookup returns the registered text'
        try: r = Machine(P, {}, limit=10).function(f)['ret']
        except Undecided as e: ctx.unknown(name, where(f), e); continue
        mp = ('fld', sym('this'), 'm_resolvedParameters')
        c = ('app', 'contains', mp, sym(f['p'][0]['n']))
        v = deit(subst(r, {c: TRUE}))
        ok = v[0] == 'fld' and v[2] == 'second' and v[1][0] == 'deref' and v[1][1][0] == 'mit' and v[1][1][2] == sym(f['p'][0]['n']) or v == ('idx', mp, sym(f['p'][0]['n']))
        ctx.decide(name, True if ok else (False if v[0] in ('s', 'cat') else None), where(f), show(v))
    # resolver handlers: slot returned by the allocator is the slot registered
    for f in P.find('AmpGen::ASTResolver::resolve'):
        if not f['p'] or not f['body'].get('b'): continue
        pt = f['p'][0]['t'].replace('const ', '').replace('&', '').strip().split('::')[-1]
        if pt == 'SubTree': continue
        seen = []
        def alloc(m, n, st, fr):
            nm = m.rv(n['a'][0], st, fr)
            args = [m.rv(x, st, fr) for x in n['a'][1:]]
            return ('app', 'slot', S(str((n.get('ta') or ['?'])[0])), nm) + tuple(args)
        def reg(m, n, st, fr):
            vals = [m.rv(x, st, fr) for x in n['a']]
            kind = 'text' if len(n.get('pt') or []) == 2 else 'slot'
            seen.append((kind, vals, n.get('l')))
            return VOID
        name = 'handler for %s registers the slot it was allocated' % pt
        try: Machine(P, {'AmpGen::ASTResolver::addCacheFunction': alloc, 'AmpGen::ASTResolver::addResolvedParameter': reg}, limit=20).function(f)
        except Undecided as e: ctx.unknown(name, where(f), e); continue
        ctx.saw('resolver handlers', pt)
        res = True if seen else None; det = ''
        for kind, vals, l in seen:
            if kind == 'text': continue
            arg = vals[2] if len(vals) > 2 else ZERO
            a = vals[1]
            isslot = a[0] == 'app' and a[1] == 'slot'
            ev = any(x[0] == 'fld' and x[2] == 'm_evtMap' or x[0] == 'f' and x[1] == 'm_evtMap' for x in subterms(a))
            if isslot and arg == ZERO or ev and arg == ONE and not isslot: 
                if ev and a[0] not in ('fld', 'idx', 'deref', 'ite'): res = False; det = 'line %s: the event index is altered: %s' % (l, show(a)[:200])
                continue
            if isslot or ev or a[0] in ('+', '*', 'n'): res = False; det = 'line %s: registers %s in argument %s' % (l, show(a)[:200], show(arg))
            else: res = None; det = show(a)[:200]
        ctx.decide(name, res, where(f), det)
        # which source feeds the slot
        for kind, vals, l in seen:
            if kind == 'slot' and vals[1][0] == 'app' and vals[1][1] == 'slot' and pt == 'Parameter' and vals[1][2][1].endswith('CacheTransfer'):
                d = vals[1][4] if len(vals[1]) > 4 else None
                if d is not None: ctx.decide('an unbound parameter takes its default value', same(d, ('fld', sym(f['p'][0]['n']), 'm_defaultValue')), where(f), show(d))

def buffer(ctx, P):
    for f in P.find('AmpGen::CompiledExpression::setExternal'):
        name = '%s makes the value visible' % f['q']
        try: r = Machine(P, {}, limit=10).function(f, [sym('value'), sym('address')])
        except Undecided as e: ctx.unknown(name, where(f), e); continue
        e = proj(r['this'], ('f', 'm_externals'))
        old = proj(('fld', sym('this'), 'm_externals'), ('i', sym('address')))
        bad = None
        def go(t, eq):
            nonlocal bad
            if t[0] == 'ite':
                c = t[1]
                pos = c
                sign = True
                if c[0] == 'not': pos, sign = c[1], False
                iseq = pos[0] == '==' and {pos[1], pos[2]} == {old, sym('value')}
                go(t[2], eq or (iseq and sign)); go(t[3], eq or (iseq and not sign)); return
            v = proj(t, ('i', sym('address')))
            if v == sym('value') or (eq and v == old): return
            bad = 'slot holds %s afterwards' % show(v)[:200]
        go(e, False)
        ctx.saw('buffer methods', f['q'])
        ctx.decide(name, bad is None, where(f), bad)
    for f in P.find('AmpGen::CompiledExpression::resizeExternalCache'):
        name = '%s makes room for every slot' % f['q']
        try: r = Machine(P, {}, limit=10).function(f, [sym('N')])
        except Undecided as e: ctx.unknown(name, where(f), e); continue
        from ..lib import size_of
        e = proj(r['this'], ('f', 'm_externals'))
        s0 = size_of(('fld', sym('this'), 'm_externals'))
        res = True; det = ''
        def go(t, facts):
            nonlocal res, det
            if t[0] == 'ite':
                go(t[2], facts + [(t[1], True)]); go(t[3], facts + [(t[1], False)]); return
            s = size_of(t)
            if t[0] == 'app' and t[1] == 'resize': s = t[3]
            if s == sym('N'): return
            if s == s0 and any((c == ('<', s0, sym('N')) and not p) or (c == ('<', sym('N'), s0) and p) or (c[0] == 'not' and c[1] == ('<', s0, sym('N')) and p) for c, p in facts): return
            d = Normal().const(V.sub(s, sym('N')))
            if d is not None and d >= 0: return
            if isreal(V.sub(s, sym('N'))) or s == s0 or d is not None: res = False; det = 'size afterwards is %s for N slots' % show(s)
            else: res = None; det = show(s)
        go(e, [])
        ctx.decide(name, res, where(f), det)
    # resolve(): buffer resized to the slot count, all transfers collected, then run
    for f in P.find('AmpGen::CompiledExpressionBase::resolve'):
        order = []
        def ev(k):
            def h(m, n, st, fr):
                order.append((k, [m.rv(x, st, fr) for x in n['a']])); return VOID
            return h
        name = 'resolve sizes the buffer, then writes every slot'
        A, B = ('addr', (('mem', sym('tA')),)), ('addr', (('mem', sym('tB')),))
        def cfs(m, n, st, fr): return ('list', ('obj', 'pair', (('first', S('a')), ('second', A))), ('obj', 'pair', (('first', S('b')), ('second', B))))
        this = None
        try:
            m = Machine(P, {'AmpGen::CompiledExpressionBase::resizeExternalCache': ev('resize'), 'AmpGen::CompiledExpressionBase::prepare': ev('prepare'), 'AmpGen::ASTResolver::cacheFunctions': cfs,
                            'AmpGen::ASTResolver::getOrderedSubExpressions': lambda m, n, st, fr: ('list',), 'AmpGen::CompiledExpressionBase::fcnSignature': lambda m, n, st, fr: S('sig'),
                            'AmpGen::ASTResolver::nParams': lambda m, n, st, fr: sym('nParams'), 'AmpGen::ASTResolver::setEnableAVX': lambda m, n, st, fr: VOID}, limit=20)
            r = m.function(f, None, ('with', ('with', ('with', sym('this'), 'm_cacheTransfers', ('list',)), 'm_db', ('list',)), 'm_resolver', ('addr', (('mem', sym('res')),))))
        except Undecided as e: ctx.unknown(name, where(f), e); continue
        ks = [k for k, _ in order]
        ct = proj(r['this'], ('f', 'm_cacheTransfers'))
        ok = ks == ['resize', 'prepare'] and order[0][1] == [sym('nParams')]
        ctx.decide(name, True if ok else False, where(f), 'effects: %s' % [(k, [show(x) for x in a]) for k, a in order])
        name = 'resolve collects every allocated transfer'
        if ct[0] == 'list': ctx.decide(name, set(ct[1:]) == {A, B}, where(f), show(ct))
        else: ctx.unknown(name, where(f), show(ct)[:200])
    for f in P.find('AmpGen::CompiledExpressionBase::prepare'):
        ran = []
        A, B, C = (('addr', (('mem', sym('t%d' % i)),)) for i in range(3))
        def tr(m, n, st, fr): ran.append(m.objpath(n, st, fr)); return VOID
        name = 'prepare runs every transfer'
        try: Machine(P, {'AmpGen::CacheTransfer::transfer': tr}, limit=20).function(f, [], ('with', sym('this'), 'm_cacheTransfers', ('list', A, B, C)))
        except Undecided as e: ctx.unknown(name, where(f), e); continue
        ctx.decide(name, {x[0][1] for x in ran if x} == {sym('t0'), sym('t1'), sym('t2')}, where(f), '%d of 3 transfers run' % len(ran))
    for f in P.find('AmpGen::CompiledExpression::operator()'):
        if len(f['p']) != 1: continue
        name = '%s passes the buffer first' % f['q']

def M(x): return ('mem', ('new', 'AmpGen::Node', x))
RES = M('resolver')
def cmap(d): return ('gmap', tuple(sorted(d.items(), key=lambda x: V.gorder(x[0])))) if d else ('emptymap',)
class Session:
    """a resolver with a given event layout and parameter set; resolve objects one after the other, then run the transfers"""
    def __init__(self, P, evt=None, params=None, cuda=FALSE, ctc=FALSE, mps=True):
        self.P, self.params = P, params or {}
        A = 'AmpGen::'
        def pfind(m, n, st, fr):
            nm = m.rv(n['a'][0], st, fr)
            if nm[0] != 's': raise Undecided('lookup of %s' % show(nm)[:60])
            return ('addr', (M('mp:' + nm[1]),)) if nm[1] in self.params else V.NULL
        def who(m, n, st, fr):
            p = m.objpath(n, st, fr)
            if p[0][0] != 'mem' or p[0][1][0] != 'new' or not str(p[0][1][2]).startswith('mp:'): raise Undecided('parameter %s' % (p[:1],))
            return p[0][1][2][3:]
        def val(m, n, st, fr): return self.params[who(m, n, st, fr)][0]
        def flg(m, n, st, fr):
            fl = self.params[who(m, n, st, fr)][1]
            return ('enum', 'AmpGen::Flag', fl, ['Free', 'Hide', 'Fix', 'CompileTimeConstant', 'Blind', 'Invalid'].index(fl))
        def fmt(m, n, st, fr):
            f, v = m.rv(n['a'][0], st, fr), m.rv(n['a'][1], st, fr)
            if len(n['a']) == 2 and f[0] == 's' and '%' in f[1] and v[0] == 'sym': return S('(format-of-%s)' % v[1])
            if len(n['a']) != 2 or f[0] != 's' or v[0] != 'n': raise Undecided('formatted text')
            try: return S(f[1] % float(v[1]))
            except Exception: raise Undecided('format %s' % f[1])
        self.ov = {A + 'MinuitParameterSet::find': pfind, A + 'MinuitParameter::mean': val, A + 'MinuitParameter::operator double': val, A + 'MinuitParameter::name': lambda m, n, st, fr: S(who(m, n, st, fr)), A + 'MinuitParameter::flag': flg, A + 'mysprintf': fmt, A + 'MinuitParameterLink::name': lambda m, n, st, fr: proj(m.rd(st, m.objpath(n, st, fr)), ('f', 'm_name')),
                   A + 'Array::top': lambda m, n, st, fr: ('addr', (M('array'),)), A + 'Expression::get': lambda m, n, st, fr: m.rd(st, m.objpath(n, st, fr)),
                   'gsl_matrix_get': lambda m, n, st, fr: ('app', 'Minv') + tuple(m.rv(x, st, fr) for x in n['a'][1:])}
        for g in ('gsl_matrix_alloc', 'gsl_permutation_alloc'): self.ov[g] = lambda m, n, st, fr: ('addr', (M('gsl'),))
        for g in ('gsl_matrix_set', 'gsl_matrix_set_all', 'gsl_linalg_LU_decomp', 'gsl_linalg_LU_invert', 'gsl_permutation_free', 'gsl_matrix_free'): self.ov[g] = lambda m, n, st, fr: VOID
        self.log = []
        def setx(m, n, st, fr):
            self.log.append((m.rv(n['a'][1], st, fr), m.rv(n['a'][0], st, fr))); return VOID
        self.ov[A + 'CompiledExpressionBase::setExternal'] = setx
        self.m = Machine(P, self.ov, limit=60, max_unroll=60, hooks={'virtual': virtual(P, {'size', 'address', 'transfer', 'name'})})
        e = ('emptymap',)
        self.mem = {RES: ('obj', A + 'ASTResolver', tuple(sorted({'m_unresolvedParameters': ('list',), 'm_resolvedParameters': e, 'm_cacheFunctions': e, 'm_evtMap': cmap({S(k): num(v) for k, v in (evt or {}).items()}), 'm_parameterMapping': e,
                    'm_mps': ('addr', (M('mps'),)) if mps else V.NULL, 'm_tempTrees': e, 'm_nParameters': ZERO, 'm_enable_cuda': cuda, 'm_enable_compileTimeConstants': ctc, 'm_enable_avx': FALSE, 'm_check_hashes': FALSE}.items())))}
        for k in self.params: self.mem[M('mp:' + k)] = ('obj', A + 'MinuitParameter', (('m_name', S(k)),))
        self.k = 0
    def call(self, f, args, this=RES):
        self.m.budget = 800000
        r = self.m.function(f, args, ('at', (this,)), mem=dict(self.mem)); self.mem = dict(r['st'].s); return r
    def obj(self, cls, **kw):
        root = M('e%d' % self.k); self.k += 1
        self.mem[root] = ('obj', 'AmpGen::' + cls, tuple(sorted(kw.items()))); return root
    def par(self, name, default=ZERO, resolved=FALSE): return self.obj('Parameter', m_name=S(name), m_defaultValue=default, m_resolved=resolved)
    def handler(self, cls):
        for f in self.P.find('AmpGen::ASTResolver::resolve'):
            if f['p'] and f.get('body') is not None and f['p'][0]['t'].replace('const ', '').replace('&', '').strip().split('::')[-1] == cls: return f
        raise Undecided('no handler for ' + cls)
    def resolve(self, root):
        cls = self.mem[root][1].split('::')[-1]
        self.call(self.handler(cls), [('at', (root,))]); return root
    def text(self, root):
        r = self.call(self.P.find('AmpGen::ASTResolver::resolvedParameter')[0], [('addr', (root,))])['ret']
        if r[0] == 'cat' and all(x[0] == 's' or x[0] == 'app' and x[1] == 'to_string' and as_num(x[2]) is not None for x in r[1:]): r = S(''.join(x[1] if x[0] == 's' else str(as_num(x[2])) for x in r[1:]))
        if r[0] != 's': raise Undecided('text %s' % show(r)[:80])
        return r[1].replace(' ', '')
    def field(self, k):
        return proj(self.mem[RES], ('f', k))
    def run(self):
        """contents of the argument block after all transfers"""
        g = V.gitems(self.field('m_cacheFunctions'))
        if g is None: raise Undecided('transfers %s' % show(self.field('m_cacheFunctions'))[:80])
        self.log.clear()
        for k, v in g:
            if v[0] != 'addr' or len(v[1]) != 1 or self.mem.get(v[1][0], ('?',))[0] != 'obj': raise Undecided('transfer %s' % show(v)[:80])
            f = method(self.P, self.mem[v[1][0]][1], 'transfer')
            if f is None: raise Undecided('transfer of ' + self.mem[v[1][0]][1])
            self.call(f, [('addr', (M('dest'),))], v[1][0])
        out = {}
        for a, v in self.log:
            a = as_num(a)
            if a is None: raise Undecided('slot address')
            if int(a) in out: return None, int(a)
            out[int(a)] = v
        return out, None

import re as _re
def slot_of(t):
    mm = _re.fullmatch(r'x(\d+)\[(\d+)\]', t)
    return (int(mm.group(1)), int(mm.group(2))) if mm else None

def sessions(ctx, P):
    F = Fr
    fn0 = P.find('AmpGen::ASTResolver::resolve')
    w0 = where(fn0[0]) if fn0 else 'src/ASTResolver.cpp'
    def deed(name, g):
        try:
            r = g(); ok, why = r if isinstance(r, tuple) else (r, '')
            ctx.decide(name, ok, w0, why)
        except Undecided as e: ctx.unknown(name, w0, e)
    SYMS = {k: (sym('val:' + k), 'Free') for k in ('a', 'b', 'c', 'S::0', 'S::1', 'S::2', 'S::3', 'T::0', 'T::1', 'T::2', 'T::3', 'T::4')}
    def expect(s, wants, total=None):
        """wants: list of (root, kind, value): kind 'arg' -> the slot holds value after the transfers; 'event' -> index; 'const' -> number"""
        buf, dup = s.run()
        if buf is None: return False, 'slot %d is written by two transfers' % dup
        n = as_num(s.field('m_nParameters'))
        if n is None: raise Undecided('slot count')
        if buf and max(buf) >= n: return False, 'slot %d is written but only %d are allocated' % (max(buf), int(n))
        if sorted(buf) != list(range(int(n))): return False, '%d slots are allocated and slots %s are written' % (int(n), sorted(buf))
        for root, kind, val in wants:
            t = s.text(root); who = show(proj(s.mem[root], ('f', 'm_name')))
            if kind == 'const':
                try: x = float(t.strip('()'))
                except Exception: return (False if slot_of(t) or t == '' else None), '%s becomes "%s"' % (who, t)
                if x != float(val): return False, 'the constant %s becomes %s' % (float(val), t)
                continue
            if kind == 'cuda':
                if cudaslot(t) != val: return (False if t == '' or cudaslot(t) is not None or _re.fullmatch(r'x\d\[[^\[\]]*\](\.\w)?', t) else None), 'entry %s of the event becomes "%s"' % (val, t)
                continue
            sl = slot_of(t)
            if sl is None: return (False if t == '' or t.startswith('(format-of') or _re.fullmatch(r'\(?[-+.\deE]+\)?', t) else None), '%s becomes "%s"' % (who, t)
            if kind == 'event':
                if sl != (1, val): return False, 'the event variable %s (entry %d) becomes %s' % (who, val, t)
                continue
            if sl[0] != 0: return False, '%s becomes %s' % (who, t)
            for i, v in enumerate(val if isinstance(val, list) else [val]):
                got = buf.get(sl[1] + i)
                if got is None: return False, 'slot %d of %s is not written' % (sl[1] + i, who)
                if got != v: return (False if got[0] in ('sym', 'n') or (got[0] == 'app' and got[1] == 'indirect') else None), '%s reads slot %d, which receives %s' % (who, sl[1] + i, show(got)[:80])
        return True, ''
    def cudaslot(t):
        mm = _re.fullmatch(r'x1\[i(?:\+(?:(\d+)\*)?N)?\]\.([xyz])', t)
        if not mm: return None
        k = 0 if '+' not in t else int(mm.group(1) or 1)
        return 3 * k + 'xyz'.index(mm.group(2))
    v = lambda k: sym('val:' + k)
    def mixed(order):
        s = Session(P, {'px': 3, 'E': 7, 'c': 2}, SYMS); ws = []
        for x in order:
            if x == 'par a': r = s.par('a'); ws.append((r, 'arg', v('a')))
            elif x == 'par b': r = s.par('b', num(5)); ws.append((r, 'arg', v('b')))
            elif x == 'evt': r = s.par('px'); ws.append((r, 'event', 3))
            elif x == 'evt2': r = s.par('E'); ws.append((r, 'event', 7))
            elif x == 'evt before parameter': r = s.par('c'); ws.append((r, 'event', 2))
            elif x == 'free': r = s.par('z', ('n', F(5, 2))); ws.append((r, 'arg', ('n', F(5, 2))))
            elif x == 'link': r = s.obj('MinuitParameterLink', m_parameter=('addr', (M('mp:b'),)), m_name=S('b')); ws.append((r, 'arg', v('b')))
            elif x in ('lambda', 'lambda2'): r = s.obj('LambdaExpression', m_function=sym('fun' + x), m_name=S(x)); ws.append((r, 'arg', ('app', 'indirect', sym('fun' + x))))
            elif x in ('spline', 'spline2'):
                nm, K = ('S', 4) if x == 'spline' else ('T', 5)
                r = s.obj('Spline', m_points=sym('pts'), m_name=S(nm), m_nKnots=num(K), m_min=ZERO, m_max=num(3), m_x=sym('x'), m_eval=sym('ev')); ws.append((r, 'arg', [v('%s::%d' % (nm, i)) for i in range(K)]))
            else: raise Undecided(x)
            s.resolve(r); s.resolve(r)
        return expect(s, ws)
    for order in (['par a', 'par b', 'free'], ['free', 'par a', 'par a', 'evt'], ['spline', 'par a'], ['par a', 'spline', 'par b', 'spline2', 'free'], ['lambda', 'par a', 'lambda2'], ['evt', 'evt2', 'evt before parameter', 'par a'], ['link', 'par b', 'par a'], ['spline2', 'spline', 'link', 'evt', 'lambda', 'free', 'par a', 'par b']):
        deed('resolving %s: every text names a slot with the value of its source' % ', '.join(order), lambda: mixed(order))
    def once():
        s = Session(P, {}, SYMS); x = s.par('a'); s.resolve(x); t = s.text(x); n = s.field('m_nParameters'); y = s.par('b'); s.resolve(y); s.resolve(x)
        return s.text(x) == t, 'the text changes from %s to %s' % (t, s.text(x))
    deed('a parameter that was resolved keeps its slot', once)
    def res():
        s = Session(P, {'q': 4}, SYMS); x = s.par('q', resolved=TRUE); s.resolve(x)
        g = V.gitems(s.field('m_resolvedParameters'))
        if g is None: raise Undecided('resolved parameters')
        return not g and s.field('m_nParameters') == ZERO, 'a parameter that is resolved already takes a slot'
    deed('a parameter that needs no resolution takes no slot', res)
    def arr():
        s = Session(P, {}, SYMS); a = s.par('a'); s.resolve(a)
        r = s.obj('Spline', m_points=sym('pts'), m_name=S('S'), m_nKnots=num(4), m_min=ZERO, m_max=num(3), m_x=sym('x'), m_eval=sym('ev')); s.resolve(r)
        g = V.gitems(s.field('m_resolvedParameters'))
        if g is None: raise Undecided('resolved parameters')
        if not any(k == ('addr', (M('array'),)) for k, _ in g): return False, 'the array of the knots is not resolved'
        s.mem[M('array')] = ('obj', 'AmpGen::Parameter', (('m_name', S('knots')),))
        return s.text(M('array')) == s.text(r), 'the array of the knots is at %s and the spline at %s' % (s.text(M('array')), s.text(r))
    deed('the knots of a spline are read from its block', arr)
    K = {'k': (('n', F('0.1')), 'CompileTimeConstant'), 'm': (('n', F(2, 3)), 'CompileTimeConstant'), 'f': (sym('val:f'), 'Free'), 'x': (sym('val:x'), 'Fix')}
    def consts(on):
        s = Session(P, {}, K, ctc=TRUE if on else FALSE); ws = []
        for nm, (val, fl) in K.items():
            r = s.par(nm); ws.append((r, 'const', float(val[1])) if on and fl == 'CompileTimeConstant' else (r, 'arg', val)); s.resolve(r)
        return expect(s, ws)
    deed('compile-time constants appear with their value when enabled, other parameters by slot', lambda: consts(True))
    deed('compile-time constants take a slot when not enabled', lambda: consts(False))
    def noset(on):
        s = Session(P, {'px': 1}, {}, ctc=TRUE if on else FALSE, mps=False); d = ('n', F('0.3')); r = s.par('w', d); s.resolve(r); e = s.par('px'); s.resolve(e)
        return expect(s, [(r, 'const', 0.3) if on else (r, 'arg', d), (e, 'event', 1)])
    deed('without a parameter set defaults are used as constants when enabled', lambda: noset(True))
    deed('without a parameter set defaults are passed in slots', lambda: noset(False))
    def cuda():
        s = Session(P, {'v%d' % i: i for i in range(10)}, SYMS, cuda=TRUE); ws = []
        for i in range(10): r = s.par('v%d' % i); s.resolve(r); ws.append((r, 'cuda', i))
        r = s.par('a'); s.resolve(r); ws.append((r, 'arg', v('a')))
        return expect(s, ws)
    deed('event entries in the strided layout', cuda)
    def unres():
        s = Session(P, {'px': 1}, SYMS); [s.resolve(s.par(x)) for x in ('a', 'px', 'z', 'b')]
        u = s.field('m_unresolvedParameters')
        if u[0] != 'list': raise Undecided('unresolved %s' % show(u)[:60])
        return [proj(x, ('f', 'm_name')) for x in u[1:]] == [S('z')], 'unresolved parameters are %s' % [show(proj(x, ('f', 'm_name'))) for x in u[1:]]
    deed('only parameters without a source are reported as unresolved', unres)
    def clear():
        f = [x for x in P.find('AmpGen::ASTResolver::clear') if x.get('body')]
        if not f: raise Undecided('clear not found')
        s = Session(P, {'px': 1}, SYMS); a, z = s.par('a'), s.par('z', num(2)); s.resolve(a); s.resolve(z); s.call(f[0], [])
        b = s.par('b'); s.resolve(b); s.resolve(a)
        return expect(s, [(b, 'arg', v('b')), (a, 'arg', v('a'))])
    deed('after clear() slots are allocated afresh', clear)
