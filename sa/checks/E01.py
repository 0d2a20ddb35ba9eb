"""Events and constraints.  Event accessors and setters are abstracted on an event with symbolic momenta: exactly the named four components change, and invariant masses are the Minkowski squares of the
summed momenta; penalty terms are abstracted with symbolic parameter values."""
from ..value import *
from .. import extract, den, alg
from ..run import where
from ..tensors import field
import itertools, time
ASSUMPTIONS = ['positions passed to an event lie inside it']
SRC = ['src/Event.cpp', 'src/ExtendLikelihoodBase.cpp', 'src/Utilities.cpp']
NS = 'AmpGen::'
N = 5
def check(ctx):
    P = extract.load(SRC)
    M = Machine(P, den.overrides(), limit=60, max_unroll=60, budget=500000, depth=30, hooks={'static_init': True, 'recur': 3})
    def run(f, args, this=None, mem=None, ov=None):
        M.budget = 500000; M.deadline = time.time() + 60; old = M.ov
        if ov: M.ov = dict(M.ov, **ov)
        try: return M.function(f, args, this, mem=mem or {})
        finally: M.ov = old
    X = [sym('p%d%s' % (i, 'xyzE'[j])) for i in range(N) for j in range(4)] + [sym('extra')]
    def ev(x=X, **kw): return ('obj', NS + 'Event', tuple(sorted(dict(dict(m_event=('list',) + tuple(x), m_genPdf=sym('g'), m_weight=sym('w'), m_index=sym('ix')), **kw).items())))
    def fns(q, t=lambda ts: True): return next((f for f in P.find(NS + 'Event::' + q) if f.get('body') is not None and t([p['t'].replace('const ', '').replace(' &', '').strip() for p in f['p']])), None)
    def deed(name, f, g):
        if f is None: ctx.unknown(name, 'src/Event.cpp', 'not found'); return
        ctx.saw('functions', f['q'])
        try: ok, why = g(f); ctx.decide(name, ok, where(f), why)
        except Undecided as e: ctx.unknown(name, where(f), e)
    def state(o):
        if o[0] != 'obj': raise Undecided('event %s' % show(o)[:80])
        d = dict(o[2]); v = d.get('m_event')
        if v is None or v[0] != 'list': raise Undecided('event data %s' % (v and show(v)[:80]))
        return list(v[1:]), {k: x for k, x in d.items() if k != 'm_event'}
    rest = {k: v for k, v in ev()[2] if k != 'm_event'}
    def exp(o, want, what, others=None):
        got, r = state(o)
        if len(got) != len(want): return False, '%s: the event has %d numbers instead of %d' % (what, len(got), len(want))
        for i, (a, b) in enumerate(zip(got, want)):
            if a != b:
                if a[0] not in ('sym', 'n'): raise Undecided('%s: entry %d is %s' % (what, i, show(a)[:60]))
                return False, '%s: entry %d is %s instead of %s' % (what, i, show(a), show(b))
        for k, v in (others or rest).items():
            if r.get(k) != v:
                if r.get(k) is None or r[k][0] not in ('sym', 'n'): raise Undecided('%s: %s is %s' % (what, k, r.get(k) and show(r[k])[:60]))
                return False, '%s: %s is %s instead of %s' % (what, k, show(r[k]), show(v))
        return True, ''
    def every(gs):
        k = 0; und = None
        for g in gs:
            try: ok, why = g()
            except Undecided as e: und = e; continue
            if not ok: return ok, why
            k += 1
        if und is not None: raise und
        return True, '%d cases' % k
    # ---- invariant masses
    def inv(ids):
        r = ZERO
        for j in range(4):
            s = ZERO
            for i in ids: s = add(s, X[4 * i + j])
            r = add(r, mul(num(1 if j == 3 else -1), mul(s, s)))
        return r
    def eq(v, w, what):
        if oob(v): return False, '%s: %s' % (what, oob(v))
        ok, why = alg.agree(v, w, lambda s: None)
        if ok is None: raise Undecided('%s: %s' % (what, why))
        return ok, '%s: %s' % (what, why) if not ok else ''
    for k in (1, 2, 3):
        deed('invariant mass of %d particles' % k, fns('s', lambda t, k=k: t == ['unsigned int'] * k), lambda f, k=k: every(lambda: eq(run(f, [num(i) for i in ids], ev())['ret'], inv(ids), 's%s' % (ids,)) for ids in itertools.permutations(range(N), k)))
    deed('invariant mass of a list of particles', fns('s', lambda t: len(t) == 1 and 'vector' in t[0]), lambda f: every(lambda: eq(run(f, [('list',) + tuple(num(i) for i in ids)], ev())['ret'], inv(ids), 's%s' % (ids,)) for k in range(1, N + 1) for ids in itertools.combinations(range(N), k)))
    # ---- changes
    Q = [sym('q%d' % j) for j in range(4)]
    def at(i, q): x = list(X); x[4 * i:4 * i + 4] = q; return x
    root = ('v', 910001, 'buf')
    deed('setting the momentum of a particle changes nothing else', fns('set', lambda t: len(t) == 2 and 'vector' in t[1]), lambda f: every(lambda: exp(run(f, [num(i), ('list',) + tuple(Q)], ev())['this'], at(i, Q), 'set(%d)' % i) for i in range(N)))
    deed('setting the momentum of a particle from memory changes nothing else', fns('set', lambda t: len(t) == 2 and t[1].endswith('*')), lambda f: every(lambda: exp(run(f, [num(i), ('addr', (root,))], ev(), {root: ('list',) + tuple(Q)})['this'], at(i, Q), 'set(%d)' % i) for i in range(N)))
    Y = [sym('y%d' % j) for j in range(len(X))]
    deed('setting all entries from memory', fns('set', lambda t: len(t) == 1 and t[0].endswith('*')), lambda f: exp(run(f, [('addr', (root,))], ev(), {root: ('list',) + tuple(Y)})['this'], Y, 'set'))
    def entry(i): x = list(X); x[i] = sym('v'); return x
    deed('setting an entry changes nothing else', fns('set', lambda t: len(t) == 2 and t[1] in ('double', 'float', 'real_t', 'AmpGen::real_t')), lambda f: every(lambda: exp(run(f, [num(i), sym('v')], ev())['this'], entry(i), 'set(%d)' % i) for i in range(len(X))))
    def copyw(m, n, st, fr):
        """memmove of a whole number of values"""
        def ptr(x):
            y = x
            while y['k'] in ('cast', 'paren', 'icast'): y = y['a'][0]
            if '[' in y.get('t', '') and not y.get('t', '').endswith('*'):
                p = m.lv(y, st, fr, soft=True)
                if p is not None: return ('addr', p)
            return m.rv(x, st, fr)
        d, s, k = ptr(n['a'][0]), ptr(n['a'][1]), as_num(m.rv(n['a'][2], st, fr))
        def base(p):
            if p[0] != 'addr': raise Undecided('copy at %s' % show(p)[:60])
            p = p[1]
            if p[-1][0] == 'i' and as_num(p[-1][1]) is not None: return p[:-1], int(as_num(p[-1][1]))
            return p, 0
        if k is None or k % 8: raise Undecided('copy of %s bytes' % k)
        (pd, i0), (ps, j0) = base(d), base(s)
        vals = [m.rd(st, ps + (('i', num(j0 + x)),)) for x in range(int(k) // 8)]
        for x, v in enumerate(vals): m.wr(st, pd + (('i', num(i0 + x)),), v)
        return d
    cp = {q: copyw for q in ('memmove', 'std::memmove', 'memcpy', 'std::memcpy', '__builtin_memcpy', '__builtin_memmove')}
    def swapped(i, j): x = list(X); x[4 * i:4 * i + 4], x[4 * j:4 * j + 4] = X[4 * j:4 * j + 4], X[4 * i:4 * i + 4]; return x
    deed('swapping two particles exchanges their momenta only', fns('swap'), lambda f: every(lambda: exp(run(f, [num(i), num(j)], ev(), None, cp)['this'], swapped(i, j), 'swap(%d, %d)' % (i, j)) for i in range(N) for j in range(N)))
    def reordered(p):
        x = list(X)
        for i, a in enumerate(p): x[4 * a:4 * a + 4] = X[4 * i:4 * i + 4]
        return x
    deed('reordering moves particle i to its address', fns('reorder'), lambda f: every(lambda: exp(run(f, [('list',) + tuple(num(i) for i in p)], ev(), None, cp)['this'], reordered(p), 'reorder%s' % (p,)) for p in itertools.permutations(range(4))))
    deed('extending an event appends one entry', fns('extendEvent'), lambda f: exp(run(f, [sym('v')], ev())['this'], X + [sym('v')], 'extendEvent'))
    for fn_, fld in (('setWeight', 'm_weight'), ('setGenPdf', 'm_genPdf'), ('setIndex', 'm_index')):
        deed('%s changes only that' % fn_, fns(fn_), lambda f, fld=fld, fn_=fn_: exp(run(f, [sym('v')], ev())['this'], X, fn_, dict(rest, **{fld: sym('v')})))
    for fn_, want in (('weight', sym('w')), ('genPdf', sym('g')), ('index', sym('ix')), ('size', num(len(X)))):
        deed('%s is what was set' % fn_, fns(fn_), lambda f, want=want, fn_=fn_: (lambda v: (True, '') if v == want else (False, '%s is %s' % (fn_, show(v))) if v[0] in ('sym', 'n') else (_ for _ in ()).throw(Undecided(show(v)[:60])))(run(f, [], ev())['ret']))
    ctor2 = next((f for f in P.find(NS + 'Event::Event') if len(f['p']) == 2), None); ctor1 = next((f for f in P.find(NS + 'Event::Event') if len(f['p']) == 1 and 'unsigned' in f['p'][0]['t']), None)
    dflt = {'m_weight': ONE, 'm_genPdf': ONE, 'm_index': ZERO}
    deed('a new event has weight and generator probability one', ctor1, lambda f: exp(run(f, [num(8)])['this'], [ZERO] * 8, 'Event(8)', dflt))
    deed('an event from memory holds its entries', ctor2, lambda f: exp(run(f, [('addr', (root,)), num(6)], None, {root: ('list',) + tuple(Y)})['this'], Y[:6], 'Event(p, 6)', dflt))
    # ---- penalty terms
    gc = next((f for f in P.find(NS + 'GaussianConstraint::operator()') if f.get('body') is not None), None)
    def gauss(f):
        v = run(f, [], ('obj', NS + 'GaussianConstraint', (('m_mean', sym('mu')), ('m_param', sym('PAR')), ('m_sigma', sym('sigma')))), None, {NS + 'MinuitParameter::mean': lambda m, n, st, fr: sym('x')})['ret']
        d = add(sym('x'), neg(sym('mu')))
        return eq(v, neg(div(mul(d, d), mul(num(2), mul(sym('sigma'), sym('sigma'))))), 'penalty')
    deed('a Gaussian constraint is the logarithm of its density', gc, gauss)
    cf = next((f for f in P.find(NS + 'GaussianConstraint::configure') if f.get('body') is not None), None)
    def conf(f):
        pp = lambda q: (lambda m, n, st, fr: sym(q))
        ov = {NS + 'ParticlePropertiesList::get': lambda m, n, st, fr: ('app', 'pdg', m.rv(n['a'][0], st, fr)), NS + 'MinuitParameterSet::operator[]': lambda m, n, st, fr: ('app', 'par', m.rv(n['a'][-1], st, fr))}
        for q in ('mass', 'width', 'mErrPlus', 'wErrPlus', 'mErrMinus', 'wErrMinus', 'radius'): ov[NS + 'ParticleProperties::' + q] = lambda m, n, st, fr, q=q: ('app', q, m.rv(n['o'], st, fr))
        for line, par, mean, sig in (('GaussianConstraint x 1.5 0.25', 'x', ('n', Fr('1.5')), ('n', Fr('0.25'))), ('GaussianConstraint K0_mass PDG', 'K0_mass', 'mass', 'mErrPlus'), ('GaussianConstraint K0_width PDG', 'K0_width', 'width', 'wErrPlus')):
            o = run(f, [S(line), sym('MPS')], ('obj', NS + 'GaussianConstraint', (('m_mean', sym('mu')), ('m_param', sym('PAR')), ('m_sigma', sym('sigma')))), None, ov)['this']
            for fld, w in (('m_mean', mean), ('m_sigma', sig), ('m_param', ('app', 'par', S(par)))):
                v = field(o, fld)
                if oob(v): return False, '%s: %s needs tokens that are not there: %s' % (line, fld, oob(v))
                while v[0] in ('deref', 'conv'): v = v[-1]
                if v[0] == 'app' and isinstance(w, str) and v[1] in ('mass', 'width', 'mErrPlus', 'wErrPlus', 'mErrMinus', 'wErrMinus', 'radius'):
                    a = v[2]
                    while a[0] in ('deref', 'conv'): a = a[-1]
                    if a != ('app', 'pdg', S('K0')): return (False if a[:2] == ('app', 'pdg') and a[2][0] == 's' else None), '%s: the properties used are %s' % (line, show(a)[:60])
                    if v[1] != w: return False, '%s: %s is the %s of the particle' % (line, fld, v[1])
                elif v != w:
                    if v[0] in ('n', 'sym') or v[:2] == ('app', 'par'): return False, '%s: %s is %s' % (line, fld, show(v)[:60])
                    raise Undecided('%s: %s is %s' % (line, fld, show(v)[:80]))
        return True, '3 forms'
    deed('a Gaussian constraint is configured as its line says', cf, conf)
    # ---- addresses
    def points(v, fld, i=None):
        if v[0] == 'it' and v[1][0] == 'addr': v = ('addr', v[1][1] + (('i', v[2]),))
        if v[0] == 'addr' and len(v[1]) == 2 and i is not None and v[1][1][0] == 'f': v = ('addr', v[1] + (('i', ZERO),))
        if v[0] != 'addr' or v[1][1][0] != 'f': raise Undecided('address %s' % show(v)[:60])
        got = (v[1][1][1], v[1][2][1] if len(v[1]) > 2 else None); want = (fld, None if i is None else num(i))
        if got[1] is not None and got[1][0] != 'n': raise Undecided('address %s' % show(v)[:60])
        return got == want, '' if got == want else 'the address is that of %s%s instead of %s%s' % (got[0], '' if got[1] is None else '[%s]' % show(got[1]), fld, '' if i is None else '[%d]' % i)
    k = 0
    for q in ('address', 'operator double *', 'operator const double *', 'pWeight', 'pGenPdf'):
        for f in P.find(NS + 'Event::' + q):
            if f.get('body') is None: continue
            fld = {'pWeight': 'm_weight', 'pGenPdf': 'm_genPdf'}.get(q, 'm_event'); k += 1
            def adr(f):
                if fld != 'm_event': return points(run(f, [], ev())['ret'], fld)
                if not f['p']: return points(run(f, [], ev())['ret'], fld, 0)
                d = f['p'][0].get('d')
                while d is not None and d['k'] == 'cast': d = d['a'][0]
                if d is not None and d['k'] == 'lit' and d['v'] != '0': return False, 'the default address is that of entry %s' % d['v']
                return every(lambda: points(run(f, [num(i)], ev())['ret'], fld, i) for i in range(len(X)))
            deed('%s points at what it names (line %d)' % (q, f['l']), f, adr)
    for f in P.find(NS + 'Event::operator[]') + P.find(NS + 'Event::get'):
        if f.get('body') is None: continue
        def ent(f):
            for i in range(len(X)):
                v = run(f, [num(i)], ev())['ret']
                if v != X[i]:
                    if v[0] not in ('sym', 'n'): raise Undecided('entry %s' % show(v)[:60])
                    return False, 'entry %d is read as %s' % (i, show(v))
            return True, ''
        deed('entry i is entry i (line %d)' % f['l'], f, ent)
