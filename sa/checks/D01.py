"""Fit parameters.  Every history (up to the bound) of add / addOrGet / unregister / rename / set / resetToInit is executed on the abstract state of a parameter set and compared, after
every step and through the public queries only, with an ordered dictionary; every form of parameter line is abstracted and must define exactly the parameters it names."""
from ..value import *
from .. import extract, den, lib, part
from ..run import where
from ..tensors import field
import itertools, time
ASSUMPTIONS = ['two or three distinct names stand for all names (names are only compared)', 'histories of at most four operations']
SRC = ['src/MinuitParameterSet.cpp', 'src/MinuitParameter.cpp', 'src/MinuitExpression.cpp', 'src/Utilities.cpp', 'src/ExpressionParser.cpp', 'src/ParticleProperties.cpp', 'src/QuarkContent.cpp']
NS = 'AmpGen::'
FLAGS = ['Free', 'Hide', 'Fix', 'CompileTimeConstant', 'Blind', 'Invalid']
def flag(n): return ('enum', NS + 'Flag', n, FLAGS.index(n))
def sym(n): return ('sym', n)
def fl(v):
    if v[0] == 'enum': return v[2]
    if v[0] == 'n': return FLAGS[int(v[1])]
    raise Undecided('flag %s' % show(v)[:60])
def check(ctx):
    P = extract.load(SRC, root_stubs=True)
    ov = den.overrides({'AmpGen::OptionsParser::printHelp': lambda m, n, st, fr: FALSE})
    def machine(extra=None): return Machine(P, dict(ov, **(extra or {})), limit=40, max_unroll=80, budget=3000000, depth=60, hooks={'static_init': True, 'recur': 3})
    M = machine()
    def fn(cls, q, test=None):
        r = [f for f in P.find(NS + cls + '::' + q) if f.get('body') is not None and (test is None or test(f))]
        return r[0] if r else None
    def ptypes(f): return [p['t'] for p in f['p']]
    def need(f, what):
        if f is None: raise Undecided('%s not found' % what)
        return f
    ST = 'MinuitParameterSet'; MP = 'MinuitParameter'
    class World:
        def __init__(self, m=M): self.mem = {}; self.m = m; self.n = 0; self.set = None
        def run(self, f, args=(), this=None):
            self.m.budget = 3000000; self.m.deadline = time.time() + 40
            if this is not None and this not in self.mem: raise Undecided('object was destroyed')
            r = self.m.function(f, list(args), None if this is None else self.mem[this], mem=dict(self.mem))
            self.mem = dict(r['st'].s)
            if this is not None: self.mem[this] = r['this']
            return r
        def new(self, f, args, cls=MP):
            r = self.run(f, args)
            root = ('mem', ('new', NS + cls, 900000 + self.n)); self.n += 1
            self.mem[root] = r['this']
            return ('addr', (root,))
        def empty(self):
            self.set = self.m.fresh('set')
            c = fn(ST, ST, lambda f: f.get('fk') == 'ctor' and not f['p'])
            if c is not None and c.get('body'): self.mem[self.set] = self.run(c, [])['this']
            else: self.mem[self.set] = self.m.default_obj(NS + ST) if hasattr(self.m, 'default_obj') else blank(self.m)
        def fork(self):
            w = World(self.m); w.mem = dict(self.mem); w.n = self.n; w.set = self.set; return w
    def blank(m): return ('obj', NS + ST, (('m_keyAccess', ('emptymap',)), ('m_mapping', ('list',)), ('m_parameters', ('list',))))
    pc = fn(MP, MP, lambda f: f.get('fk') == 'ctor' and any('Flag' in t for t in ptypes(f)))
    pc2 = fn(MP, MP, lambda f: f.get('fk') == 'ctor' and len(f['p']) == 5 and not any('Flag' in t for t in ptypes(f)))
    Q = {q: fn(MP, q) for q in ('flag', 'name', 'mean', 'meanInit', 'stepInit', 'minInit', 'maxInit', 'err', 'errPos', 'errNeg', 'isFixed', 'isFree', 'isBlind')}
    NUM = ('mean', 'meanInit', 'stepInit', 'minInit', 'maxInit', 'err', 'errPos', 'errNeg')
    def deed(name, f, g):
        if f is None: ctx.unknown(name, 'src/MinuitParameterSet.cpp', 'not found'); return
        ctx.saw('functions', f['q'])
        try:
            r = g(f); ok, why = r if isinstance(r, tuple) else (r, '')
            ctx.decide(name, ok, where(f), why)
        except Undecided as e: ctx.unknown(name, where(f), e)
    def q(w, addr, name):
        f = need(Q[name], name)
        return w.m.function(f, [], w.mem[addr[1][0]], mem=dict(w.mem))['ret']
    def same(v, e):
        if v == e: return True
        if v[0] in ('n', 's', 'b', 'sym') and e[0] in ('n', 's', 'b', 'sym'): return False
        if v[0] == 'uninit' or v[0] == 'app' and v[1] == 'uninit': return False
        raise Undecided('value %s' % show(v)[:80])
    # ---- one parameter
    X = {k: sym(k) for k in ('mean', 'step', 'lo', 'hi')}
    def expect(w, a, /, **kw):
        for k, e in kw.items():
            v = q(w, a, k)
            if v[0] == 'fld' and v[1][0] == 'obj' and v[1][1].startswith(NS + 'Minuit'): return False, '%s() is never set' % k
            if k == 'flag':
                if fl(v) != e: return False, 'flag() is %s, not %s' % (fl(v), e)
            elif k in ('isFixed', 'isFree', 'isBlind'):
                if v[0] != 'b': raise Undecided('%s is %s' % (k, show(v)[:60]))
                if v[1] != e: return False, '%s() is %s' % (k, v[1])
            elif not same(v, e): return False, '%s() is %s, not %s' % (k, show(v)[:60], show(e)[:60])
        return None
    def init(flagname, **kw):
        d = dict(flag=flagname, name=S('a'), mean=X['mean'], meanInit=X['mean'], stepInit=X['step'], err=X['step'], minInit=X['lo'], maxInit=X['hi'])
        d.update(kw); return d
    args = lambda f='Free', n='a': [S(n), flag(f), X['mean'], X['step'], X['lo'], X['hi']]
    def ctor(f):
        for x in FLAGS[:5]:
            w = World(); a = w.new(f, args(x))
            b = expect(w, a, **init(x, isFixed=x in ('Fix', 'CompileTimeConstant'), isFree=x == 'Free', isBlind=x == 'Blind'))
            if b: return b
        return True, '5 flags'
    deed('a parameter holds the values it is given', pc, ctor)
    def ctor2(f):
        w = World(); a = w.new(f, [S('a'), X['mean'], X['step'], X['lo'], X['hi']])
        return expect(w, a, **init('Free', isFree=True)) or (True, '')
    deed('a parameter given without a flag is free and holds the values it is given', pc2, ctor2)
    def setter(name, argv, /, **change):
        f = fn(MP, name)
        def g(f):
            for x in FLAGS[:5]:
                w = World(); a = w.new(need(pc, 'constructor'), args(x)); root = a[1][0]
                pos = {k: q(w, a, k) for k in ('errPos', 'errNeg')}
                w.run(f, argv, root)
                d = init(x, **pos); d.update(change)
                b = expect(w, a, **d)
                if b: return False, 'after %s(): %s' % (name, b[1])
            return True, ''
        deed('%s() changes exactly what it names' % name, f, g)
    Y = sym('y'); Z = sym('z')
    setter('setCurrentFitVal', [Y], mean=Y); setter('setVal', [Y], mean=Y); setter('fix', [], flag='Fix', isFixed=True, isFree=False); setter('setFree', [], flag='Free', isFree=True, isFixed=False)
    setter('setLimits', [Y, Z], minInit=Y, maxInit=Z); setter('setName', [S('b')], name=S('b')); setter('setStepInit', [Y], stepInit=Y); setter('setInit', [Y, num(3)], mean=Y, meanInit=Y, stepInit=num(3)); setter('setInit', [Y, num(-1)], mean=Y, meanInit=Y); setter('setInit', [Y, ZERO], mean=Y, meanInit=Y, stepInit=ZERO)
    setter('setResult', [Y, Z, sym('en'), sym('ep')], mean=Y, err=Z, errNeg=sym('en'), errPos=sym('ep'))
    def reset(f):
        w = World(); a = w.new(need(pc, 'constructor'), args('Fix')); root = a[1][0]
        pos = {k: q(w, a, k) for k in ('errPos', 'errNeg')}
        w.run(need(fn(MP, 'setResult'), 'setResult'), [Y, Z, sym('en'), sym('ep')], root); w.run(f, [], root)
        return expect(w, a, **init('Fix', **pos)) or (True, '')
    deed('resetToInit() restores the initial values', fn(MP, 'resetToInit'), reset)
    def scale(f):
        w = World(); a = w.new(need(pc, 'constructor'), [S('a'), flag('Free'), X['mean'], num(3), X['lo'], X['hi']]); w.run(f, [num(2)], a[1][0])
        return expect(w, a, **init('Free', stepInit=num(6), err=num(6))) or (True, '')
    deed('scaleStep() scales the step and nothing else', fn(MP, 'scaleStep'), scale)
    def fromstate(f):
        w = World(); a = w.new(need(pc, 'constructor'), args('Free')); root = a[1][0]
        arr = w.m.fresh('x'); w.mem[arr] = ('list', sym('x0'), sym('x1'), sym('x2'))
        w.run(f, [('addr', (arr,))], root)
        b = expect(w, a, **init('Free'))
        if b: return False, 'a parameter that is not in the fit is changed: ' + b[1]
        w.run(need(fn(MP, 'setMinuitIndex'), 'setMinuitIndex'), [num(1)], root); w.run(f, [('addr', (arr,))], root)
        return expect(w, a, **init('Free', mean=sym('x1'))) or (True, '')
    deed('setFromMinuitState() reads the element of its own index', fn(MP, 'setFromMinuitState'), fromstate)
    # ---- histories of a set
    F = {'add': fn(ST, 'add', lambda f: len(f['p']) == 1), 'addv': fn(ST, 'add', lambda f: len(f['p']) > 3), 'get': fn(ST, 'addOrGet'), 'unreg': fn(ST, 'unregister'), 'rename': fn(ST, 'rename'), 'size': fn(ST, 'size'),
         'find': fn(ST, 'find'), 'ats': fn(ST, 'at', lambda f: 'string' in ptypes(f)[0]), 'ati': fn(ST, 'at', lambda f: 'string' not in ptypes(f)[0]),
         'idxs': fn(ST, 'operator[]', lambda f: 'string' in ptypes(f)[0] and not f.get('const')), 'idxi': fn(ST, 'operator[]', lambda f: 'string' not in ptypes(f)[0]), 'reset': fn(ST, 'resetToInit')}
    idxall = [f for f in P.find(NS + ST + '::operator[]') if f.get('body') and 'string' in ptypes(f)[0]]
    NAMES = ['a', 'b']
    EXTRA = 'zz'
    class Model:
        def __init__(self): self.order = []      # entries: dict(name, addr, vals)
        def find(self, n): return next((e for e in self.order if e['name'] == n), None)
    steps = [0]
    def observe(w, mo, hist):
        s = w.m.function(need(F['size'], 'size'), [], w.mem[w.set], mem=dict(w.mem))['ret']
        k = as_num(s)
        if k is None: raise Undecided('size() is %s' % show(s)[:60])
        if k != len(mo.order): return False, 'after %s: %d parameters, expected %d' % (hist, k, len(mo.order))
        steps[0] += 1
        for i, e in enumerate(mo.order):
            v = w.m.function(need(F['ati'], 'at'), [num(i)], w.mem[w.set], mem=dict(w.mem))['ret']
            if e['addr'] is not None and v != e['addr']:
                if v[0] in ('addr', 'null') or v == NULL: return False, 'after %s: parameter %d is not %s' % (hist, i, e['name'])
                raise Undecided('at(%d) is %s' % (i, show(v)[:60]))
            if v == NULL: return False, 'after %s: at(%d) is null' % (hist, i)
            if v[0] != 'addr' or v[1][0] not in w.mem: raise Undecided('at(%d) is %s' % (i, show(v)[:60]))
            e['addr'] = v
            b = expect(w, v, name=S(e['name']), **e['vals'])
            if b: return False, 'after %s: parameter %d: %s' % (hist, i, b[1])
        v = w.m.function(F['ati'], [num(len(mo.order))], w.mem[w.set], mem=dict(w.mem))['ret']
        if v != NULL: return False, 'after %s: at(size()) is not null' % hist
        for nm in NAMES + [EXTRA]:
            e = mo.find(nm); want = e['addr'] if e else NULL
            for f in [F['find'], F['ats']] + idxall:
                if f is None: raise Undecided('query by name not found')
                r = w.m.function(f, [S(nm)], w.mem[w.set], mem=dict(w.mem)); v = r['ret']
                if v != want:
                    if v[0] == 'addr' or v == NULL: return False, 'after %s: %s("%s") is %s' % (hist, f['q'].split('::')[-1], nm, 'null' if v == NULL else 'the wrong parameter' if want != NULL else 'not null')
                    raise Undecided('%s("%s") is %s' % (f['q'], nm, show(v)[:60]))
        return None
    def valset(k): return dict(mean=sym('m%d' % k), stepInit=sym('s%d' % k), minInit=sym('l%d' % k), maxInit=sym('h%d' % k), flag='Fix')
    def pargs(n, k): return [S(n), flag('Fix'), sym('m%d' % k), sym('s%d' % k), sym('l%d' % k), sym('h%d' % k)]
    def apply(w, mo, op, k):
        kind = op[0]
        if kind == 'add':
            a = w.new(need(pc, 'constructor'), pargs(op[1], k)); r = w.run(need(F['add'], 'add'), [a], w.set)['ret']; dup = mo.find(op[1])
            if r[0] == 'b' and r[1] == bool(dup): return False, 'add(%s) returned %s' % (op[1], r[1])
            if not dup: mo.order.append(dict(name=op[1], addr=a, vals=valset(k)))
        elif kind in ('addv', 'get'):
            r = w.run(need(F[kind], kind), pargs(op[1], k), w.set)['ret']; e = mo.find(op[1])
            if e is None: e = dict(name=op[1], addr=None, vals=valset(k)); mo.order.append(e)
            if e['addr'] is None: e['addr'] = r
            if r != e['addr']: return False, '%s(%s) did not return that parameter' % (kind, op[1])
        elif kind == 'unreg':
            e = mo.find(op[1])
            if e is None:
                a = w.new(need(pc, 'constructor'), pargs(op[1], k))
                r = w.run(need(F['unreg'], 'unregister'), [a], w.set)['ret']
                if r == TRUE: return False, 'unregister of a parameter that is not in the set succeeded'
            else:
                r = w.run(need(F['unreg'], 'unregister'), [e['addr']], w.set)['ret']
                if r == FALSE: return False, 'unregister(%s) failed' % op[1]
                mo.order.remove(e)
        elif kind == 'rename':
            r = w.run(need(F['rename'], 'rename'), [S(op[1]), S(op[2])], w.set)['ret']; e = mo.find(op[1])
            ok = e is not None and mo.find(op[2]) is None
            if r[0] == 'b' and r[1] != ok: return False, 'rename(%s,%s) returned %s' % (op[1], op[2], r[1])
            if ok: e['name'] = op[2]
        return None
    OPS = [('add', x) for x in NAMES] + [('addv', NAMES[0]), ('get', NAMES[0]), ('get', NAMES[1])] + [('unreg', x) for x in NAMES[:2]] + [('rename', x, y) for x in NAMES[:2] for y in NAMES if x != y] + [('rename', NAMES[0], NAMES[0])]
    LEN = 4 if ctx.tier == 'thorough' else 3
    def nothing(f):
        w = World(); w.empty(); mo = Model()
        b = apply(w, mo, ('add', 'a'), 1)
        if b: return b
        r = w.run(f, [NULL], w.set)['ret']
        if r == TRUE: return False, 'adding no parameter succeeded'
        return observe(w, mo, 'add(a) add(nothing)') or (True, '')
    deed('adding no parameter fails and changes nothing', F['add'], nothing)
    def histories(_):
        bad = []
        def go(w, mo, hist, depth):
            if depth == LEN or bad: return
            for op in OPS:
                if bad: return
                if depth == LEN - 1 and op[0] in ('get',) and op[1] != NAMES[0]: continue
                w2 = w.fork(); m2 = Model(); m2.order = [dict(e) for e in mo.order]; h = hist + ['%s(%s)' % (op[0], ','.join(op[1:]))]
                b = apply(w2, m2, op, len(h)) or observe(w2, m2, ' '.join(h))
                if b: bad.append(b); return
                go(w2, m2, h, depth + 1)
        w = World(); w.empty(); mo = Model()
        b = observe(w, mo, 'nothing')
        if b: return b
        go(w, mo, [], 0)
        return bad[0] if bad else (True, '%d states' % steps[0])
    deed('every history of operations leaves the set equal to an ordered dictionary', F['add'], histories)
    def filled(names, k0=1, m=M):
        w = World(m); w.empty(); ads = []
        for i, n in enumerate(names):
            a = w.new(need(pc, 'constructor'), pargs(n, i + k0)); w.run(need(F['add'], 'add'), [a], w.set); ads.append(a)
        return w, ads
    def mapping(f):
        w, ads = filled(['a', 'b', 'c'])
        w.run(need(fn(ST, 'setMapping'), 'setMapping'), [('list', num(2), num(0))], w.set)
        ix = fn(MP, 'index')
        if ix is not None:
            for a, e in zip(ads, (1, -1, 0)):
                v = as_num(w.m.function(ix, [], w.mem[a[1][0]], mem=dict(w.mem))['ret'])
                if v != e: return False, 'index of %s in the fit is %s, not %d' % ('abc'[ads.index(a)], v, e)
        arr = w.m.fresh('x'); w.mem[arr] = ('list', sym('x0'), sym('x1'), sym('x2'))
        w.run(f, [('addr', (arr,))], w.set)
        for a, e in zip(ads, ('x1', 'm2', 'x0')):
            b = expect(w, a, mean=sym(e))
            if b: return False, 'parameter %s: %s' % ('abc'[ads.index(a)], b[1])
        return True, 'mapping (2,0) of three parameters'
    deed('setFromMinuit() writes element i to the i-th mapped parameter', fn(ST, 'setFromMinuit'), mapping)
    def byindex(f):
        w, ads = filled(['a', 'b', 'c'])
        w.run(f, [num(1), sym('v')], w.set)
        for a, e in zip(ads, ('m1', 'v', 'm3')):
            b = expect(w, a, mean=sym(e))
            if b: return False, b[1]
        g = fn(ST, 'getFromMinuitIndex')
        for i, e in enumerate(('m1', 'v', 'm3')):
            v = w.m.function(need(g, 'getFromMinuitIndex'), [num(i)], w.mem[w.set], mem=dict(w.mem))['ret']
            if not same(v, sym(e)): return False, 'parameter %d reads %s' % (i, show(v)[:60])
        return True, ''
    deed('parameters are written and read by index', fn(ST, 'setFromMinuitIndex'), byindex)
    def setall(f):
        w, ads = filled(['a', 'b', 'c'])
        o = World(); o.empty(); o.mem.update(w.mem); o.n = w.n
        for i, n in enumerate(['c', 'z', 'a']):
            a = o.new(need(pc, 'constructor'), [S(n), flag('Free'), sym('o' + n), sym('t'), sym('t'), sym('t')]); o.run(F['add'], [a], o.set)
        w.mem.update(o.mem)
        w.run(f, [o.mem[o.set]], w.set)
        for a, n, e in zip(ads, 'abc', ('oa', 'm2', 'oc')):
            b = expect(w, a, name=S(n), mean=sym(e), meanInit=sym('m%d' % ('abc'.index(n) + 1)), flag='Fix')
            if b: return False, 'parameter %s after set(): %s' % (n, b[1])
        w.run(need(F['reset'], 'resetToInit'), [], w.set)
        for a, n in zip(ads, 'abc'):
            b = expect(w, a, mean=sym('m%d' % ('abc'.index(n) + 1)))
            if b: return False, 'parameter %s after resetToInit(): %s' % (n, b[1])
        return True, ''
    deed('set() copies the values of the parameters of the same name', fn(ST, 'set'), setall)
    def call(f):
        w, ads = filled(['a', 'b'])
        w.run(need(fn(MP, 'setCurrentFitVal'), 'setCurrentFitVal'), [Y], ads[1][1][0])
        v = w.run(f, [S('b')], w.set)['ret']
        return same(v, Y), 'value of b is %s' % show(v)[:60]
    deed('operator() is the current value of the named parameter', fn(ST, 'operator()'), call)
    # ---- lines of text
    tp = fn(ST, 'tryParameter')
    def L(t): return ('list',) + tuple(S(x) for x in t.split())
    def N(x): return ('n', Fr(x))
    CASES = [('p Free 1.5 0.1', [('p', 'Free', '1.5', '0.1', '0', '0')]), ('p 2 1.5 0.1', [('p', 'Fix', '1.5', '0.1', '0', '0')]), ('p Fix -2 0', [('p', 'Fix', '-2', '0', '0', '0')]), ('q Free 1 0.5 -3 4', [('q', 'Free', '1', '0.5', '-3', '4')]),
             ('p Hide 1.5 0.1', [('p', 'Hide', '1.5', '0.1', '0', '0')]), ('p Blind 1.5 0.1', [('p', 'Blind', '1.5', '0.1', '0', '0')]), ('p CompileTimeConstant 1.5 0.1', [('p', 'CompileTimeConstant', '1.5', '0.1', '0', '0')]),
             ('D Free 1 0.5 Fix 2 0.25', [('D_Re', 'Free', '1', '0.5', '0', '0'), ('D_Im', 'Fix', '2', '0.25', '0', '0')]),
             ('D Fix 1 0.5 -1 3 Free 2 0.25 -7 9', [('D_Re', 'Fix', '1', '0.5', '-1', '3'), ('D_Im', 'Free', '2', '0.25', '-7', '9')]),
             ('p Free one 0.1', []), ('p Free 1 step', []), ('p Foo 1 0.1', []), ('p Free 1 0.1 x 4', []), ('p Free 1 0.1 3 x', []), ('D Free 1 0.5 Foo 2 0.25', []), ('D Foo 1 0.5 Free 2 0.25', []), ('D Free 1 x Free 2 0.25', []), ('D Free 1 0.5 Free y 0.25', []),
             ('D Free 1 0.5 Free 2 z', []), ('D Free 1 0.5 a 3 Free 2 0.25 -7 9', []), ('D Free 1 0.5 -1 3 Free 2 0.25 -7 u', []), ('D Free 1 0.5 -1 3 Free 2 0.25 u 9', []), ('EventType D0 K- pi+ pi0', []), ('p Free 1', []), ('p', []), ('p Free 1 0.1 2', []), ('D Free 1 0.5 Fix 2 0.25 4', [])]
    def lines(f):
        n = 0
        for t, want in CASES:
            w = World(); w.empty(); w.run(f, [L(t)], w.set); n += 1
            k = as_num(w.m.function(need(F['size'], 'size'), [], w.mem[w.set], mem=dict(w.mem))['ret'])
            if k is None: raise Undecided('size not definite: %s: %s' % (t, show(w.mem[w.set])[:600]))
            if k != len(want): return False, '"%s" defines %d parameters, not %d' % (t, k, len(want))
            for i, x in enumerate(want):
                a = w.m.function(F['ati'], [num(i)], w.mem[w.set], mem=dict(w.mem))['ret']
                b = expect(w, a, name=S(x[0]), flag=x[1], mean=N(x[2]), meanInit=N(x[2]), stepInit=N(x[3]), minInit=N(x[4]), maxInit=N(x[5]))
                if b: return False, '"%s": parameter %s: %s' % (t, x[0], b[1])
        return True, '%d lines' % n
    deed('a line of text defines exactly the parameters it describes', tp, lines)

    # ---- expressions of parameters
    def parsed(m, n, st, fr):
        vals = [m.rv(x, st, fr) for x in n['a']]
        els = lib.elements(m, vals[0], vals[1], st) if hasattr(lib, 'elements') and len(vals) > 1 else None
        if els is None and len(vals) > 1 and vals[0][0] == 'it' and vals[1][0] == 'it' and vals[0][1] == vals[1][1]:
            c = m.rd(st, vals[0][1][1]) if vals[0][1][0] == 'addr' else vals[0][1]; i, j = as_num(vals[0][2]), as_num(vals[1][2])
            if c[0] == 'list' and i is not None and j is not None: els = list(c[1 + int(i):1 + int(j)])
        if els is None: return None
        return ('app', 'parsed') + tuple(els)
    def link(m, n, st, fr):
        v = m.rv(n['a'][0], st, fr)
        return ('app', 'linked', v) if v[0] == 'addr' else None
    EX = {'AmpGen::ExpressionParser::parse': parsed, 'ctor:AmpGen::MinuitParameterLink': link, 'AmpGen::MinuitParameterLink::operator Expression': lambda m, n, st, fr: m.rd(st, m.objpath(n, st, fr)), 'AmpGen::MinuitParameterLink::operator AmpGen::Expression': lambda m, n, st, fr: m.rd(st, m.objpath(n, st, fr))}
    ME = machine(EX)
    emean, eval_, econv, eexp = fn('MinuitExpression', 'mean'), fn('MinuitExpression', 'getVal'), fn('MinuitExpression', 'operator double'), fn('MinuitExpression', 'expression')
    def isexpr(w, a, name, term):
        o = w.mem.get(a[1][0]) if a[0] == 'addr' else None
        if o is None or o[0] != 'obj': raise Undecided('parameter %s' % show(a)[:60])
        if o[1] != NS + 'MinuitExpression': return False, '%s is a plain parameter, not an expression' % name
        b = expect(w, a, name=S(name), flag='Hide', isFree=False)
        if b: return False, '%s: %s' % (name, b[1])
        v = w.m.function(need(eexp, 'expression'), [], o, mem=dict(w.mem))['ret']
        if v != term:
            if v[0] == 'n' or v[0] == 'app' and v[1] in ('parsed', 'linked'): return False, '%s stands for %s' % (name, show(v)[:80])
            raise Undecided('expression %s' % show(v)[:80])
        return None
    def exprctor(f):
        w = World(ME); w.empty()
        a = w.new(f, [('list', S('z'), S('='), S('a'), S('+'), S('b')), ('addr', (w.set,))], 'MinuitExpression')
        b = isexpr(w, a, 'z', ('app', 'parsed', S('a'), S('+'), S('b')))
        if b: return b
        o = w.mem[a[1][0]]; t = ('app', 'parsed', S('a'), S('+'), S('b'))
        for g in (emean, econv):
            v = w.m.function(need(g, 'mean'), [], o, mem=dict(w.mem))['ret']
            if v != app('real', t):
                if v[0] in ('n', 'fld') or t in list(subterms(v)): return False, '%s() is %s, not the real part of the expression' % (g['q'], show(v)[:80])
                raise Undecided('%s() is %s' % (g['q'], show(v)[:80]))
        v = w.m.function(need(eval_, 'getVal'), [], o, mem=dict(w.mem))['ret']
        if v != t: raise Undecided('getVal() is %s' % show(v)[:80])
        return True, ''
    deed('an expression takes its name and text from its line and evaluates to the expression', fn('MinuitExpression', 'MinuitExpression', lambda f: f.get('fk') == 'ctor' and 'vector' in ptypes(f)[0]), exprctor)
    LINES = ['p Free 1 0.5', 'z = p + q', 'q Fix 2 0.25', 'y = z', 'D Free 1 0.5 Fix 2 0.25', 'K(1)(1270)+_mass Free 1.27 0.01', 'rho(770)0_width Fix 0.15 0', 'K*(892)bar0_mass Fix 0.9 0', 'a(1)(1260)+_radius = p * 2', 'a(1)(1260)-_radius Fix 3 0', 'Nonsense_mass Fix 3 0', 'K(1)(1270)+_spin Fix 3 0', 'K(1)(1270)+_width Free 0.09 0.01', 'K*(892)0_radius Free 2 0.1', 'EventType D0 K- pi+']
    WANT = [('p', None), ('q', None), ('D_Re', None), ('D_Im', None), ('K(1)(1270)+_mass', None), ('rho(770)0_width', None), ('K*(892)bar0_mass', None), ('a(1)(1260)-_radius', None), ('Nonsense_mass', None), ('K(1)(1270)+_spin', None), ('K(1)(1270)+_width', None), ('K*(892)0_radius', None),
            ('z', 'p + q'), ('y', 'z'), ('a(1)(1260)+_radius', 'p * 2'), ('K(1)(1270)-_mass', 4), ('K*(892)0_mass', 6), ('K(1)(1270)-_width', 10), ('K*(892)bar0_radius', 11)]
    def stream(f):
        inp = ('list',) + tuple(L(t) for t in LINES)
        o2 = part.overrides(extra=dict(EX, **{'AmpGen::OptionsParser::getMe': lambda m, n, st, fr: ('addr', (('v', -997, 'options'),)), 'AmpGen::OptionsParser::getInputOrdered': lambda m, n, st, fr: inp, 'AmpGen::Particle::isValidDecayDescriptor': lambda m, n, st, fr: FALSE}))
        w = World(machine(o2)); w.mem.update(part.memory()); w.empty(); w.run(f, [], w.set)
        k = as_num(w.m.function(need(F['size'], 'size'), [], w.mem[w.set], mem=dict(w.mem))['ret'])
        if k is None: raise Undecided('size not definite %s' % show(field(w.mem[w.set], 'm_parameters'))[:500])
        got = []
        for i in range(int(k)):
            a = w.m.function(need(F['ati'], 'at'), [num(i)], w.mem[w.set], mem=dict(w.mem))['ret']
            nm = q(w, a, 'name')
            if nm[0] != 's': raise Undecided('name %s' % show(nm)[:60])
            got.append((nm[1], a))
        names = [g[0] for g in got]
        if sorted(names) != sorted(x[0] for x in WANT): return False, 'the file defines %s, expected %s' % (sorted(set(names) - set(x[0] for x in WANT)) or 'too few', sorted(set(x[0] for x in WANT) - set(names)))
        byname = dict(got)
        for nm, e in WANT:
            if isinstance(e, str): b = isexpr(w, byname[nm], nm, ('app', 'parsed') + tuple(S(x) for x in e.split()))
            elif isinstance(e, int): b = isexpr(w, byname[nm], nm, ('app', 'linked', byname[WANT[e][0]]))
            else: b = None
            if b: return b
        return True, '%d lines' % len(LINES)
    deed('an options file defines its parameters, its expressions and the missing charge conjugates of masses, widths and radii', fn(ST, 'loadFromStream'), stream)

    LK = 'MinuitParameterLink'
    def withlink(kind, flagname='Free'):
        w = World(ME); w.empty()
        if kind == 'expr': a = w.new(need(fn('MinuitExpression', 'MinuitExpression', lambda f: f.get('fk') == 'ctor' and 'vector' in ptypes(f)[0]), 'constructor'), [('list', S('z'), S('='), S('a'), S('+'), S('b')), ('addr', (w.set,))], 'MinuitExpression')
        else: a = w.new(need(pc, 'constructor'), args(flagname))
        return w, a, ('obj', NS + LK, (('m_parameter', a),))
    lo = fn(LK, 'operator()')
    def linkval(f):
        for kind, want in (('plain', X['mean']), ('expr', ('app', 'parsed', S('a'), S('+'), S('b')))):
            w, a, o = withlink(kind); v = w.m.function(f, [], o, mem=dict(w.mem))['ret']
            if v != want:
                if v == app('real', want): return False, 'a link to a complex expression evaluates to its real part, while its source is compiled in full'
                raise Undecided('value of a link is %s' % show(v)[:80])
        return True, ''
    if lo is not None: deed('a link to a parameter evaluates to that parameter', lo, linkval)
    ls = fn(LK, 'to_string')
    def linktext(f):
        R = {'AmpGen::ASTResolver::resolvedParameter': lambda m, n, st, fr: S('x0[7]'), 'AmpGen::Expression::to_string': lambda m, n, st, fr: S('a + b'), 'AmpGen::Constant::to_string': lambda m, n, st, fr: S('(1.)')}
        for on in (False, True):
            mm = machine(dict(EX, **R, **{'AmpGen::ASTResolver::enableCompileConstants': lambda m, n, st, fr: ('b', on)}))
            for kind, fg in (('plain', 'Free'), ('plain', 'CompileTimeConstant'), ('expr', 'Hide')):
                for rs in (NULL, ('addr', (('mem', sym('resolver')),))):
                    w, a, o = withlink(kind, fg); w.m = mm
                    v = mm.function(f, [rs], o, mem=dict(w.mem))['ret']
                    if v[0] != 's': 
                        if kind == 'plain' and rs != NULL and on and fg == 'CompileTimeConstant': continue
                        raise Undecided('text of a link is %s' % show(v)[:80])
                    if kind == 'expr':
                        if v[1] == 'a + b': return False, 'a linked sum is emitted as "a + b": not bracketed, it is torn apart by the operators around it'
                    elif rs == NULL: 
                        if v[1] != 'a': return False, 'a link to "a" reads "%s"' % v[1]
                    elif not (on and fg == 'CompileTimeConstant') and v[1] != 'x0[7]': return False, 'a link resolved as x0[7] is emitted as "%s"' % v[1]
        return True, ''
    if ls is not None: deed('the source of a link is its resolved parameter, or its bracketed expression', ls, linktext)
    lr = fn(LK, 'resolve')
    def linkres(f):
        seen = []
        R = {'AmpGen::ASTResolver::resolve': lambda m, n, st, fr: (seen.append(1), VOID)[1], 'AmpGen::Expression::resolve': lambda m, n, st, fr: (seen.append(2), VOID)[1]}
        for on in (False, True):
            mm = machine(dict(EX, **R, **{'AmpGen::ASTResolver::enableCompileConstants': lambda m, n, st, fr: ('b', on)}))
            for kind, fg in (('plain', 'Free'), ('plain', 'Fix'), ('plain', 'CompileTimeConstant'), ('expr', 'Hide')):
                w, a, o = withlink(kind, fg); del seen[:]
                mm.function(f, [sym('resolver')], o, mem=dict(w.mem))
                want = [2] if kind == 'expr' else [] if on and fg == 'CompileTimeConstant' else [1]
                if seen != want and (seen or want == [1] or want == [2]) and set(seen) != set(want): return False, 'compile-time constants %s: a link to a parameter with flag %s is %sresolved' % ('on' if on else 'off', fg, '' if seen else 'not ')
        return True, ''
    if lr is not None: deed('a link is resolved exactly when its source refers to the resolved parameter', lr, linkres)
