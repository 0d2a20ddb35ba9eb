"""Interpolation.  The curvatures a spline block carries are extracted as terms in the knot values and the range and must satisfy the equations of the natural cubic spline; the expression
compiled for a spline is extracted and, in each bin, must be the cubic with those values and curvatures at its ends; Pade approximants must equal the function they approximate at each of their
2N+1 nodes, for arbitrary values of the function."""
from ..value import *
from .. import extract, den, numw, value as V
from ..run import where
from ..tensors import field
import itertools, time, random, math
ASSUMPTIONS = ['gsl_matrix_* and gsl_linalg_LU_* follow their documentation, in exact arithmetic', 'knots are addressed by the integer part of an index', 'splines of three to seven knots and Pade approximants of degree 1, 2 and 4 stand for all']
SRC = ['src/Spline.cpp', 'src/Array.cpp', 'src/Expression.cpp', 'src/Pade.cpp', 'src/CacheTransfer.cpp', 'src/ASTResolver.cpp', 'src/MinuitParameter.cpp', 'src/Lineshapes/CoupledChannel.cpp']
TU = [extract.VERIF + '/tools/tus/pade.cpp']
NS = 'AmpGen::'
def inverse(M):
    n = len(M); A = [list(r) + [Fr(int(i == j)) for j in range(n)] for i, r in enumerate(M)]
    for c in range(n):
        p = next((r for r in range(c, n) if A[r][c] != 0), None)
        if p is None: raise Undecided('singular matrix')
        A[c], A[p] = A[p], A[c]
        d = A[c][c]; A[c] = [x / d for x in A[c]]
        for r in range(n):
            if r != c and A[r][c] != 0:
                k = A[r][c]; A[r] = [x - k * y for x, y in zip(A[r], A[c])]
    return [r[n:] for r in A]
class Gsl:
    def __init__(self): self.m = {}; self.n = 0; self.freed = set()
    def ov(self):
        def n_(m, n, st, fr): return [m.rv(a, st, fr) for a in n['a']]
        def i_(v):
            x = as_num(v)
            if x is None or x.denominator != 1: raise Undecided('index %s' % show(v)[:60])
            return int(x)
        def alloc(m, n, st, fr):
            a = [i_(x) for x in n_(m, n, st, fr)]; self.n += 1
            if len(a) != 2 or not 0 < a[0] < 60 or not 0 < a[1] < 60: raise Undecided('matrix of size %s' % a)
            self.m[self.n] = [[None] * a[1] for _ in range(a[0])]; return ('addr', (('mem', ('gsl', self.n)),))
        def mat(v):
            if v[0] != 'addr' or v[1][0][0] != 'mem' or v[1][0][1][0] != 'gsl': raise Undecided('matrix %s' % show(v)[:60])
            return v[1][0][1][1]
        def setall(m, n, st, fr):
            a = n_(m, n, st, fr); A = self.m[mat(a[0])]
            for r in A:
                for j in range(len(r)): r[j] = a[1]
            return VOID
        def zero(m, n, st, fr):
            for r in self.m[mat(n_(m, n, st, fr)[0])]:
                for j in range(len(r)): r[j] = ZERO
            return VOID
        def set_(m, n, st, fr):
            a = n_(m, n, st, fr); A = self.m[mat(a[0])]; i, j = i_(a[1]), i_(a[2])
            if not (0 <= i < len(A) and 0 <= j < len(A[0])): raise (V.Fault if st.sure else Undecided)('element %d,%d of a %dx%d matrix is written' % (i, j, len(A), len(A[0])))
            A[i][j] = a[3]; return VOID
        def get(m, n, st, fr):
            a = n_(m, n, st, fr); A = self.m[mat(a[0])]; i, j = i_(a[1]), i_(a[2])
            if not (0 <= i < len(A) and 0 <= j < len(A[0])) or A[i][j] is None: raise (V.Fault if st.sure else Undecided)('element %d,%d of a %dx%d matrix is read %s' % (i, j, len(A), len(A[0]), 'before it is set' if i < len(A) and j < len(A[0]) else ''))
            return A[i][j]
        def decomp(m, n, st, fr):
            a = n_(m, n, st, fr); A = self.m[mat(a[0])]
            if any(x is None for r in A for x in r): raise (V.Fault if st.sure else Undecided)('a matrix with unset elements is decomposed')
            if a[1][0] == 'app' and a[1][1] == 'gslperm' and as_num(a[1][2]) is not None and (as_num(a[1][2]) != len(A) or len(A) != len(A[0])): raise (V.Fault if st.sure else Undecided)('a %dx%d matrix is decomposed with a permutation of %s' % (len(A), len(A[0]), show(a[1][2])))
            return ZERO
        def invert(m, n, st, fr):
            a = n_(m, n, st, fr); A = self.m[mat(a[0])]; B = self.m[mat(a[2])]
            X = [[None if x is None else as_num(x) for x in r] for r in A]
            if any(x is None for r in X for x in r): raise Undecided('matrix with unknown elements')
            if st.sure and (len(A) != len(B) or len(A[0]) != len(B[0]) or len(A) != len(A[0])): raise V.Fault('a %dx%d matrix is inverted into a %dx%d matrix' % (len(A), len(A[0]), len(B), len(B[0])))
            try: Y = inverse(X)
            except Undecided as e:
                if 'singular' in str(e) and st.sure: raise V.Fault('a singular matrix is inverted')
                raise
            for r, s in zip(B, Y): r[:] = [('n', x) for x in s]
            return ZERO
        o = {'gsl_matrix_alloc': alloc, 'gsl_matrix_calloc': lambda m, n, st, fr: (lambda v: ([r.__setitem__(slice(None), [ZERO] * len(r)) for r in self.m[mat(v)]], v)[1])(alloc(m, n, st, fr)), 'gsl_matrix_set_all': setall, 'gsl_matrix_set_zero': zero, 'gsl_matrix_set': set_, 'gsl_matrix_get': get,
             'gsl_linalg_LU_decomp': decomp, 'gsl_linalg_LU_invert': invert, 'gsl_matrix_free': lambda *a: VOID, 'gsl_permutation_free': lambda *a: VOID, 'gsl_permutation_alloc': lambda m, n, st, fr: ('app', 'gslperm', m.rv(n['a'][0], st, fr))}
        return o
def val(t, env):
    k = t[0]
    if t in env: return env[t]
    if k == 'n': return t[1]
    if k == 'b': return t[1]
    if k == '+': return sum(val(x, env) for x in t[1:])
    if k == '*':
        r = Fr(1)
        for x in t[1:]: r *= val(x, env)
        return r
    if k == 'neg': return -val(t[1], env)
    if k == '/':
        d = val(t[2], env)
        if d == 0: raise Undecided('division by zero')
        return val(t[1], env) / d
    if k == '^':
        e = val(t[2], env) if isinstance(t[2], tuple) else Fr(t[2])
        if e.denominator != 1: raise Undecided('power')
        return val(t[1], env) ** int(e)
    if k == 'ite': return val(t[2], env) if val(t[1], env) else val(t[3], env)
    if k == '<': return val(t[1], env) < val(t[2], env)
    if k == '==': return val(t[1], env) == val(t[2], env)
    if k == 'and': return all(val(x, env) for x in t[1:])
    if k == 'or': return any(val(x, env) for x in t[1:])
    if k == 'not': return not val(t[1], env)
    if k == 'app' and t[1] == 'fmod' and len(t) == 4:
        a, b = val(t[2], env), val(t[3], env); q = abs(a) % abs(b); return q if a >= 0 else -q
    if k == 'app' and t[1] in ('floor', 'trunc') and len(t) == 3: return Fr(math.floor(val(t[2], env))) if t[1] == 'floor' else Fr(int(val(t[2], env)))
    if k == 'app' and t[1] == 'abs' and len(t) == 3: return abs(val(t[2], env))
    if k == 'obj' and t[1] == NS + 'Array':
        a, n = val(field(t, 'm_address'), env), val(field(t, 'm_size'), env)
        i = int(a) if n == -1 or 0 <= a < n else 0
        if ('points', i) not in env: raise Undecided('element %d' % i)
        return env['points', i]
    raise Undecided('term %s' % show(t)[:100])
def natural(y, h):
    n = len(y); M = [[Fr(0)] * n for _ in range(n)]; b = [Fr(0)] * n; M[0][0] = M[-1][-1] = Fr(1)
    for i in range(1, n - 1):
        M[i][i - 1] = M[i][i + 1] = Fr(1); M[i][i] = Fr(4); b[i] = 6 * (y[i + 1] - 2 * y[i] + y[i - 1]) / h ** 2
    I_ = inverse(M)
    return [sum(I_[i][j] * b[j] for j in range(n)) for i in range(n)]
def check(ctx):
    P = extract.load(SRC, extra_tus=TU)
    deep = ctx.tier == 'thorough'; rnd = random.Random(20240)
    def R(): return Fr(rnd.randint(-40, 40), rnd.randint(1, 9))
    def fn(q, test=None):
        r = [f for f in P.find(NS + q) if f.get('body') is not None and (test is None or test(f))]
        return r[0] if r else None
    def pt(f): return [p['t'] for p in f['p']]
    def need(f, w):
        if f is None: raise Undecided('%s not found' % w)
        return f
    def deed(name, f, g):
        if f is None: ctx.unknown(name, 'src/Spline.cpp', 'not found'); return
        ctx.saw('functions', f['q'])
        try: ok, why = g(f); ctx.decide(name, ok, where(f), why)
        except Undecided as e: ctx.unknown(name, where(f), e)
    def machine(extra): return Machine(P, den.overrides(extra), limit=60, max_unroll=200, budget=3000000, depth=40, hooks={'static_init': True, 'recur': 3})
    # ---- curvature
    ctor = fn('SplineTransfer::SplineTransfer', lambda f: len(f['p']) == 5); tr = fn('SplineTransfer::transfer')
    KN = range(3, 8 if deep else 7)
    def knots(N):
        g = Gsl(); log = []
        def setx(m, n, st, fr): log.append((m.rv(n['a'][1], st, fr), m.rv(n['a'][0], st, fr))); return VOID
        def mean(m, n, st, fr):
            p = m.objpath(n, st, fr)
            if p[0][0] == 'mem' and p[0][1][0] == 'sym': return ('sym', 'y_' + p[0][1][1])
            return None
        M = machine(dict(g.ov(), **{'AmpGen::CompiledExpressionBase::setExternal': setx, 'AmpGen::MinuitParameter::mean': mean}))
        o = M.function(ctor, [num(10), S('nm'), num(N), ('sym', 'min'), ('sym', 'max')])['this']
        ps = ('list',) + tuple(('addr', (('mem', ('sym', str(i))),)) for i in range(N))
        st2 = fn('SplineTransfer::set', lambda f: 'MinuitParameter' in pt(f)[1])
        for i in range(N):
            o = M.function(need(st2, 'set'), [num(i), ps[1 + i]], o)['this']
        M.function(tr, [('addr', (('mem', ('sym', 'dest')),))], o)
        out = {}
        for a, v in log:
            if a[0] != 'n': raise Undecided('slot %s' % show(a)[:60])
            out[int(a[1]) - 10] = v
        return out
    def curvature(f):
        k = 0
        for N in KN:
            slots = knots(N)
            for _ in range(3):
                y = [R() for _ in range(N)]; lo = R(); hi = lo + abs(R()) + Fr(1, 3); h = (hi - lo) / (N - 1); want = y + natural(y, h)
                env = {('sym', 'min'): lo, ('sym', 'max'): hi}; env.update({('sym', 'y_%d' % i): v for i, v in enumerate(y)})
                for i, w in enumerate(want):
                    if i not in slots: return False, 'slot %d of a spline with %d knots is not written' % (i, N)
                    v = val(slots[i], env); k += 1
                    if v != w: return False, '%s %d of a spline with %d knots is %s where the natural cubic spline has %s' % ('value' if i < N else 'curvature', i % N, N, float(v), float(w))
        return True, '%d coefficients' % k
    deed('the curvatures of the knots are those of the natural cubic spline', tr if ctor else None, curvature)
    # ---- evaluation
    sc = fn('Spline::Spline', lambda f: len(f['p']) == 4); ev = fn('Spline::operator()', lambda f: len(f['p']) == 2)
    def term(N):
        M = machine({}); o = M.function(need(sc, 'constructor'), [S('nm'), num(N), ('sym', 'min'), ('sym', 'max')])['this']
        r = M.function(ev, [('sym', 'x'), NULL], o)['ret']
        return field(r, 'm_eval') if r[0] == 'obj' else r
    def evaluation(f):
        k = 0
        for N in KN:
            t = term(N)
            for j in range(N - 1):
                for _ in range(6 if deep else 3):
                    y = [R() for _ in range(N)]; m = [R() for _ in range(N)]; lo = R(); hi = lo + abs(R()) + Fr(1, 3); h = (hi - lo) / (N - 1); s = Fr(rnd.randint(1, 98), 99); x = lo + h * (j + s); d = h * s
                    env = {('sym', 'min'): lo, ('sym', 'max'): hi, ('sym', 'x'): x}; env.update({('points', i): v for i, v in enumerate(y + m)})
                    v = val(t, env); k += 1
                    w = y[j] + ((y[j + 1] - y[j]) / h - h * (2 * m[j] + m[j + 1]) / 6) * d + m[j] * d * d / 2 + (m[j + 1] - m[j]) * d ** 3 / (6 * h)
                    if v != w: return False, 'in bin %d of a spline with %d knots the expression is not the cubic through its knots (%s instead of %s)' % (j, N, float(v), float(w))
            lo, hi = Fr(1), Fr(3); y = [R() for _ in range(2 * N)]
            for x in (hi, hi + 1):
                env = {('sym', 'min'): lo, ('sym', 'max'): hi, ('sym', 'x'): x}; env.update({('points', i): v for i, v in enumerate(y)})
                k += 1
                if val(t, env) != y[N - 1]: return False, 'at and beyond the last knot of a spline with %d knots the value is not that of the last knot' % N
        return True, '%d points' % k
    deed('the spline is the cubic with the values and curvatures of its knots', ev, evaluation)
    # ---- resolution of the knots
    rs = fn('ASTResolver::resolve', lambda f: 'Spline' in pt(f)[0])
    def resolved(f):
        k = 0
        for N in (3, 5):
            sets = []; fnd = []
            def find(m, n, st, fr):
                v = m.rv(n['a'][0], st, fr); fnd.append(v); return ('addr', (('mem', ('sym', 'par:' + v[1] if v[0] == 's' else '?')),))
            def setp(m, n, st, fr): sets.append((m.rv(n['a'][0], st, fr), m.rv(n['a'][1], st, fr))); return VOID
            alloc = []
            def cache(m, n, st, fr): alloc.append([m.rv(a, st, fr) for a in n['a']]); return num(40)
            M = machine({'AmpGen::MinuitParameterSet::find': find, 'AmpGen::SplineTransfer::set': setp, 'AmpGen::ASTResolver::addCacheFunction': cache, 'AmpGen::ASTResolver::addResolvedParameter': lambda *a: VOID})
            o = M.function(need(sc, 'constructor'), [S('R::Spline::FF'), num(N), ('sym', 'min'), ('sym', 'max')])['this']
            root = ('mem', ('new', NS + 'Spline', 910000)); rr = ('mem', ('new', NS + 'ASTResolver', 910001))
            this = ('obj', NS + 'ASTResolver', tuple(sorted((x['n'], ('emptymap',) if 'map' in x['t'] else ('addr', (('mem', ('sym', 'mps')),)) if x['n'] == 'm_mps' else ('sym', x['n'])) for x in P.records[NS + 'ASTResolver']['fields'])))
            M.function(f, [o], this, mem={root: o})
            if len(alloc) != 1 or alloc[0] != [S('R::Spline::FF'), num(N), ('sym', 'min'), ('sym', 'max')]: raise Undecided('block %s' % [show(x) for a in alloc for x in a])
            got = {int(i[1]) if i[0] == 'n' else None: v for i, v in sets}
            for i in range(N):
                if got.get(i) != ('addr', (('mem', ('sym', 'par:R::Spline::FF::%d' % i)),)):
                    if i not in got: return False, 'knot %d of %d has no parameter' % (i, N)
                    if got[i][0] != 'addr': raise Undecided('knot %s' % show(got[i])[:60])
                    return False, 'knot %d is the parameter %s' % (i, show(got[i]))
                k += 1
        return True, '%d knots' % k
    deed('knot i of a spline is the parameter ::i', rs, resolved)
    # ---- Pade
    for N in (1, 2, 4):
        q = NS + 'Pade<%d>' % N
        cs = [f for f in P.fns.values() if f.get('body') and not f.get('dep') and f.get('fk') == 'ctor' and f['q'].startswith(NS + 'Pade<%d' % N)]
        cf = next((f for f in cs if 'function' in pt(f)[0]), None)
        op = next((f for f in P.fns.values() if f.get('body') and not f.get('dep') and f['q'].startswith(NS + 'Pade<%d' % N) and f['n'] == 'operator()' and 'double' in pt(f)[0]), None)
        def pade(f, N=N, op=op):
            k = 0
            for strat, lo, hi in ((0, Fr(0), Fr(1)), (0, Fr(1, 3), Fr(9, 2)), (1, Fr(-2), Fr(3)), (2, Fr(1), Fr(2)), (3, Fr(0), Fr(5))):
                g = Gsl(); seen = {}
                def fcn(m, n, st, fr):
                    v = as_num(m.rv(n['a'][-1], st, fr))
                    if v is None: raise Undecided('the function is called at %s' % show(m.rv(n['a'][-1], st, fr))[:60])
                    return ('n', seen.setdefault(v, R()))
                M = machine(dict(g.ov(), **{'std::function::operator()': fcn}))
                o = M.function(f, [('sym', 'fcn'), ('n', lo), ('n', hi), ('enum', NS + 'Strategy', ['linear', 'quadratic', 'cubic', 'quartic'][strat], strat)])['this']
                if len(seen) != 2 * N + 1: return False, 'the function is sampled at %d points' % len(seen)
                if lo not in seen or hi not in seen: return False, 'the ends of the range [%s,%s] are not among the nodes' % (float(lo), float(hi))
                for x, y in sorted(seen.items()):
                    if not lo <= x <= hi: return False, 'the function is sampled at %s outside [%s,%s]' % (float(x), float(lo), float(hi))
                    v = M.function(need(op, 'operator()'), [('n', x)], o)['ret']; k += 1
                    if v[0] != 'n': raise Undecided('value %s' % show(v)[:80])
                    if v[1] != y: return False, 'at the node %s the approximant is %s, the function %s' % (float(x), float(v[1]), float(y))
            return True, '%d nodes' % k
        deed('a Pade approximant of degree %d equals the function at its nodes' % N, cf, pade)
        cvec = next((f for f in cs if 'vector' in pt(f)[0]), None)
        def coeffs(f, N=N, op=op):
            M = machine({}); r = [R() for _ in range(2 * N + 1)]; lo, hi = Fr(1, 2), Fr(7, 2)
            o = M.function(f, [('list',) + tuple(('n', x) for x in r), ('n', lo), ('n', hi)])['this']
            for _ in range(2 * N + 2):
                s = R(); x = (s - lo) / (hi - lo); v = M.function(need(op, 'operator()'), [('n', s)], o)['ret']
                if v[0] != 'n': raise Undecided('value %s' % show(v)[:80])
                if v[1] != sum(r[i] * x ** i for i in range(N + 1)) / (1 + sum(r[N + i] * x ** i for i in range(1, N + 1))): return False, 'the approximant with the given coefficients is wrong at %s' % float(s)
            return True, '%d points' % (2 * N + 2)
        deed('a Pade approximant of degree %d is the ratio of its polynomials' % N, cvec, coeffs)
        oe = next((f for f in P.fns.values() if f.get('body') and not f.get('dep') and f['q'].startswith(NS + 'Pade<%d' % N) and f['n'] == 'operator()' and 'Expression' in pt(f)[0]), None)
        if N == 1: continue
        def pexpr(f, N=N, op=op):
            fs = [x for x in P.records if x.startswith(NS + 'Pade<%d' % N)]
            o = ('obj', fs[0] if fs else NS + 'Pade', (('co_f', ('list',) + tuple(('n', R()) for _ in range(N + 1))), ('co_g', ('list',) + tuple(('n', R()) for _ in range(N))), ('m_function', ('sym', 'f')), ('max', ('n', Fr(7, 2))), ('min', ('n', Fr(1, 2))), ('range', ('n', Fr(1, 3)))))
            M = machine({}); t = M.function(f, [('sym', 'x')], o)['ret']
            for _ in range(2 * N + 2):
                x = R(); w = M.function(need(op, 'operator()'), [('n', x)], o)['ret']
                if w[0] != 'n': raise Undecided('value %s' % show(w)[:80])
                v = val(t, {('sym', 'x'): x})
                if v != w[1]: return False, 'the expression of the approximant differs from its value at %s' % float(x)
            return True, '%d points' % (2 * N + 2)
        deed('the expression of a Pade approximant of degree %d equals its value' % N, oe, pexpr)
    # ---- configuration
    gs = fn('getSpline')
    def config(f):
        for vec in (True, False):
            made = []
            def np(m, n, st, fr): return ('app', 'np', m.rv(n['a'][0], st, fr))
            def vecof(m, n, st, fr):
                v = m.rv(n['o'], st, fr)
                if v == ('app', 'np', S('nm::Spline')): return ('list', num(7), ('sym', 'lo'), ('sym', 'hi')) if vec else ('list', ZERO)
                return ('list', v)
            keep = lambda m, n, st, fr: m.rv(n['o'], st, fr)
            def sp(m, n, st, fr): made.append([m.rv(a, st, fr) for a in n['a']]); return ('obj', 'AmpGen::Spline', ())
            def call(m, n, st, fr):
                aa = list(n['a'])
                if n.get('o') is not None: m.rv(n['o'], st, fr)
                else: m.rv(aa.pop(0), st, fr)
                return ('app', 'spline', m.rv(aa[0], st, fr))
            M = machine({'ctor:AmpGen::NamedParameter': np, 'AmpGen::NamedParameter::getVector': vecof, 'AmpGen::NamedParameter::operator double': keep, 'AmpGen::NamedParameter::operator T': keep, 'AmpGen::NamedParameter::getVal': keep,
                         'AmpGen::NamedParameter::operator const T &': keep, 'AmpGen::NamedParameter::operator const double &': keep, 'ctor:AmpGen::Spline': sp, 'AmpGen::Spline::operator()': call})
            r = M.function(f, [S('nm'), ('sym', 'x'), S('arr'), NULL, FALSE])['ret']
            if len(made) != 1 or len(made[0]) != 4: raise Undecided('spline not found %d %s' % (len(made), [len(x) for x in made]))
            want = [S('nm::Spline::arr')] + ([num(7), ('sym', 'lo'), ('sym', 'hi')] if vec else [('app', 'np', S('nm::Spline::' + k)) for k in ('N', 'Min', 'Max')])
            got = [trunc0(x) for x in made[0]]
            if got != want:
                if any(not plain(x) for x in got): raise Undecided('arguments %s' % [show(x)[:60] for x in got])
                return False, 'made from (%s) with %s' % (', '.join(show(x) for x in got), 'nm::Spline 7 lo hi' if vec else 'nm::Spline::N, ::Min, ::Max')
            if r != ('app', 'spline', ('sym', 'x')): raise Undecided('result %s' % show(r)[:60])
        return True, ''
    def trunc0(x): return x[2] if x[0] == 'app' and x[1] in ('trunc', 'toint') and len(x) == 3 else x
    def plain(x): return x[0] in ('n', 'sym', 's') or x[0] == 'app' and x[1] == 'np' and x[2][0] == 's' or x[0] == 'uninit'
    deed('a spline is configured from its options', gs, config)
    ic = fn('SplineTransfer::isConfigured')
    def conf(f):
        M = machine({}); A = [('addr', (('mem', ('new', 'AmpGen::MinuitParameter', num(i))),)) for i in range(3)]
        for miss in (None, 0, 1, 2):
            r = M.function(f, [], ('with', ('sym', 'this'), 'm_parameters', ('list',) + tuple(NULL if i == miss else A[i] for i in range(3))))['ret']
            if r[0] != 'b': raise Undecided(show(r)[:80])
            if r[1] != (miss is None): return False, 'says %s with knot %s missing' % (r[1], miss)
        return True, ''
    deed('a spline is configured when every knot is', ic, conf)
