"""Sums and cubature.  Compensated sums are abstracted with a fresh symbol for the rounding error of every addition (exact where Fast2Sum is): to first order no rounding error may be left in
sum + correction, whichever term is larger.  A cubature rule is abstracted with the integrand uninterpreted: the points and weights of the resulting linear form must integrate every monomial up to the
degree of the rule over the region."""
from ..value import *
from .. import extract, den
from ..run import where
from ..tensors import field
from .S01 import intrinsics, lanes, RV, L, TU, BOOL
import time, itertools
from math import comb, prod
ASSUMPTIONS = ['additions round to nearest; x - (x + y) is exact if |x| >= |y|', 'the vector instructions compute what their documentation says']
NS = 'AmpGen::'
TINY = Fr(1, 2 ** 53)
class Rounding:
    """linear forms over data symbols and rounding errors, each with a size"""
    def __init__(self, size): self.size = dict(size); self.k = 0; self.made = {}
    def lin(self, t):
        if t[0] == 'n': return {(): t[1]} if t[1] else {}
        if t[0] == 'sym': return {t[1]: Fr(1)}
        if t[0] == 'neg': return {k: -v for k, v in self.lin(t[1]).items()}
        if t[0] == '/' and t[2][0] == 'n' and t[2][1]: return {k: v / t[2][1] for k, v in self.lin(t[1]).items()}
        if t[0] == '+':
            r = {}
            for x in t[1:]:
                for k, v in self.lin(x).items(): r[k] = r.get(k, 0) + v
            return {k: v for k, v in r.items() if v}
        if t[0] == '*':
            r = {(): Fr(1)}
            for x in t[1:]:
                a = self.lin(x)
                if set(a) <= {()}: r = {k: v * a.get((), 0) for k, v in r.items() if v * a.get((), 0)}
                elif set(r) <= {()}: r = {k: v * r.get((), 0) for k, v in a.items() if v * r.get((), 0)}
                else: raise Undecided('not a sum (%s): %s' % (t[0], show(t)[:80]))
            return r
        raise Undecided('not a sum (%s): %s' % (t[0], show(t)[:80]))
    def term(self, l):
        r = ZERO
        for k in sorted(l, key=str): r = add(r, ('n', l[k]) if k == () else ('sym', k) if l[k] == 1 else mul(('n', l[k]), ('sym', k)))
        return r
    def value(self, l): return sum((v * (1 if k == () else self.size[k]) for k, v in l.items()), Fr(0))
    def plus(self, a, b, s=1):
        x, y = self.lin(a), {k: s * v for k, v in self.lin(b).items()}
        r = dict(x)
        for k, v in y.items(): r[k] = r.get(k, 0) + v
        r = {k: v for k, v in r.items() if v}
        if not x or not y or not r: return self.term(r)
        if len(r) == 1 and next(iter(r)) in self.made: return self.term(r)        # a rounding error alone is representable
        for p, q in ((x, y), (y, x)):                                             # p - fl(p + o), |p| >= |o|
            for e, (u, w) in self.made.items():
                t = {k: u.get(k, 0) + w.get(k, 0) for k in set(u) | set(w)}; t[e] = t.get(e, 0) + 1; t = {k: v for k, v in t.items() if v}
                for sg in (1, -1):
                    if {k: sg * v for k, v in q.items()} != {k: -v for k, v in t.items()}: continue
                    pp = {k: sg * v for k, v in p.items()}
                    if pp == u and abs(self.value(u)) >= abs(self.value(w)) or pp == w and abs(self.value(w)) >= abs(self.value(u)): return self.term(r)
        self.k += 1; e = 'eps%d' % self.k
        self.size[e] = abs(self.value(r)) * TINY * Fr(7 + self.k, 23); self.made[e] = (x, y)
        r[e] = Fr(1)
        return self.term(r)
class Floating(Machine):
    def cmp(self, op, a, b):
        if a[0] in ('n', 'sym', '+', '*', 'neg') and b[0] in ('n', 'sym', '+', '*', 'neg'):
            try: x, y = (self.rounding.value(self.rounding.lin(t)) for t in (a, b))
            except (Undecided, KeyError): return Machine.cmp(self, op, a, b)
            return Machine.cmp(self, op, ('n', x), ('n', y))
        return Machine.cmp(self, op, a, b)
    def arith(self, op, a, b, t, ta='', tb=''):
        if is_float(t) and op in '+-' and a[0] in ('n', 'sym', '+', '*') and b[0] in ('n', 'sym', '+', '*'): return self.rounding.plus(a, b, 1 if op == '+' else -1)
        return Machine.arith(self, op, a, b, t, ta, tb)
def check(ctx):
    P = extract.load([], extra_tus=TU, extra_flags=('-UUSE_MVEC', '-DUSE_MVEC=1'))
    if P.skipped: raise Undecided('the sources do not parse: %s' % P.skipped[0][1][:200])
    sums(ctx, P); rules(ctx, P)
def fns(P, q): return [f for f in P.find(q) if f.get('body') is not None]
def sums(ctx, P):
    sizes = [dict(zip('SCvw', (Fr(s[0]), Fr(s[0]) * TINY * Fr(1, 3), Fr(s[1]), Fr(s[2])))) for s in ((7, 2, 3), (2, 7, 5), (-9, 2, 100), (3, -5, 1), (-2, -11, 4), (Fr(1, 1000), 900, -800), (5, 5, -5), (4, -3, 1000))]
    def machine(size):
        R = Rounding(size)
        ov = intrinsics(1)
        def ab(m, n, st, fr):
            v = m.rv(n['a'][0], st, fr); return ('n', abs(R.value(R.lin(v))))
        for q in ('std::abs', 'std::fabs', 'fabs', 'abs'): ov[q] = ab
        def lw(k, g):
            def h(m, n, st, fr): return ('list',) + tuple(g(*x) for x in zip(*[lanes(m.rv(a, st, fr)) for a in n['a'][:k]]))
            return h
        ov['_mm256_add_pd'] = lw(2, R.plus); ov['_mm256_sub_pd'] = lw(2, lambda a, b: R.plus(a, b, -1))
        o2 = ov['_mm256_andnot_pd']
        def andn(m, n, st, fr):
            v = o2(m, n, st, fr)
            return ('list',) + tuple(('n', abs(R.value(R.lin(x[2])))) if x[0] == 'app' and x[1] == 'abs' else x for x in v[1:])
        ov['_mm256_andnot_pd'] = andn
        for k in list(ov):
            if k.startswith('_'): ov[NS + 'AVX2d::' + k] = ov[k]
        m = Floating(P, ov, limit=60, max_unroll=40, budget=500000, depth=40, hooks={'static_init': True, 'recur': 3}); m.rounding = R
        return m, R
    def left(R, parts, want, final=()):
        """what of parts differs from want"""
        r = {}
        for p in parts:
            for k, v in R.lin(p).items(): r[k] = r.get(k, 0) + v
        for k in want: r[k] = r.get(k, 0) - 1
        return {k: v for k, v in r.items() if v}
    def deed(name, f, g):
        if f is None: ctx.unknown(name, 'AmpGen/KahanSum.h', 'not found'); return
        ctx.saw('functions', f['q'] + ('<vector>' if 'vector' in name else ''))
        try:
            for z in sizes:
                m, R = machine(z); m.deadline = time.time() + 60
                bad = g(f, m, R)
                if bad: ctx.decide(name, False, where(f), '%s (magnitudes %s)' % (bad, ', '.join('%s=%.3g' % (k, float(v)) for k, v in z.items()))); return
            ctx.decide(name, True, where(f), '%d orderings' % len(sizes))
        except Undecided as e: ctx.unknown(name, where(f), e)
    def text(l): return ' + '.join('%s*%s' % (v, 'rounding error' if str(k).startswith('eps') else k) for k, v in l.items())
    one = lambda v: v
    for T, wrap, un in (('double', one, lambda v: [v]), ('vector', lambda v: ('obj', RV, (('data', ('list',) + (v,) * L),)), lanes)):
        sel = lambda q, np: next((f for f in fns(P, q) if len(f['p']) == np and (('real_v' in (f.get('cls') or '') + str([p['t'] for p in f['p']])) == (T == 'vector'))), None)
        K = NS + 'KahanSum'
        cands = [f for f in fns(P, K + '::operator+=')]
        pick = lambda fs, want: next((f for f in fs if ('real_v' in f['p'][0]['t']) == want), None)
        obj = lambda: ('obj', K, (('cor', wrap(sym('C'))), ('sum', wrap(sym('S')))))
        def upd(f, m, R, plus=False):
            if plus: r = m.function(f, [obj(), wrap(sym('v'))])['ret']
            else: r = m.function(f, [wrap(sym('v'))], obj())['this']
            for s, c in zip(un(field(r, 'sum')), un(field(r, 'cor'))):
                l = left(R, [s, c], ['S', 'C', 'v'])
                if any(not str(k).startswith('eps') for k in l) or abs(R.value(l)) > max(abs(R.size['S']), abs(R.size['v'])) * TINY * TINY * 64: return 'sum + correction exceeds the terms by %s' % text(l)
                if abs(R.value(R.lin(c))) > max(abs(R.size['S']), abs(R.size['v'])) * TINY * 16: return 'the correction %s is not small' % show(c)[:80]
        deed('a compensated sum of %s terms loses no rounding error (+=)' % T, pick(cands, T == 'vector'), upd)
        if T == 'double':
            def fresh(f, m, R):
                r = m.function(f, [obj(), sym('v')])['ret']
                return upd(f, m, R, True)
            pl = [f for f in fns(P, NS + 'operator+') if len(f['p']) == 2 and 'KahanSum' in f['p'][0]['t']]
            deed('a compensated sum of %s terms loses no rounding error (+)' % T, pl[0] if pl else None, lambda f, m, R: upd(f, m, R, True))
        val = [f for f in fns(P, K + '::operator()') if not f['p']]
        def value(f, m, R):
            r = m.function(f, [], obj())['ret']
            for v in un(r):
                l = left(R, [v], ['S', 'C']); k = [x for x in l if str(x).startswith('eps')]
                if set(l) != set(k) or len(k) > 1: return 'the value differs from sum + correction by %s' % text(l)
        fv = next((f for f in val if ('real_v' in (f.get('rt') or '')) == (T == 'vector')), None)
        deed('the value of a compensated sum of %s terms includes its correction' % T, fv, value)
    kb = next(iter(fns(P, NS + 'KahanBabushkaKleinSum')), None)
    def klein(f, m, R):
        for ts in ((7, 2, 3), (2, -7, 5, 11, -3), (1, Fr(1, 2 ** 120), 3, Fr(1, 2 ** 125), -4, 0), (5, -5, 3, Fr(1, 2 ** 130), -3), (1, 9, Fr(1, 2 ** 120), -6, 7, -11)):
            R = m.rounding = Rounding({'t%d' % i: Fr(x) for i, x in enumerate(ts)}); m.ov.update({q: (lambda m, n, st, fr: ('n', abs(R.value(R.lin(m.rv(n['a'][0], st, fr)))))) for q in ('std::abs', 'std::fabs', 'fabs', 'abs')})
            r = m.function(f, [('list',) + tuple(sym('t%d' % i) for i in range(len(ts)))])['ret']
            l = left(R, [r], ['t%d' % i for i in range(len(ts))])
            other = [k for k in l if not str(k).startswith('eps')]
            if other: return 'the sum is off by %s' % text({k: l[k] for k in other})
            bound = abs(R.value({'t%d' % i: Fr(1) for i in range(len(ts))})) * TINY * 3 + max(abs(Fr(x)) for x in ts) * TINY ** 3 * 1000
            if abs(R.value(l)) > bound: return 'the sum of %s is off by %s, %.3g of the largest term' % (', '.join('%.3g' % float(x) for x in ts), text(l)[:80], float(abs(R.value(l)) / max(abs(Fr(x)) for x in ts)))
    deed('a twice compensated sum loses no rounding error', kb, klein)
def rules(ctx, P):
    C = {}
    Mx = Machine(P, intrinsics(1), limit=120, max_unroll=80, budget=3000000, depth=40, hooks={'static_init': True, 'recur': 3})
    root = [0]
    def moments(pts, deg, n):
        """first monomial integrated wrongly: pts [(point in units of the half width, weight)] over [-1,1]^n normalised to one"""
        for e in itertools.product(range(deg + 1), repeat=n):
            if sum(e) > deg: continue
            got = sum((w * prod((x[i] ** k for i, k in enumerate(e) if k), start=Fr(1)) for x, w in pts), Fr(0))
            want = prod((Fr(0) if k % 2 else Fr(1, k + 1) for k in e), start=Fr(1))
            if abs(got - want) > Fr(1, 10 ** 12): return 'the monomial with powers %s gives %.12g instead of %.12g' % (list(e), float(got), float(want))
    for dim in (2, 3, 4):
        for kind in ('scalar', 'vector'):
            q = NS + ('integrate_fp_scalar' if kind == 'scalar' else 'integrate_fp')
            f = next((f for f in fns(P, q) if len(f['p']) == 3 and '%d' % dim in f['p'][1]['t'].split(',')[-1] and ('VectorFunction' in f['p'][0]['t']) == (kind == 'vector')), None)
            name = 'the %s cubature rule in %d dimensions' % (kind, dim)
            if f is None: ctx.unknown(name, 'AmpGen/simd/integrate_fp.h', 'not found'); continue
            ctx.saw('functions', '%s<%d>' % (q, dim))
            ctr = [Fr(3, 7), Fr(-5, 3), Fr(2, 11), Fr(13, 5)][:dim]; wth = [Fr(2, 3), Fr(7, 5), Fr(1, 9), Fr(4, 3)][:dim]
            table = {}
            def F(m, n, st, fr):
                z = m.rv(n['a'][-1], st, fr)
                if z[0] != 'list' or len(z) != dim + 1: raise Undecided('point %s' % show(z)[:80])
                def at(p):
                    p = tuple(as_num(x) for x in p)
                    if None in p: raise Undecided('point %s' % show(z)[:80])
                    return ('sym', table.setdefault(p, 'F%d' % len(table)))
                if kind == 'scalar': return at(z[1:])
                ls = [lanes(x) for x in z[1:]]
                return ('obj', RV, (('data', ('list',) + tuple(at([l[i] for l in ls]) for i in range(L))),))
            Mx.ov = dict(intrinsics(1))
            for nm in ('ScalarFunction', 'VectorFunction'): Mx.ov[nm + '::operator()'] = F
            try:
                Mx.budget = 3000000; Mx.deadline = time.time() + 100
                fobj = sym('INTEGRAND')
                r = Mx.function(f, [fobj, ('list',) + tuple(('n', x) for x in ctr), ('list',) + tuple(('n', x) for x in wth)])['ret']
                if r[0] != 'list' or len(r) != 4: raise Undecided('result %s' % show(r)[:80])
                R = Rounding({})
                vol = prod((2 * x for x in wth), start=Fr(1))
                inv = {v: k for k, v in table.items()}
                def points(t): return [(tuple((x - c) / w for x, c, w in zip(inv[k], ctr, wth)), v / vol) for k, v in R.lin(t).items()]
                val = points(r[1])
                bad = moments(val, 7, dim)
                ctx.decide(name + ' is exact to degree 7', bad is None, where(f), bad or '%d points' % len(val))
                err = r[2]
                if err[0] != 'app' or err[1] != 'abs': raise Undecided('error estimate %s' % show(err)[:80])
                dif = R.lin(err[2]); own = R.lin(r[1])
                for sg in (1, -1):
                    cmpn = {k: own.get(k, 0) - sg * dif.get(k, 0) for k in set(own) | set(dif)}
                    bad = moments(points(R.term(cmpn)), 5, dim)
                    if bad is None: break
                ctx.decide(name + ' estimates its error with a rule of degree 5', bad is None, where(f), bad or '')
                # the axis along which the fourth difference is largest
                bad = None
                for ax in range(dim):
                    for curv in (10, -10):
                        def fun(p): return sum(((curv if i == ax else 1) * ((x - c) / w) ** 4 for i, (x, c, w) in enumerate(zip(p, ctr, wth))), Fr(0))
                        got = fold(r[3], {('sym', k): ('n', fun(p)) for k, p in [(v, k) for k, v in table.items()]})
                        if got[0] != 'n': raise Undecided('axis %s' % show(got)[:80])
                        if got[1] != ax: bad = 'axis %s is chosen although axis %d varies most' % (got[1], ax); break
                    if bad: break
                ctx.decide(name + ' divides the axis with the largest fourth difference', bad is None, where(f), bad or '')
            except Undecided as e: ctx.unknown(name, where(f), e)
    # tables of weights in every dimension
    tabs = {}
    for nm in ('xl2', 'xl4', 'xl5', 'w2', 'w4', 'wp2', 'wp4', 'wn1', 'wn3', 'wn5', 'wpn1', 'wpn3'):
        v = Mx.global_value(('g', NS + 'integrate_fp_constants::' + nm))
        if v is None: ctx.unknown('weights in every dimension', 'AmpGen/simd/integrate_fp.h', '%s has no value' % nm); break
        tabs[nm] = v[1] if v[0] == 'n' else [x[1] if x[0] == 'n' else None for x in v[1:]] if v[0] == 'list' else None
    if len(tabs) == 12 and all(v is not None and (not isinstance(v, list) or None not in v) for v in tabs.values()):
        for i in range(min(len(tabs['wn1']), len(tabs['wn3']), len(tabs['wn5']), len(tabs['wpn1']), len(tabs['wpn3']))):
            n = i + 2
            def mom(e, w1, w2, w3, w4, w5):
                """generators: centre, +-l2 e_i, +-l4 e_i, +-l4 e_i +-l4 e_j, (+-l5)^n"""
                k = sorted((x for x in e if x), reverse=True)
                a, b, c = tabs['xl2'], tabs['xl4'], tabs['xl5']
                if not k: return w1 + 2 * n * w2 + 2 * n * w3 + 2 * n * (n - 1) * w4 + 2 ** n * w5
                r = Fr(0)
                if len(k) == 1: r += 2 * w2 * a ** k[0] + 2 * w3 * b ** k[0] + 4 * (n - 1) * w4 * b ** k[0]
                if len(k) == 2: r += 4 * w4 * b ** sum(k)
                return r + 2 ** n * w5 * c ** sum(k)
            bad = None
            for deg, ws, label in ((7, (tabs['wn1'][i], tabs['w2'], tabs['wn3'][i], tabs['w4'], tabs['wn5'][i]), 'rule'), (5, (tabs['wpn1'][i], tabs['wp2'], tabs['wpn3'][i], tabs['wp4'], Fr(0)), 'error rule')):
                for e in ((0,), (2,), (4,), (2, 2), (6,), (4, 2), (2, 2, 2)):
                    if sum(e) > deg or len(e) > n: continue
                    got = mom(e, *ws); want = prod((Fr(1, x + 1) for x in e), start=Fr(1))
                    if abs(got - want) > Fr(1, 10 ** 14): bad = '%s in %d dimensions: the monomial with powers %s gives %.12g instead of %.12g' % (label, n, list(e), float(got), float(want)); break
                if bad: break
            ctx.decide('the weights for %d dimensions are those of the Genz-Malik rule' % n, bad is None, 'AmpGen/simd/integrate_fp.h', bad or '')
    elif len(tabs) == 12: ctx.unknown('weights in every dimension', 'AmpGen/simd/integrate_fp.h', 'not numbers')
    f1 = next((f for f in fns(P, NS + 'integrate') if 'LineFunction' in f['p'][0]['t']), None)
    if f1 is not None:
        Mx.ov = {NS + 'integrate_1d': lambda m, n, st, fr: ('app', 'quadrature') + tuple(m.rv(x, st, fr) for x in n['a'][1:3])}
        try:
            Mx.budget = 100000; Mx.deadline = time.time() + 30
            r = Mx.function(f1, [sym('F'), ('list', sym('lo')), ('list', sym('hi'))])['ret']
            ok = True if r == ('app', 'quadrature', sym('lo'), sym('hi')) else False if r[0] == 'n' or r[:2] == ('app', 'quadrature') else None
            ctx.decide('the integral in one dimension is the quadrature of the integrand', ok, where(f1), 'the result is %s' % show(r)[:80])
        except Undecided as e: ctx.unknown('the integral in one dimension is the quadrature of the integrand', where(f1), e)
def fold(t, e):
    if t in e: return e[t]
    if not isinstance(t, tuple) or not t or t[0] in ('sym', 'n', 'b'): return t
    t = (t[0],) + tuple(fold(x, e) if isinstance(x, tuple) else x for x in t[1:])
    if t[0] == 'app' and t[1] == 'abs' and t[2][0] == 'n': return ('n', abs(t[2][1]))
    g = {'ite': lambda: ite(*t[1:]), '==': lambda: cmp_('==', *t[1:]), '<': lambda: cmp_('<', *t[1:]), 'not': lambda: bnot(t[1]), 'and': lambda: band(*t[1:]), 'or': lambda: bor(*t[1:])}.get(t[0])
    if g: return g()
    if t[0] in '+*':
        r = t[1]
        for x in t[2:]: r = add(r, x) if t[0] == '+' else mul(r, x)
        return r
    return t
