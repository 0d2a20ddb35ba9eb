"""Tensor algebra.  Tensor operations are abstracted on tensors of symbolic elements (ranks 0-4, extents up to 4); every element of the result is
compared in normal form with the index expression it stands for (row-major addressing, element-wise sums, Einstein contraction with metric
(-,-,-,+), symmetry of symmetrised slots, inverse times matrix = 1)."""
from ..value import *
from .. import extract, den, value as V
from ..run import where
from ..tensors import *
from ..numw import agree
from fractions import Fraction as Fr

ASSUMPTIONS = ['exact arithmetic (rounding ignored)', 'the expression layer has the meaning established by X01 and X02', 'tensor operands of matching extents (mismatches are reported at run time)']
T, I_, E_ = 'Tensor', 'Tensor::Index', 'Expression'

def check(ctx):
    P = extract.load(['src/Tensor.cpp'])
    ov = den.overrides({})
    K = 600 if ctx.tier == 'quick' else 4000
    def run(f, args, this=None):
        ctx.saw('functions', f['q'])
        return Machine(P, ov, limit=700).function(f, args, this)
    def one(q, types=None, n=None):
        fs = find(P, q, types, n)
        if not fs: ctx.unknown(q, q, 'not found')
        return fs[0] if fs else None
    def elements(name, f, got, dim, want, uniq=None):
        """all elements of got equal want[c]"""
        gd, ge = read(got)
        if gd != list(dim): ctx.decide(name, False, where(f), 'extents %s instead of %s' % (gd, list(dim))); return
        if ge is None: ctx.decide(name, False, where(f), 'elements and extents disagree'); return
        verdict, why = True, ''
        for c in coords(dim):
            ok, w = agree(ge[c], want[c])
            if ok is False: verdict, why = False, 'element %s is %s instead of %s' % (list(c), show(ge[c])[:120], show(want[c])[:120]); break
            if ok is None: verdict, why = None, w
        ctx.decide(name, verdict, where(f), why)
    def attempt(name, f, g):
        if f is None: return
        try: g()
        except Undecided as e: ctx.unknown(name, where(f), e)

    # ---- addressing
    dims = [[3], [2, 3], [4, 4], [2, 3, 4], [3, 2, 2, 2], [4, 4, 4, 4], []]
    fi, fc = one('AmpGen::Tensor::index_to_coordinates'), one('AmpGen::Tensor::coordinates_to_index')
    for d in dims:
        dv = ('list',) + tuple(num(x) for x in d)
        cs = coords(d)
        pick = range(len(cs)) if len(cs) < 40 else range(0, len(cs), 7)
        def a(): 
            bad = None
            for i in pick:
                v = run(fi, [num(i), dv])['ret']
                if ints(v) != list(cs[i]): bad = 'index %d of extents %s has coordinates %s, not %s' % (i, d, ints(v), list(cs[i])); break
            ctx.decide('coordinates of an index, extents %s' % d, bad is None, where(fi), bad or '')
        def b():
            bad = None
            for i in pick:
                v = as_num(run(fc, [('list',) + tuple(num(x) for x in cs[i]), dv])['ret'])
                if v is None: raise Undecided('index')
                if v != i: bad = 'coordinates %s of extents %s have index %s, not %d' % (list(cs[i]), d, v, i); break
            ctx.decide('index of coordinates, extents %s' % d, bad is None, where(fc), bad or '')
        attempt('coordinates of an index', fi, a); attempt('index of coordinates', fc, b)
    # ---- construction
    f = next((g for g in P.find('AmpGen::Tensor::Tensor') if [p['t'] for p in g['p']] == ['const std::vector<unsigned int> &']), None)
    for d in dims:
        def g(): elements('zero tensor of extents %s' % d, f, run(f, [('list',) + tuple(num(x) for x in d)])['this'], d, {c: ZERO for c in coords(d)})
        attempt('zero tensor', f, g)
    f = next((g for g in P.find('AmpGen::Tensor::Tensor') if [p['t'].replace('AmpGen::', '') for p in g['p']] == ['const std::vector<Expression> &']), None)
    def g(): elements('vector from its elements', f, run(f, [('list', sym('a'), sym('b'), sym('c'))])['this'], [3], {(0,): sym('a'), (1,): sym('b'), (2,): sym('c')})
    attempt('vector from its elements', f, g)
    for q in ('nElements', 'size'):
        f = one('AmpGen::Tensor::' + q)
        for d in dims:
            if q == 'nElements' or d:
                def g(): ctx.decide('%s of extents %s' % (q, d), ground(run(f, [], fresh('a', d))['ret'], num(prod(d))), where(f), '')
                attempt(q, f, g)
    f = one('AmpGen::Tensor::rank')
    for d in dims:
        def g(): ctx.decide('rank of extents %s' % d, ground(run(f, [], fresh('a', d))['ret'], num(len(d))), where(f), '')
        attempt('rank', f, g)
    # ---- element access
    d = [2, 3, 4]; A = fresh('a', d)
    for f in P.find('AmpGen::Tensor::operator[]') + P.find('AmpGen::Tensor::get'):
        if not f.get('body'): continue
        byvec = 'vector' in f['p'][0]['t']
        def g():
            for i, c in list(enumerate(coords(d)))[::5]:
                v = run(f, [('list',) + tuple(num(x) for x in c) if byvec else num(i)], A)['ret']
                want = sym('a%s' % ''.join(map(str, c)))
                if v != want:
                    ctx.decide('element access', False if v[0] == 'sym' else None, where(f), 'element %s reads %s' % (list(c), show(v)[:60])); return
            ctx.decide('element access', True, where(f), '')
        attempt('element access', f, g)
    for f in P.find('AmpGen::Tensor::operator()'):
        ts = [p['t'] for p in f['p']]
        if not f.get('body') or not all('unsigned' in t for t in ts): continue
        dd = [4] if len(ts) == 1 else [2, 3]
        def g():
            for c in coords(dd):
                v = run(f, [num(x) for x in c], fresh('a', dd))['ret']
                if v != sym('a%s' % ''.join(map(str, c))):
                    ctx.decide('element access by coordinates', False if v[0] == 'sym' else None, where(f), 'element %s reads %s' % (list(c), show(v)[:60])); return
            ctx.decide('element access by coordinates', True, where(f), '')
        attempt('element access', f, g)
    f = one('AmpGen::Tensor::metricSgn', ['std::vector<unsigned int>'])
    for d in ([4], [4, 4], [4, 4, 4]):
        def g():
            for c in coords(d):
                v = as_num(run(f, [('list',) + tuple(num(x) for x in c)], fresh('a', d))['ret'])
                if v is None: raise Undecided('sign')
                if v != prod(metric(x) for x in c): ctx.decide('metric sign', False, where(f), 'sign of %s is %s' % (list(c), v)); return
            ctx.decide('metric sign, rank %d' % len(d), True, where(f), '')
        attempt('metric sign', f, g)
    # ---- element-wise algebra
    for d in ([4], [2, 3], [4, 4], [3, 2, 2]):
        A, B, x = fresh('a', d), fresh('b', d), sym('x')
        ra, rb = read(A)[1], read(B)[1]
        for nm, q, ts, args, w in (
            ('sum', 'operator+', [T, T], [A, B], lambda c: add(ra[c], rb[c])), ('difference', 'operator-', [T, T], [A, B], lambda c: V.sub(ra[c], rb[c])),
            ('scaled from the left', 'operator*', [E_, T], [x, A], lambda c: mul(x, ra[c])), ('scaled from the right', 'operator*', [T, E_], [A, x], lambda c: mul(x, ra[c])),
            ('divided', 'operator/', [T, E_], [A, x], lambda c: div(ra[c], x)), ('scaled by a number from the left', 'operator*', ['double', T], [x, A], lambda c: mul(x, ra[c])),
            ('scaled by a number from the right', 'operator*', [T, 'double'], [A, x], lambda c: mul(x, ra[c])), ('divided by a number', 'operator/', [T, 'double'], [A, x], lambda c: div(ra[c], x))):
            f = one('AmpGen::' + q, ts)
            attempt(nm, f, lambda: elements('%s, extents %s' % (nm, d), f, run(f, args)['ret'], d, {c: w(c) for c in coords(d)}))
        f = one('AmpGen::Tensor::operator-')
        attempt('negated', f, lambda: elements('negated, extents %s' % d, f, run(f, [], A)['ret'], d, {c: neg(ra[c]) for c in coords(d)}))
        f = one('AmpGen::Tensor::conjugate')
        attempt('conjugate', f, lambda: elements('conjugate, extents %s' % d, f, run(f, [], A)['ret'], d, {c: den.un('conj', ra[c]) for c in coords(d)}))
        f = one('AmpGen::Tensor::operator+=')
        attempt('accumulated', f, lambda: elements('accumulated, extents %s' % d, f, run(f, [B], A)['this'], d, {c: add(ra[c], rb[c]) for c in coords(d)}))
        f = one('AmpGen::Tensor::operator-=')
        attempt('subtracted', f, lambda: elements('subtracted in place, extents %s' % d, f, run(f, [B], A)['this'], d, {c: V.sub(ra[c], rb[c]) for c in coords(d)}))
    # ---- full contraction
    f = one('AmpGen::dot', [T, T])
    for d in ([4], [4, 4], [1]):
        def g():
            A, B = fresh('a', d), fresh('b', d); ra, rb = read(A)[1], read(B)[1]
            w = ZERO
            for c in coords(d): w = add(w, mul(num(prod(metric(x) for x in c) if d != [1] else 1), mul(ra[c], rb[c])))
            ok, why = agree(run(f, [A, B])['ret'], w)
            ctx.decide('full contraction, extents %s' % d, ok, where(f), why)
        attempt('full contraction', f, g)
    # ---- contraction of proxies
    f = one('AmpGen::operator*', ['TensorProxy', 'TensorProxy'])
    a, b, c_, d_, e_ = 0, 1, 2, 3, 4
    cases = [([4], [(a, 0)], [4], [(a, 1)]), ([4], [(a, 0)], [4], [(a, 0)]), ([4], [(a, 0)], [3], [(b, 0)]), ([4, 4], [(a, 0), (b, 0)], [4], [(b, 1)]), ([4, 4], [(a, 0), (b, 0)], [4], [(a, 1)]),
             ([4], [(b, 0)], [4, 4], [(a, 0), (b, 1)]), ([4, 4], [(a, 0), (b, 0)], [4, 4], [(a, 1), (b, 1)]), ([4, 4], [(a, 0), (b, 0)], [4, 4], [(b, 1), (a, 1)]), ([4, 4], [(a, 0), (b, 0)], [4, 4], [(a, 1), (b, 0)]),
             ([2, 4], [(a, 0), (b, 0)], [4, 3], [(b, 1), (c_, 0)]), ([2, 4], [(a, 0), (b, 0)], [3, 4], [(c_, 0), (b, 1)]), ([4, 2], [(b, 0), (a, 0)], [4, 3], [(b, 1), (c_, 0)]), ([2, 4, 3], [(a, 0), (b, 0), (c_, 0)], [2, 4], [(d_, 0), (b, 1)]),
             ([4, 2, 4], [(a, 0), (b, 0), (c_, 0)], [4, 3, 4], [(c_, 1), (d_, 0), (a, 1)]), ([4, 2, 4], [(a, 0), (b, 0), (c_, 0)], [4, 3, 4], [(a, 1), (d_, 0), (c_, 0)]), ([2, 2], [(a, 0), (b, 0)], [2, 2], [(b, 0), (c_, 0)]),
             ([2, 3], [(a, 0), (b, 0)], [2, 3], [(c_, 0), (d_, 0)]), ([], [], [4], [(a, 0)]), ([4], [(a, 0)], [], []), ([4, 4, 2, 2], [(a, 0), (b, 0), (c_, 0), (d_, 0)], [4, 4], [(b, 1), (a, 1)]), ([4, 4, 4], [(a, 0), (b, 0), (c_, 0)], [4, 4, 4], [(a, 1), (b, 1), (c_, 1)])]
    for d1, i1, d2, i2 in cases:
        nm = 'product of %s and %s' % (text(i1), text(i2))
        def g():
            A, B = fresh('a', d1), fresh('b', d2); ra, rb = read(A)[1], read(B)[1]
            r = run(f, [proxy(A, [index(*x) for x in i1]), proxy(B, [index(*x) for x in i2])])['ret']
            n1, n2 = [x[0] for x in i1], [x[0] for x in i2]
            con = [(n1.index(x), n2.index(x)) for x in n1 if x in n2]
            f1 = [k for k in range(len(n1)) if n1[k] not in n2]; f2 = [k for k in range(len(n2)) if n2[k] not in n1]
            dim = [d1[k] for k in f1] + [d2[k] for k in f2]
            want = {}
            for co in coords(dim):
                w = ZERO
                for su in coords([d1[p] for p, _ in con]):
                    x1, x2, sg = [0] * len(d1), [0] * len(d2), 1
                    for k, v in zip(f1, co): x1[k] = v
                    for k, v in zip(f2, co[len(f1):]): x2[k] = v
                    for (p, q), v in zip(con, su):
                        x1[p] = x2[q] = v
                        if i1[p][1] != i2[q][1]: sg *= metric(v)
                    w = add(w, mul(num(sg), mul(ra[tuple(x1)], rb[tuple(x2)])))
                want[co] = w
            elements(nm, f, r, dim, want)
            ids = [x for x in field(r, 'm_indices')[1:]]
            exp = [index(*i1[k]) for k in f1] + [index(*i2[k]) for k in f2]
            ctx.decide('indices of the ' + nm, same_idx(ids, exp), where(f), 'indices %s' % [show(x)[:40] for x in ids])
        attempt(nm, f, g)
    # ---- sums of proxies
    for nm, q, sg in (('sum', 'operator+', 1), ('difference', 'operator-', -1)):
        f = one('AmpGen::' + q, ['TensorProxy', 'TensorProxy'])
        for n1, n2, d in (([a], [a], 4), ([a, b], [a, b], 3), ([a, b], [b, a], 3), ([a, b, c_], [c_, a, b], 2), ([a, b, c_], [b, c_, a], 2), ([a, b, c_], [c_, b, a], 2), ([a, b, c_, d_], [d_, a, c_, b], 2)):
            def g():
                A, B = fresh('a', [d] * len(n1)), fresh('b', [d] * len(n2)); ra, rb = read(A)[1], read(B)[1]
                r = run(f, [proxy(A, [index(x) for x in n1]), proxy(B, [index(x) for x in n2])])['ret']
                want = {co: add(ra[co], mul(num(sg), rb[tuple(co[n1.index(x)] for x in n2)])) for co in coords([d] * len(n1))}
                elements('%s of T%s and U%s' % (nm, n1, n2), f, r, [d] * len(n1), want)
            attempt(nm + ' of proxies', f, g)
            if len(n1) == 2 and n1 == n2:
                def g():
                    sm, un = ('list', num(0), num(3), num(6), num(3), num(4), num(7), num(6), num(7), num(8)), ('list', num(0), num(3), num(4), num(6), num(7), num(8))
                    A, B = [mk([3, 3], [sym('%s%d' % (x, k)) for k in range(9)], sm, un) for x in 'ab']
                    ra, rb = read(A)[1], read(B)[1]
                    r = run(f, [proxy(A, [index(x) for x in n1]), proxy(B, [index(x) for x in n2])])['ret']
                    elements('%s of symmetric tensors' % nm, f, r, [3, 3], {co: add(ra[co], mul(num(sg), rb[co])) for co in coords([3, 3])})
                attempt(nm + ' of symmetric tensors', f, g)
    for d in ([4], [2, 3]):
        f = one('AmpGen::Tensor::st')
        def g():
            A = fresh('a', d)
            elements('sharing sub-expressions leaves the elements unchanged, extents %s' % d, f, run(f, [FALSE], A)['this'], d, read(A)[1])
        attempt('st', f, g)
    f = one('AmpGen::Tensor::rankMatches')
    for d1, d2 in (([2, 3], [2, 3]), ([2, 3], [3, 2]), ([4], [4, 4]), ([2, 2, 3], [2, 2, 2])):
        attempt('rankMatches', f, lambda: ctx.decide('extents %s match %s' % (d1, d2), ground(run(f, [fresh('b', d2)], fresh('a', d1))['ret'], ('b', d1 == d2)), where(f), ''))
    f = one('AmpGen::TensorProxy::reorder')
    for n1, n2 in (([a, b], [b, a]), ([a, b, c_], [c_, a, b]), ([a, b, c_], [b, c_, a]), ([a, b, c_, d_], [d_, a, c_, b])):
        def g():
            A = fresh('a', [2] * len(n1)); ra = read(A)[1]
            r = run(f, [('list',) + tuple(index(x) for x in n2)], proxy(A, [index(x) for x in n1]))['ret']
            want = {co: ra[tuple(co[n2.index(x)] for x in n1)] for co in coords([2] * len(n1))}
            elements('reordering %s to %s' % (n1, n2), f, r, [2] * len(n1), want)
            ctx.decide('indices after reordering %s to %s' % (n1, n2), same_idx(field(r, 'm_indices')[1:], [index(x) for x in n2]), where(f), '')
        attempt('reorder', f, g)
    for nm, q, ts, w in (('scaled from the left', 'operator*', [E_, 'TensorProxy'], mul), ('scaled from the right', 'operator*', ['TensorProxy', E_], lambda x, y: mul(x, y)), ('divided', 'operator/', ['TensorProxy', E_], lambda x, y: div(y, x)),
                         ('scaled by a number', 'operator*', ['double', 'TensorProxy'], mul), ('scaled by a number from the right', 'operator*', ['TensorProxy', 'double'], mul), ('divided by a number', 'operator/', ['TensorProxy', 'double'], lambda x, y: div(y, x))):
        f = one('AmpGen::' + q, ts)
        def g():
            A = fresh('a', [2, 3]); ra = read(A)[1]; x = sym('x'); pr = proxy(A, [index(0), index(1, True)])
            r = run(f, [pr, x] if ts[0] == 'TensorProxy' else [x, pr])['ret']
            elements('indexed tensor ' + nm, f, r, [2, 3], {c: w(x, ra[c]) for c in coords([2, 3])})
            ctx.decide('indices of indexed tensor ' + nm, same_idx(field(r, 'm_indices')[1:], [index(0), index(1, True)]), where(f), '')
        attempt(nm, f, g)
    # ---- symmetrised slots
    fs = [g for g in P.find('AmpGen::Tensor::imposeSymmetry') if g.get('body') and len(g['p']) == 1]
    for d, sl in ((3, [0, 1]), (2, [0, 2]), (2, [1, 0]), (3, [0, 1, 2]), (3, [2, 0, 1]), (2, [0, 1, 2, 3]), (2, [1, 3])):
        if not fs: break
        f = fs[0]; rk = {3: 3 if len(sl) == 3 else 2, 2: 4 if max(sl) > 2 else 3}[d]
        def g():
            A = fresh('a', [d] * rk)
            r = run(f, [('list',) + tuple(num(x) for x in sl)], A)['this']
            dim, el = read(r)
            if el is None: ctx.decide('symmetrised slots', False, where(f), 'slot map out of range'); return
            bad, cls = None, {}
            for c in coords(dim):
                key = tuple(sorted(c[k] for k in sl)) + tuple(c[k] for k in range(rk) if k not in sl)
                cls.setdefault(key, set()).add(el[c])
            for k, v in cls.items():
                if len(v) != 1: bad = 'slots equal up to exchange of %s read %d different elements' % (sl, len(v))
            if len({next(iter(v)) for v in cls.values()}) != len(cls): bad = 'slots that differ are identified'
            u = ints(field(r, 'm_uniqueElements'))
            names = [field(r, 'm_elements')[1 + k] for k in u if k < prod(dim)]
            if bad is None and (len(names) != len(set(names)) or set(names) != {next(iter(v)) for v in cls.values()}): bad = 'the list of independent elements does not have each independent element once'
            ctx.decide('symmetry in slots %s of rank %d' % (sl, rk), bad is None, where(f), bad or '')
        attempt('symmetry', f, g)
    # ---- special tensors
    f = one('AmpGen::Identity')
    for n in (1, 2, 3, 4):
        attempt('identity', f, lambda: elements('identity of extent %d' % n, f, run(f, [num(n)])['ret'], [n, n], {c: ONE if c[0] == c[1] else ZERO for c in coords([n, n])}))
    f = one('AmpGen::LeviCivita')
    for n in (2, 3, 4):
        def g():
            r = run(f, [num(n)])['ret']
            elements('Levi-Civita symbol of rank %d' % n, f, r, [n] * n, {c: num(parity(c)) for c in coords([n] * n)})
        attempt('Levi-Civita', f, g)
    # ---- inverse
    f = one('AmpGen::Tensor::Invert')
    for n in (1, 2, 3):
        def g():
            A = fresh('a', [n, n]); ra = read(A)[1]
            dim, el = read(run(f, [], A)['ret'])
            verdict, why = True, ''
            for i in range(n):
                for j in range(n):
                    w = ZERO
                    for k in range(n): w = add(w, mul(ra[i, k], el[k, j]))
                    ok, y = agree(w, ONE if i == j else ZERO)
                    if ok is False: verdict, why = False, 'element (%d,%d) of matrix times inverse is %s' % (i, j, y); break
                    if ok is None: verdict, why = None, y
                if verdict is False: break
            ctx.decide('matrix of extent %d times its inverse' % n, verdict, where(f), why)
        attempt('inverse', f, g)

def parity(c):
    if len(set(c)) != len(c): return 0
    r = 1
    for i in range(len(c)):
        for j in range(i + 1, len(c)):
            if c[i] > c[j]: r = -r
    return r
def text(ix): return 'T(%s)' % ','.join(('-' if u else '') + 'abcde'[k] for k, u in ix)
def same_idx(got, want):
    if len(got) != len(want): return False
    for x, y in zip(got, want):
        if x[0] != 'obj': return None
        if field(x, 'm_ptr') != field(y, 'm_ptr') or field(x, 'm_isUpper') != field(y, 'm_isUpper'): return False
    return True
