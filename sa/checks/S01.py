"""Vector types.  Every operation of the vector types is abstracted on symbolic lanes, with the vector instructions it uses given their documented lane-wise meaning, and lane i of its result must be the
scalar operation on lane i of its operands; complex arithmetic on vectors must be complex arithmetic in each lane."""
from ..value import *
from .. import extract, den, numw
from ..run import where
from ..tensors import field
import time, random, itertools
ASSUMPTIONS = ['the vector instructions (and libmvec functions) compute what their documentation says, in exact arithmetic', 'comparisons of NaN are not considered', 'the AVX2 double-precision types stand for all (the only ones the build here can use)']
NS = 'AmpGen::'
TU = [extract.VERIF + '/tools/tus/simd.cpp']
RV = 'AmpGen::AVX2d::real_v'
L = 4
SIGN = ('app', 'signbit'); ONES = ('app', 'ones')
MAGIC = Fr(0x0018000000000000)
CMP = {k + h: o for k, o in enumerate(('==', '<', '<=', None, '!=', '>=', '>', None, '==', '<', '<=', None, '!=', '>=', '>', None)) for h in (0, 16) if o}      # operands that are numbers
def lanes(v):
    if v[0] == 'obj' and v[1] == RV: v = field(v, 'data')
    if v[0] == 'with' and v[2] == 'data': v = v[3]
    if v[0] == 'upd':
        got = {}
        while v[0] == 'upd' and as_num(v[2]) is not None: got.setdefault(int(as_num(v[2])), v[3]); v = v[1]
        if sorted(got) == list(range(L)): return [got[i] for i in range(L)]
    if v[0] == 'list' and len(v) == L + 1: return list(v[1:])
    if v[0] == 'n': return [v] * L
    raise Undecided('vector %s' % show(v)[:80])
def cmpb(op, a, b):
    if op == '<': return cmp_('<', a, b)
    if op == '>': return cmp_('<', b, a)
    if op == '<=': return bnot(cmp_('<', b, a))
    if op == '>=': return bnot(cmp_('<', a, b))
    r = cmp_('==', a, b)
    return r if op == '==' else bnot(r)
def atoms(t):
    if not isinstance(t, tuple) or not t: return []
    if t[0] == '<' and len(t) == 3 and t[1][0] == t[2][0] == 'sym': return [t]
    return [a for x in t[1:] if isinstance(x, tuple) for a in atoms(x)]
BOOL = ('b', '<', '==', 'not', 'and', 'or')
def intrinsics(mvec):
    o = {}
    def lw(name, k, g):
        def h(m, n, st, fr):
            vs = [lanes(m.rv(a, st, fr)) for a in n['a'][:k]]
            return ('list',) + tuple(g(*x) for x in zip(*vs))
        for nm in name if isinstance(name, tuple) else (name,): o[nm] = h
    lw('_mm256_add_pd', 2, lambda a, b: ('app', 'magic', a) if b == ('n', MAGIC) else add(a, b)); lw('_mm256_sub_pd', 2, lambda a, b: add(a, mul(num(-1), b))); lw('_mm256_mul_pd', 2, mul); lw('_mm256_div_pd', 2, div)
    lw('_mm256_fmadd_pd', 3, lambda a, b, c: add(mul(a, b), c)); lw('_mm256_fmsub_pd', 3, lambda a, b, c: add(mul(a, b), mul(num(-1), c))); lw('_mm256_fnmadd_pd', 3, lambda a, b, c: add(mul(num(-1), mul(a, b)), c))
    lw('_mm256_sqrt_pd', 1, lambda a: app('sqrt', a))
    lw('_mm256_max_pd', 2, lambda a, b: ite(cmp_('<', b, a), a, b)); lw('_mm256_min_pd', 2, lambda a, b: ite(cmp_('<', a, b), a, b))
    def bit(op):
        def g(a, b):
            if a[0] in BOOL and b[0] in BOOL: return band(a, b) if op == '&' else bor(a, b) if op == '|' else bnot(cmp_('==', a, b)) if op == '^' else band(bnot(a), b)
            if op == '^' and ONES in (a, b):
                x = b if a == ONES else a
                if x[0] in BOOL: return bnot(x)
            if op == '!&' and a == SIGN: return app('abs', b)
            if op == '^' and SIGN in (a, b): return mul(num(-1), b if a == SIGN else a)
            raise Undecided('bits %s of %s, %s' % (op, show(a)[:40], show(b)[:40]))
        return g
    lw('_mm256_and_pd', 2, bit('&')); lw('_mm256_or_pd', 2, bit('|')); lw('_mm256_xor_pd', 2, bit('^')); lw('_mm256_andnot_pd', 2, bit('!&'))
    lw('_mm256_blendv_pd', 3, lambda a, b, c: ite(c, b, a) if c[0] in BOOL else (_ for _ in ()).throw(Undecided('mask %s' % show(c)[:60])))
    def set1(m, n, st, fr):
        x = n['a'][0]
        while x['k'] in ('cast', 'paren'): x = x['a'][0]
        if x['k'] == 'un' and x['op'] == '-':
            v = m.rv(x['a'][0], st, fr)
            if v == ZERO: return ('list',) + (SIGN,) * L
        return ('list',) + (m.rv(n['a'][0], st, fr),) * L
    o['_mm256_set1_pd'] = set1
    o['_mm256_setzero_pd'] = lambda m, n, st, fr: ('list',) + (ZERO,) * L
    o['_mm256_set_pd'] = lambda m, n, st, fr: ('list',) + tuple(m.rv(a, st, fr) for a in reversed(n['a']))
    o['_mm256_setr_pd'] = lambda m, n, st, fr: ('list',) + tuple(m.rv(a, st, fr) for a in n['a'])
    def load(m, n, st, fr):
        p = m.rv(n['a'][0], st, fr)
        i0 = 0
        if p[0] == 'it' and p[1][0] == 'addr' and as_num(p[2]) is not None: i0 = int(as_num(p[2])); p = p[1]
        if p[0] != 'addr': raise Undecided('load from %s' % show(p)[:60])
        p = p[1]
        if p[-1][0] == 'i' and as_num(p[-1][1]) is not None: i0 = int(as_num(p[-1][1])); p = p[:-1]
        return ('list',) + tuple(m.rd(st, p + (('i', num(i0 + k)),)) for k in range(L))
    def store(m, n, st, fr):
        p, v = m.rv(n['a'][0], st, fr), lanes(m.rv(n['a'][1], st, fr))
        if p[0] != 'addr': raise Undecided('store to %s' % show(p)[:60])
        p = p[1]; i0 = 0
        if p[-1][0] == 'i' and as_num(p[-1][1]) is not None: i0 = int(as_num(p[-1][1])); p = p[:-1]
        for k in range(L): m.wr(st, p + (('i', num(i0 + k)),), v[k])
        return VOID
    for x in ('_mm256_loadu_pd', '_mm256_load_pd'): o[x] = load
    for x in ('_mm256_storeu_pd', '_mm256_store_pd', '_mm256_store_si256'): o[x] = store
    def cmp(m, n, st, fr):
        c = as_num(m.rv(n['a'][2], st, fr))
        if c is None or int(c) not in CMP: raise Undecided('predicate %s' % c)
        return ('list',) + tuple(cmpb(CMP[int(c)], a, b) for a, b in zip(lanes(m.rv(n['a'][0], st, fr)), lanes(m.rv(n['a'][1], st, fr))))
    o['__builtin_ia32_cmppd256'] = cmp
    def rnd(m, n, st, fr):
        c = as_num(m.rv(n['a'][1], st, fr)); f = {1: 'floor', 9: 'floor', 2: 'ceil', 10: 'ceil', 3: 'trunc', 11: 'trunc', 0: 'nearbyint', 8: 'nearbyint'}.get(int(c) if c is not None else None)
        if f is None: raise Undecided('rounding %s' % c)
        return ('list',) + tuple(app(f, a) for a in lanes(m.rv(n['a'][0], st, fr)))
    o['__builtin_ia32_roundpd256'] = rnd
    o['_mm256_floor_pd'] = lambda m, n, st, fr: ('list',) + tuple(app('floor', a) for a in lanes(m.rv(n['a'][0], st, fr)))
    lw('_mm256_castpd_si256', 1, lambda a: ('app', 'bits', a)); lw('_mm256_castsi256_pd', 1, lambda a: a)
    o['_mm256_set1_epi32'] = o['_mm256_set1_epi64x'] = lambda m, n, st, fr: ('list',) + ((ONES if m.rv(n['a'][0], st, fr) == num(-1) else m.rv(n['a'][0], st, fr)),) * L
    o['_mm256_set_epi64x'] = lambda m, n, st, fr: ('list',) + tuple(m.rv(a, st, fr) for a in reversed(n['a']))
    def sub64(a, b):
        if a[0] == 'app' and a[1] == 'bits' and a[2][0] == 'app' and a[2][1] == 'magic' and b == ('app', 'bits', ('n', MAGIC)): return a[2][2]
        raise Undecided('integer difference of %s and %s' % (show(a)[:60], show(b)[:60]))
    lw('_mm256_sub_epi64', 2, sub64); lw('_mm256_add_epi64', 2, lambda a, b: ('app', 'ptr+', a, b))
    def gather(m, n, st, fr):
        a = [m.rv(x, st, fr) for x in n['a']]
        if len(a) != 5 or as_num(a[4]) != 8: raise Undecided('scale of a gather')
        return ('list',) + tuple(('app', 'load', a[1], i) for i in lanes(a[2]))
    o['__builtin_ia32_gatherq_pd256'] = gather
    o['_mm256_undefined_pd'] = lambda m, n, st, fr: ('sym', 'undefined')
    for f in ('setzero', ): pass
    def movemask(m, n, st, fr):
        v = [x if x[0] in BOOL else (_ for _ in ()).throw(Undecided('mask %s' % show(x)[:60])) for x in lanes(m.rv(n['a'][0], st, fr))]
        r = ZERO
        for i, x in enumerate(v): r = add(r, ite(x, num(1 << i), ZERO))
        return r
    o['_mm256_movemask_pd'] = o['__builtin_ia32_movmskpd256'] = movemask
    for f in ('sin', 'cos', 'exp', 'log', 'tan'): lw(('_ZGVcN4v_' + f, '_ZGVdN4v_' + f), 1, lambda a, f=f: app(f, a))
    def sincos(m, n, st, fr):
        x = lanes(m.rv(n['a'][0], st, fr))
        for a, f in ((n['a'][1], 'sin'), (n['a'][2], 'cos')):
            ps = lanes(m.rv(a, st, fr))
            for k, p in enumerate(ps):
                if p[0] == 'app' and p[1] == 'ptr+' and p[2][0] == 'app' and p[2][1] == 'PointerToIntegral': p = p[:2] + (p[2][2],) + p[3:]
                if p[0] != 'app' or p[1] != 'ptr+' or p[2][0] != 'addr' or as_num(p[3]) is None: raise Undecided('address %s' % show(p)[:60])
                j = int(as_num(p[3]))
                if j % 8 or not 0 <= j < 8 * L: raise Undecided('address %s' % show(p)[:60])
                m.wr(st, p[2][1] + (('f', 'data'), ('i', num(j // 8))), app(f, x[k]))
        return VOID
    o['_ZGVdN4vvv_sincos'] = sincos
    for k in list(o): o.setdefault('AmpGen::AVX2d::' + k, o[k])
    return o
def check(ctx):
    deep = ctx.tier == 'thorough'
    for mvec in (1, 0): section(ctx, mvec)
def section(ctx, mvec):
    P = extract.load([], extra_tus=TU, extra_flags=('-UUSE_MVEC', '-DUSE_MVEC=%d' % mvec))
    tag = '' if mvec else ' (no libmvec)'
    if P.skipped: raise Undecided('the vector types do not parse: %s' % P.skipped[0][1][:200])
    M = Machine(P, intrinsics(mvec), limit=120, max_unroll=60, budget=3000000, depth=40, hooks={'static_init': True, 'recur': 3})
    V2 = NS + 'AVX2d::'
    def vec(n): return ('obj', RV, (('data', ('list',) + tuple(('sym', '%s%d' % (n, i)) for i in range(L))),))
    def sy(n): return [('sym', '%s%d' % (n, i)) for i in range(L)]
    def fns(q): return [f for f in P.find(q) if f.get('body') is not None]
    def pt(f): return [p['t'].replace('const ', '').replace(' &', '').strip() for p in f['p']]
    def run(f, args, this=None, mem=None):
        M.budget = 3000000; M.deadline = time.time() + 60
        return M.function(f, args, this, mem=mem or {})
    def same(v, w):
        """True / False / None"""
        if v == w: return True
        at = sorted(set(atoms(v)) | set(atoms(w)), key=repr)
        if w[0] in BOOL and 0 < len(at) <= 8 and len({x for a in at for x in a[1:]}) == 2 * len(at):
            def fold(t, e):
                if t in e: return e[t]
                if not isinstance(t, tuple) or not t or t[0] in ('sym', 'n', 'b'): return t
                t = (t[0],) + tuple(fold(x, e) if isinstance(x, tuple) else x for x in t[1:])
                return {'ite': lambda: ite(*t[1:]), '+': lambda: add(*t[1:]), '==': lambda: cmp_('==', *t[1:]), '<': lambda: cmp_('<', *t[1:]), 'not': lambda: bnot(t[1]), 'and': lambda: band(*t[1:]), 'or': lambda: bor(*t[1:])}.get(t[0], lambda: t)()
            res = set()
            for bits in itertools.product((TRUE, FALSE), repeat=len(at)):
                e = dict(zip(at, bits)); p, q = fold(v, e), fold(w, e)
                if p == q: res.add(True)
                elif p in (TRUE, FALSE) and q in (TRUE, FALSE): return False
                else: res.add(None)
            return True if res == {True} else None
        if v[0] in BOOL or w[0] in BOOL: v, w = ite(v, ONE, ZERO) if v[0] in BOOL else v, ite(w, ONE, ZERO) if w[0] in BOOL else w
        return numw.agree(v, w, dom=lambda t: (-2.5, 2.5))[0]
    def deed(name, f, args, want, this=None, result=None, mem=None):
        name += tag
        if f is None: ctx.unknown(name, 'AmpGen/simd/avx2d_types.h', 'not found'); return
        ctx.saw('functions', f['q'])
        try:
            r = run(f, args, this, mem); v = result(r) if result else r['ret']
            if isinstance(want, list) and len(want) == L: got = lanes(v)
            else: got, want_ = [v], [want]
            w = want if isinstance(want, list) else [want]
            for i, (g, e) in enumerate(zip(got, w)):
                s = same(g, e)
                if s is None: raise Undecided('lane %d is %s' % (i, show(g)[:100]))
                if s is False: ctx.decide(name, False, where(f), 'lane %d of the result is %s instead of %s' % (i, show(g)[:160], show(e)[:160])); return
            ctx.decide(name, True, where(f), '%d lanes' % len(w))
        except Undecided as e: ctx.unknown(name, where(f), e)
    def free(q, n, t=None):
        return next((f for f in fns(V2 + q) if len(f['p']) == n and (t is None or t(pt(f)))), None)
    a, b, c = vec('a'), vec('b'), vec('c'); A, B, C = sy('a'), sy('b'), sy('c'); neg = lambda x: mul(num(-1), x)
    allr = lambda ts: all(t == RV for t in ts)
    for op, g in (('+', add), ('-', lambda x, y: add(x, neg(y))), ('*', mul), ('/', div)):
        deed('vector %s vector' % op, free('operator' + op, 2, allr), [a, b], [g(x, y) for x, y in zip(A, B)])
        f = next((f for f in fns(RV + '::operator' + op + '=')), None)
        deed('vector %s= vector' % op, f, [b], [g(x, y) for x, y in zip(A, B)], a, lambda r: r['this'])
        deed('value of vector %s= vector' % op, f, [b], [g(x, y) for x, y in zip(A, B)], a)
    deed('-vector', free('operator-', 1), [a], [neg(x) for x in A])
    for op in ('<', '>', '<=', '>=', '=='): deed('vector %s vector' % op, free('operator' + op, 2, allr), [a, b], [cmpb(op, x, y) for x, y in zip(A, B)])
    for op in ('<', '>', '<=', '>=', '=='): deed('vector %s vector for equal lanes' % op, free('operator' + op, 2, allr), [a, a], [TRUE if '=' in op else FALSE] * L)
    ma, mb = [cmp_('<', x, y) for x, y in zip(A, B)], [cmp_('<', y, z) for y, z in zip(B, C)]
    mask = lambda m: ('obj', RV, (('data', ('list',) + tuple(m)),))
    for op, g in (('&', band), ('|', bor), ('&&', band), ('||', bor), ('^', lambda x, y: bnot(cmp_('==', x, y)))): deed('mask %s mask' % op, free('operator' + op, 2, allr), [mask(ma), mask(mb)], [g(x, y) for x, y in zip(ma, mb)])
    deed('!mask', free('operator!', 1), [mask(ma)], [bnot(x) for x in ma])
    for f in ('sqrt', 'abs', 'sin', 'cos', 'exp', 'log'): deed('%s of a vector' % f, free(f, 1, allr), [a], [app(f, x) for x in A])
    deed('tan of a vector', free('tan', 1), [a], [div(app('sin', x), app('cos', x)) for x in A])
    deed('conj of a vector', free('conj', 1), [a], A)
    deed('fmadd', free('fmadd', 3), [a, b, c], [add(mul(x, y), z) for x, y, z in zip(A, B, C)])
    deed('atan2 of vectors', free('atan2', 2), [a, b], [app('atan2', x, y) for x, y in zip(A, B)])
    deed('select by a mask', free('select', 3, allr), [mask(ma), b, c], [ite(m, x, y) for m, x, y in zip(ma, B, C)])
    for t in (TRUE, FALSE): deed('select by a truth value (%s)' % show(t), free('select', 3, lambda ts: ts == ['bool', RV, RV]), [t, b, c], B if t == TRUE else C)
    deed('sign of a vector', free('sign', 1), [a], [ite(cmp_('<', x, ZERO), num(-1), ONE) for x in A])
    deed('sign of zero is positive', free('sign', 1), [('obj', RV, (('data', ('list',) + (ZERO,) * L),))], [ONE] * L)
    def fm(x, y):
        ax, ay = app('abs', x), app('abs', y); r = add(ax, neg(mul(app('floor', div(ax, ay)), ay)))
        return ite(cmp_('<', ZERO, x), r, neg(r))
    deed('fmod of vectors', free('fmod', 2), [a, b], [fm(x, y) for x, y in zip(A, B)])
    f2 = free('sincos', 3); f1 = free('sincos', 1)
    z0 = mask([('sym', 'u%d' % i) for i in range(L)])
    deed('sincos returns the sine', f2, [a, z0, z0], [app('sin', x) for x in A], None, lambda r: r['args'][1]); deed('sincos returns the cosine', f2, [a, z0, z0], [app('cos', x) for x in A], None, lambda r: r['args'][2])
    deed('sincos gives the sine first', f1, [a], [app('sin', x) for x in A], None, lambda r: field(r['ret'], 'first')); deed('sincos gives the cosine second', f1, [a], [app('cos', x) for x in A], None, lambda r: field(r['ret'], 'second'))
    g = free('gather', 2)
    base = ('addr', (('v', 900001, 'table'),))
    deed('gather reads the integer part of each offset', g, [base, a], [('app', 'load', base, app('floor', x)) for x in A])
    # ---- construction and access
    ct = lambda t: next((f for f in fns(RV + '::real_v') if t([p['t'] for p in f['p']])), None)
    X = [('sym', 'x%d' % i) for i in range(L)]
    deed('a vector of four numbers', ct(lambda t: len(t) == 4), X, X, None, lambda r: r['this'])
    deed('a vector of equal numbers', ct(lambda t: t == ['const double &']), [('sym', 'x')], [('sym', 'x')] * L, None, lambda r: r['this'])
    root = ('v', 900002, 'mem'); arr = {root: ('list',) + tuple(('sym', 'm%d' % i) for i in range(8))}
    deed('a vector loaded from memory', ct(lambda t: t == ['const double *']), [('addr', (root,))], [('sym', 'm%d' % i) for i in range(L)], None, lambda r: r['this'], arr)
    deed('a vector of an array', ct(lambda t: 'array' in t[0] if t else False), [('list',) + tuple(X)], X, None, lambda r: r['this'])
    meth = lambda n: next(iter(fns(RV + '::' + n)), None)
    deed('store writes the lanes in order', meth('store'), [('addr', (root,))], A, a, lambda r: ('list',) + r['st'].s[root][1:L + 1] if r['st'].s[root][0] == 'list' else r['st'].s[root], {root: ('list',) + (ZERO,) * 8})
    deed('to_array gives the lanes in order', meth('to_array'), [], A, a)
    for i in range(L): deed('at(%d) is lane %d' % (i, i), meth('at'), [num(i)], A[i], a)
    # ---- helpers
    U = NS + 'utils::'
    u = lambda q, n, t=lambda ts: True: next((f for f in fns(U + q) if len(f['p']) == n and t(pt(f))), None)
    deed('sum_elements adds the lanes', u('sum_elements', 1, allr), [a], add(add(add(A[0], A[1]), A[2]), A[3]))
    deed('all_of is true when every lane is', u('all_of', 1, allr), [mask(ma)], band(band(ma[0], ma[1]), band(ma[2], ma[3])))
    deed('store helper writes the lanes in order', u('store', 2), [('addr', (root,)), a], A, None, lambda r: ('list',) + r['st'].s[root][1:L + 1] if r['st'].s[root][0] == 'list' else r['st'].s[root], {root: ('list',) + (ZERO,) * 8})
    for n in range(1, 14): deed('aligned size of %d' % n, u('aligned_size', 1), [num(n)], num(-(-n // L) * L))
    # ---- complex
    CT = NS + 'Complex'
    cx = lambda n: ('obj', NS + 'Complex<' + RV + '>', (('im', vec(n + 'i')), ('re', vec(n + 'r'))))
    z, w, x = cx('z'), cx('w'), vec('x')
    Z = list(zip(sy('zr'), sy('zi'))); W = list(zip(sy('wr'), sy('wi'))); XX = [(s, ZERO) for s in sy('x')]
    def cadd(p, q): return add(p[0], q[0]), add(p[1], q[1])
    def csub(p, q): return add(p[0], neg(q[0])), add(p[1], neg(q[1]))
    def cmul(p, q): return add(mul(p[0], q[0]), neg(mul(p[1], q[1]))), add(mul(p[0], q[1]), mul(p[1], q[0]))
    def cdiv(p, q):
        n = add(mul(q[0], q[0]), mul(q[1], q[1])); r = cmul(p, (q[0], neg(q[1]))); return div(r[0], n), div(r[1], n)
    def cdeed(name, f, args, want, this=None, result=None):
        for k, part in ((0, 're'), (1, 'im')): deed('%s (%s)' % (name, {0: 'real part', 1: 'imaginary part'}[k]), f, args, [t[k] for t in want], this, (lambda r, part=part: field(result(r) if result else r['ret'], part)))
    isC = lambda t: 'Complex<' in t
    def cf(q, kinds): return next((f for f in fns(NS + q) if len(f['p']) == len(kinds) and all((isC(t) if k == 'c' else t == RV) for t, k in zip(pt(f), kinds))), None)
    for op, g in (('+', cadd), ('-', csub), ('*', cmul), ('/', cdiv)):
        cdeed('complex %s complex' % op, cf('operator' + op, 'cc'), [z, w], [g(p, q) for p, q in zip(Z, W)])
        cdeed('complex %s real' % op, cf('operator' + op, 'cr'), [z, x], [g(p, q) for p, q in zip(Z, XX)])
        cdeed('real %s complex' % op, cf('operator' + op, 'rc'), [x, z], [g(p, q) for p, q in zip(XX, Z)])
        f = next((f for f in fns(CT + '::operator' + op + '=')), None)
        cdeed('complex %s= complex' % op, f, [w], [g(p, q) for p, q in zip(Z, W)], z, lambda r: r['this'])
    cdeed('-complex', cf('operator-', 'c'), [z], [(neg(p), neg(q)) for p, q in Z])
    cdeed('conj of a complex', cf('conj', 'c'), [z], [(p, neg(q)) for p, q in Z])
    deed('real part', cf('real', 'c'), [z], sy('zr')); deed('imaginary part', cf('imag', 'c'), [z], sy('zi'))
    n2 = [add(mul(p, p), mul(q, q)) for p, q in Z]
    deed('norm of a complex', cf('norm', 'c'), [z], n2); deed('modulus of a complex', cf('abs', 'c'), [z], [app('sqrt', n) for n in n2])
    cdeed('exp of a complex', cf('exp', 'c'), [z], [(mul(app('exp', p), app('cos', q)), mul(app('exp', p), app('sin', q))) for p, q in Z])
    cdeed('log of a complex', cf('log', 'c'), [z], [(mul(num(Fr(1, 2)), app('log', n)), app('atan2', q, p)) for (p, q), n in zip(Z, n2)])
    h = num(Fr(1, 2))
    cdeed('sqrt of a complex', cf('sqrt', 'c'), [z], [(app('sqrt', mul(h, add(app('sqrt', n), p))), mul(ite(cmp_('<', q, ZERO), num(-1), ONE), app('sqrt', mul(h, add(app('sqrt', n), neg(p)))))) for (p, q), n in zip(Z, n2)])
    cd = next((f for f in fns(CT + '::Complex') if len(f['p']) == 1 and pt(f) == [RV]), None)
    deed('a complex of a real has no imaginary part', cd, [x], [ZERO] * L, None, lambda r: field(r['this'], 'im'))
    one = ('obj', NS + 'Complex<' + RV + '>', (('im', mask([ZERO] * L)), ('re', mask([neg(mul(s, s)) for s in sy('y')]))))
    deed('sqrt of a negative number has a positive imaginary part', cf('sqrt', 'c'), [one], [app('sqrt', mul(h, add(app('sqrt', mul(r, r)), neg(r)))) for r in [neg(mul(s, s)) for s in sy('y')]], None, lambda r: field(r['ret'], 'im'))
    sel = lambda q, k: next((f for f in fns(V2 + q) if len(f['p']) == 3 and [('c' if isC(t) else 'r' if t == RV else 'b') for t in pt(f)] == list(k)), None)
    cdeed('select between complex', sel('select', 'rcc'), [mask(ma), z, w], [(ite(m, p[0], q[0]), ite(m, p[1], q[1])) for m, p, q in zip(ma, Z, W)])
    cdeed('select between real and complex', sel('select', 'rrc'), [mask(ma), x, w], [(ite(m, p[0], q[0]), ite(m, p[1], q[1])) for m, p, q in zip(ma, XX, W)])
    cdeed('select between complex and real', sel('select', 'rcr'), [mask(ma), z, x], [(ite(m, p[0], q[0]), ite(m, p[1], q[1])) for m, p, q in zip(ma, Z, XX)])
