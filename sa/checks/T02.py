"""Dirac, Pauli and rotation matrices and Lorentz transformations.  The matrix tables are read from their initialisers and their defining algebra
(Clifford, Pauli, rotation, Gell-Mann) is evaluated; rotations and boosts are abstracted to matrices of terms in cosine / gamma factor and axis and
compared, under the constraints axis^2 = 1 and half-angle roots, with the transformation they stand for, in every representation."""
from ..value import *
from .. import extract, den, value as V, alg
from ..run import where
from ..tensors import *
ASSUMPTIONS = ['exact arithmetic (rounding ignored)', 'rotation axes and boost directions are unit three-vectors', 'the expression and tensor layers have the meaning established by X01, X02 and T01']
SRC = ['src/DiracMatrices.cpp', 'src/Transform.cpp', 'src/Tensor.cpp']
ENUM = lambda t, n, v: ('enum', 'AmpGen::Transform::' + t, n, v)
def enum_of(P, t, name):
    e = P.enums.get('AmpGen::Transform::' + t)
    if not e: raise Undecided('enum ' + t)
    for nm, v in e['e']:
        if nm == name: return ('enum', 'AmpGen::Transform::' + t, name, int(v))
    raise Undecided('enumerator ' + name)
def axis(names=('k0', 'k1', 'k2'), n=3): return mk([n], [sym(x) for x in names][:n] + [ZERO] * (n - 3))

def check(ctx):
    P = extract.load(SRC)
    ov = den.overrides({})
    def mach(extra=None):
        o = dict(ov); o.update(extra or {}); return Machine(P, o, limit=700)
    none = lambda s: None
    def table(name, n):
        v = mach().global_value(('g', 'AmpGen::' + name))
        if v is None or v[0] not in ('list', 'obj'): raise Undecided('table %s' % name)
        if v[0] == 'obj': v = v[2][0][1]
        if v[0] != 'list' or len(v) - 1 != n: raise Undecided('table %s has %d entries' % (name, len(v) - 1))
        return [mat(x)[1] for x in v[1:]]
    def alg_(name, anchor, pairs, sampler=none):
        ok, why = alg.agree_all(pairs, sampler)
        ctx.decide(name, ok, anchor, why)
    A = 'src/DiracMatrices.cpp'
    comm = lambda a, b: madd(mmul(a, b), mmul(b, a), -1)
    anti = lambda a, b: madd(mmul(a, b), mmul(b, a))
    G = S2 = None
    def attempt(name, g, anchor=A):
        try: return g()
        except Undecided as e: ctx.unknown(name, anchor, e)
    # ---- tables
    G = attempt('gamma matrices', lambda: table('Gamma', 5)); S2 = attempt('Pauli matrices', lambda: table('Sigma', 3))
    if G:
        ctx.saw('tables', 'Gamma')
        for m in range(4):
            for n in range(m, 4):
                g = num(2 * metric(m) if m == n else 0)
                alg_('{gamma_%d, gamma_%d} = 2g' % (m, n), A + ' (Gamma)', mpairs(anti(G[m], G[n]), mscale(g, eye(4))))
            alg_('gamma_%d anticommutes with gamma5' % m, A + ' (Gamma)', mpairs(anti(G[m], G[4]), mscale(ZERO, eye(4))))
            alg_('Dirac adjoint of gamma_%d' % m, A + ' (Gamma)', mpairs(mmul(mmul(G[3], dagger(G[m])), G[3]), G[m]))
        alg_('gamma5 = i gamma0 gamma1 gamma2 gamma3', A + ' (Gamma)', mpairs(G[4], mscale(I, mmul(mmul(G[3], G[0]), mmul(G[1], G[2])))))
    eps = {(0, 1, 2): 1, (1, 2, 0): 1, (2, 0, 1): 1, (0, 2, 1): -1, (2, 1, 0): -1, (1, 0, 2): -1}
    def su2(name, T, n):
        ctx.saw('tables', name)
        for i in range(3):
            for j in range(3):
                w = eye(n) if i == j else mscale(num(0), eye(n))
                for k in range(3):
                    if (i, j, k) in eps: w = madd(w, mscale(mul(I, num(eps[i, j, k])), T[k]))
                alg_('%s_%d %s_%d = delta + i eps' % (name, i, name, j), A + ' (%s)' % name, mpairs(mmul(T[i], T[j]), w))
            alg_('%s_%d is hermitian' % (name, i), A + ' (%s)' % name, mpairs(dagger(T[i]), T[i]))
    if S2: su2('Sigma', S2, 2)
    S4 = attempt('Sigma4', lambda: table('Sigma4', 3))
    if S4:
        su2('Sigma4', S4, 4)
        if G:
            for i in range(3): alg_('Sigma4_%d = gamma5 gamma0 gamma_%d' % (i, i), A + ' (Sigma4)', mpairs(S4[i], mmul(mmul(G[4], G[3]), G[i])))
    J = attempt('SO3', lambda: table('SO3', 3))
    if J:
        ctx.saw('tables', 'SO3')
        for k in range(3):
            w = {(i, j): num(-eps.get((i, j, k), 0)) if i < 3 and j < 3 else ZERO for i in range(4) for j in range(4)}
            alg_('SO3_%d generates the rotation about axis %d' % (k, k), A + ' (SO3)', mpairs(J[k], w))
    L = attempt('SU3', lambda: table('SU3', 8))
    if L:
        ctx.saw('tables', 'SU3')
        zero3 = mscale(ZERO, eye(3))
        for a in range(8):
            alg_('lambda_%d hermitian and traceless' % (a + 1), A + ' (SU3)', mpairs(dagger(L[a]), L[a]) + [(tr(L[a]), ZERO, 'trace')])
            for b in range(a, 8): alg_('tr lambda_%d lambda_%d' % (a + 1, b + 1), A + ' (SU3)', [(tr(mmul(L[a], L[b])), num(2 if a == b else 0), 'trace')])
        h = ('/', ONE, num(2)); r3 = div(('app', 'sqrt', num(3)), num(2))
        for a, b, c, v in ((1, 2, 3, ONE), (1, 4, 7, h), (1, 6, 5, h), (2, 4, 6, h), (2, 5, 7, h), (3, 4, 5, h), (3, 7, 6, h), (4, 5, 8, r3), (6, 7, 8, r3)):
            f = div(tr(mmul(comm(L[a - 1], L[b - 1]), L[c - 1])), mul(num(4), I))
            alg_('f_%d%d%d' % (a, b, c), A + ' (SU3)', [(f, v, 'structure constant')])
    # ---- hyperbolic helpers
    x = sym('x'); ex, emx = ('app', 'exp', x), ('app', 'exp', neg(x)); sq = lambda y: ('app', 'sqrt', y); lg = lambda y: ('app', 'log', y)
    def hyp(s):
        v, e = s.draw(), s.draw()
        if not s.field:
            import math; e = math.exp(v)
        s.set('x', v)
        s.app('exp', v, e); s.app('exp', -v, 1 / e)
    for q, w in (('cosh', div(add(ex, emx), num(2))), ('sinh', div(V.sub(ex, emx), num(2))), ('tanh', div(V.sub(ex, emx), add(ex, emx))), ('acosh', lg(add(x, sq(V.sub(mul(x, x), ONE))))), ('asinh', lg(add(x, sq(add(mul(x, x), ONE))))),
                 ('atanh', mul(('n', Fr(1, 2)), lg(div(add(ONE, x), V.sub(ONE, x)))))):
        for f in find(P, 'AmpGen::' + q, n=1):
            if 'Expression' not in f['p'][0]['t']: continue
            ctx.saw('functions', f['q'])
            def g():
                ok, why = alg.agree(mach().function(f, [x])['ret'], w, hyp if q != 'acosh' else (lambda s: s.set('x', s.draw(1.1, 5.))))
                ctx.decide(q, ok, where(f), why)
            attempt(q, g, where(f))
    # ---- single transformations
    KN = ['k0', 'k1', 'k2']
    try:
        TY = {n: enum_of(P, 'Type', n) for n in ('Boost', 'Rotate')}
        RE = {n: enum_of(P, 'Representation', n) for n in ('Spinor', 'Bispinor', 'Vector')}
    except Undecided as e: ctx.unknown('transformations', 'AmpGen/Transform.h', e); return
    ops = P.find('AmpGen::Transform::operator()')
    f1 = next((f for f in ops if len(f['p']) == 1), None); f2 = next((f for f in ops if len(f['p']) == 2), None)
    finv = next(iter(P.find('AmpGen::Transform::inverse')), None)
    if not f1 or not finv: ctx.unknown('transformations', 'src/Transform.cpp', 'not found'); return
    W1 = where(f1)
    k = [sym(x) for x in KN]
    p = [sym('p0'), sym('p1'), sym('p2'), sym('pE')]
    def tobj(ty, arg='c'): 
        ct = next((f for f in P.find('AmpGen::Transform::Transform') if len(f['p']) == 3 and f.get('body')), None)
        if not ct: raise Undecided('constructor')
        return mach().function(ct, [sym(arg), axis(), TY[ty]])['this']
    def dotp(a, b):
        t = ZERO
        for i in range(3): t = add(t, mul(a[i], b[i]))
        return t
    cross = [V.sub(mul(k[1], p[2]), mul(k[2], p[1])), V.sub(mul(k[2], p[0]), mul(k[0], p[2])), V.sub(mul(k[0], p[1]), mul(k[1], p[0]))]
    c = sym('c')
    S_ROT = sym('_s')                 # sin, derived by the sampler
    def samp(ty):
        def s(S_):
            unit_k = alg.unit(S_, KN)
            _, sn, ch, sh = (alg.cosine if ty == 'Rotate' else alg.gamma)(S_, 'c')
            S_.set('_s', sn)
            for i, n in enumerate(('p0', 'p1', 'p2', 'pE')): S_.set(n, S_.draw(0.2, 2.))
        return s
    want = {}
    want['Rotate'] = [add(add(mul(c, p[i]), mul(S_ROT, cross[i])), mul(mul(V.sub(ONE, c), dotp(k, p)), k[i])) for i in range(3)] + [p[3]]
    # boost into the frame moving with rapidity eta along +k: E' = g E - gb k.p ; p' = p + ((g-1) k.p - gb E) k
    want['Boost'] = [add(p[i], mul(V.sub(mul(V.sub(c, ONE), dotp(k, p)), mul(S_ROT, p[3])), k[i])) for i in range(3)] + [V.sub(mul(c, p[3]), mul(S_ROT, dotp(k, p)))]
    def slash(v): 
        r = mscale(mul(num(1), v[3]), G[3])
        for i in range(3): r = madd(r, mscale(neg(v[i]), G[i]))
        return r
    def sdot(v, sg): 
        r = mscale(v[3], eye(2))
        for i in range(3): r = madd(r, mscale(mul(num(sg), v[i]), S2[i]))
        return r
    for ty in ('Rotate', 'Boost'):
        try: T = tobj(ty)
        except Undecided as e: ctx.unknown('%s object' % ty, 'src/Transform.cpp', e); continue
        SM = samp(ty); R = {}
        for rp in RE:
            def g():
                ctx.saw('functions', f1['q'])
                R[rp] = mat(mach().function(f1, [RE[rp]], T)['ret'])
            attempt('%s in %s representation' % (ty, rp), g, W1)
            if rp in R and R[rp][0] != [2 if rp == 'Spinor' else 4] * 2:
                ctx.decide('%s, extents of the %s representation' % (ty, rp), False, W1, 'extents %s' % R[rp][0]); del R[rp]
            elif rp in R: ctx.decide('%s, extents of the %s representation' % (ty, rp), True, W1)
        if 'Vector' in R:
            got = mvec(R['Vector'][1], p)
            attempt('x', lambda: alg_('%s of a four-vector' % ty, W1, [(got[i], want[ty][i], 'component %d' % i) for i in range(4)], SM))
        if 'Bispinor' in R and G:
            Sb = R['Bispinor'][1]
            attempt('x', lambda: alg_('%s of a bispinor is the spin-1/2 image of the vector transformation' % ty, W1, mpairs(mmul(Sb, slash(p)), mmul(slash(want[ty]), Sb)), SM))
            attempt('x', lambda: alg_('%s preserves the Dirac adjoint' % ty, W1, mpairs(mmul(mmul(dagger(Sb), G[3]), Sb), G[3]), SM))
        if 'Spinor' in R and S2:
            Ss = R['Spinor'][1]
            attempt('x', lambda: alg_('%s of a two-component spinor is the (left-handed) spin-1/2 image of the vector transformation' % ty, W1, mpairs(mmul(mmul(Ss, sdot(p, -1)), dagger(Ss)), sdot(want[ty], -1)), SM))
            attempt('x', lambda: alg_('%s of a two-component spinor has unit determinant' % ty, W1, [(V.sub(mul(Ss[0, 0], Ss[1, 1]), mul(Ss[0, 1], Ss[1, 0])), ONE, 'determinant')], SM))
        for rp in R:
            def g():
                ctx.saw('functions', finv['q'])
                Ti = mach().function(finv, [], T)['ret']
                Ri = mat(mach().function(f1, [RE[rp]], Ti)['ret'])[1]
                alg_('inverse of %s, %s representation' % (ty, rp), where(finv), mpairs(mmul(Ri, R[rp][1]), eye(R[rp][0][0])), SM)
            attempt('inverse of %s' % ty, g, where(finv))
            if f2:
                def g():
                    ctx.saw('functions', f2['q'])
                    n = R[rp][0][0]
                    got = read(mach().function(f2, [mk([n], p[:n]), RE[rp]], T)['ret'])[1]
                    w = mvec(R[rp][1], p[:n])
                    alg_('%s applied in %s representation' % (ty, rp), where(f2), [(got[i,], w[i], 'component %d' % i) for i in range(n)], SM)
                attempt('%s applied' % ty, g, where(f2))
    # ---- sequences: transformations as uninterpreted matrices
    def opaque(m, n, st, fr):
        a = n['a'] if n['k'] != 'call' or not n.get('mop') else n['a'][1:]
        args = [m.rv(x, st, fr) for x in n['a']]
        o = args[0] if args[0][0] == 'obj' and args[0][1] == 'AmpGen::Transform' else None
        if o is None or len(args) != 2: return None
        r = args[1]
        if r[0] != 'enum': raise Undecided('representation %s' % show(r)[:60])
        nm = show(field(o, 'm_arg')); d = 2 if r[2] == 'Spinor' else 4
        return mk([d, d], [sym('%s_%s%d%d' % (nm, r[2][0], i, j)) for i in range(d) for j in range(d)])
    inv_of = lambda m, n, st, fr: ('obj', 'AmpGen::Transform', tuple((a, app('inv', b) if a == 'm_arg' else b) for a, b in m.rd(st, m.objpath(n, st, fr))[2]))
    ov2 = {'AmpGen::Transform::operator()': opaque, 'AmpGen::Transform::inverse': inv_of}
    def T_(name): return ('obj', 'AmpGen::Transform', (('m_arg', sym(name)), ('m_k', axis()), ('m_type', TY['Rotate'])))
    Q = 'AmpGen::TransformSequence::'
    def fn(name, types=None, n=None):
        r = find(P, Q + name, types, n)
        if not r: raise Undecided('%s not found' % name)
        return r[0]
    def runf(f, args, this=None):
        ctx.saw('functions', f['q']); return mach(ov2).function(f, args, this)
    def empty(): return runf(fn('TransformSequence', [], 0), [])['this']
    def push(s, t): return runf(fn('push_back', ['Transform' if t[1] == 'AmpGen::Transform' else 'TransformSequence'], 1), [t], s)['this']
    def matrix(names, rp):
        d = 2 if rp == 'Spinor' else 4
        r = eye(d)
        for nm in names: r = mmul({(i, j): sym('%s_%s%d%d' % (nm, rp[0], i, j)) for i in range(d) for j in range(d)}, r)
        return r
    fcall = next((f for f in P.find(Q + 'operator()') if len(f['p']) == 1), None); fapp = next((f for f in P.find(Q + 'operator()') if len(f['p']) == 2), None)
    def seqcheck(name, make, names, size=True):
        def g():
            s = make()
            w = where(fcall)
            for rp in RE:
                d, e = mat(runf(fcall, [RE[rp]], s)['ret'])
                wm = matrix(names, rp)
                n = 2 if rp == 'Spinor' else 4
                if d != [n, n]: ctx.decide('%s, %s representation' % (name, rp), False, w, 'extents %s instead of [%d, %d]' % (d, n, n)); continue
                ok, why = alg.agree_all(mpairs(e, wm), none)
                ctx.decide('%s, %s representation' % (name, rp), ok, w, why)
            if fapp:
                v = [sym('v%d' % i) for i in range(4)]
                got = read(runf(fapp, [mk([4], v), RE['Vector']], s)['ret'])[1]; wv = mvec(matrix(names, 'Vector'), v)
                ok, why = alg.agree_all([(got[i,], wv[i], 'component %d' % i) for i in range(4)], none)
                ctx.decide('%s, applied to a vector' % name, ok, where(fapp), why)
            ms = field(s, 'm_transforms')
            if ms[0] == 'list':
                l = [show(field(t, 'm_arg')) for t in ms[1:]]
                ctx.decide('%s, the transformations held' % name, l == names, w, 'holds %s instead of %s' % (l, names))
        attempt(name, g, 'src/Transform.cpp (TransformSequence)')
    if not fcall: ctx.unknown('sequences', 'src/Transform.cpp', 'not found'); return
    a, b, c3 = T_('a'), T_('b'), T_('d')
    seqcheck('empty sequence', empty, [])
    one = lambda: runf(fn('TransformSequence', ['Transform'], 1), [a])['this']
    two = lambda: runf(fn('TransformSequence', ['Transform', 'Transform'], 2), [a, b])['this']
    seqcheck('sequence of one', one, ['a'])
    seqcheck('sequence of two', two, ['a', 'b'])
    seqcheck('sequence of two with one appended', lambda: push(two(), c3), ['a', 'b', 'd'])
    seqcheck('sequence built by appending', lambda: push(push(push(empty(), a), b), c3), ['a', 'b', 'd'])
    seqcheck('concatenated sequences', lambda: runf(fn('TransformSequence', ['TransformSequence', 'TransformSequence'], 2), [two(), push(empty(), c3)])['this'], ['a', 'b', 'd'])
    seqcheck('concatenated with an empty sequence', lambda: runf(fn('TransformSequence', ['TransformSequence', 'TransformSequence'], 2), [two(), empty()])['this'], ['a', 'b'])
    seqcheck('sequence appended to a sequence', lambda: push(push(empty(), c3), two()), ['d', 'a', 'b'])
    seqcheck('cleared sequence', lambda: runf(fn('clear'), [], two())['this'], [])
    seqcheck('inverse of a sequence', lambda: runf(fn('inverse'), [], push(two(), c3))['ret'], [show(app('inv', sym(x))) for x in 'dba'])
    seqcheck('inverse of an empty sequence', lambda: runf(fn('inverse'), [], empty())['ret'], [])
