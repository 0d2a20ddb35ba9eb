"""Angular momentum.  Small Wigner functions, Clebsch-Gordan coefficients, recoupling constants, helicity basis states, Wick rotations and the
helicity amplitude recursion are abstracted (spins concrete, angles and momenta symbolic) and compared with their definitions, exactly in the
square roots involved and under the kinematic constraints (unit directions, mass shell)."""
from ..value import *
from .. import extract, den, value as V, alg
from ..run import where
from ..tensors import *
from math import factorial
from .T02 import enum_of
ASSUMPTIONS = ['exact arithmetic (rounding ignored)', 'the expression, tensor and transformation layers have the meaning established by X01, X02, T01 and T02', 'generic momenta (transverse momentum non-zero) and momenta along +z']
SRC = ['src/Wigner.cpp', 'src/DiracMatrices.cpp', 'src/Transform.cpp', 'src/Tensor.cpp', 'src/Vertex.cpp']
h = Fr(1, 2)
def fac(x): return factorial(int(x))
def spins(j): return [Fr(-j) + i for i in range(int(2 * j) + 1)]
def sq(r): return app('sqrt', ('n', Fr(r))) if r != 0 else ZERO

def d_spec(j, m, n, C='_ch', S_='_sh'):
    """d^j_{m n}: sum over k of (-1)^(k-n+m) ... cos(t/2)^(2j+n-m-2k) sin(t/2)^(m-n+2k)"""
    t = ZERO
    pre = sq(fac(j + m) * fac(j - m) * fac(j + n) * fac(j - n))
    for k in range(0, int(2 * j) + 1):
        den_ = [j + n - k, k, m - k - n if False else j - k - m, k - n + m]
        if any(x < 0 for x in den_): continue
        w = Fr((-1) ** int(k - n + m), fac(j + n - k) * fac(k) * fac(j - k - m) * fac(k - n + m))
        a, b = int(2 * j + n - m - 2 * k), int(m - n + 2 * k)
        e = ('n', w)
        if a: e = mul(e, ('^', sym(C), num(a)))
        if b: e = mul(e, ('^', sym(S_), num(b)))
        t = add(t, e)
    return mul(pre, t)
def cg_spec(j1, m1, j2, m2, J, M):
    if m1 + m2 != M or abs(m1) > j1 or abs(m2) > j2 or abs(M) > J or J > j1 + j2 or J < abs(j1 - j2): return ZERO
    if any((x).denominator != 1 for x in (j1 + m1, j2 + m2, J + M, j1 + j2 + J)): return None
    pre = Fr((2 * J + 1) * fac(J + j1 - j2) * fac(J - j1 + j2) * fac(j1 + j2 - J), fac(j1 + j2 + J + 1)) * fac(J + M) * fac(J - M) * fac(j1 - m1) * fac(j1 + m1) * fac(j2 - m2) * fac(j2 + m2)
    s = Fr(0)
    for k in range(0, 40):
        ds = [k, j1 + j2 - J - k, j1 - m1 - k, j2 + m2 - k, J - j2 + m1 + k, J - j1 - m2 + k]
        if any(x < 0 for x in ds): continue
        p = 1
        for x in ds: p *= fac(x)
        s += Fr((-1) ** k, p)
    return mul(sq(pre), ('n', s)) if s else ZERO

def check(ctx):
    P = extract.load(SRC)
    ident = lambda m, n, st, fr: m.rv(n['a'][0], st, fr)
    def noe(m, n, st, fr): return m.rd(st, m.objpath(n, st, fr))
    base = den.overrides({'ctor:AmpGen::NormalOrderedExpression': ident, 'AmpGen::NormalOrderedExpression::operator Expression': noe, 'AmpGen::NormalOrderedExpression::operator AmpGen::Expression': noe})
    def run(f, args, this=None, extra=None):
        ctx.saw('functions', f['q'])
        ov = dict(base); ov.update(extra or {})
        return Machine(P, ov, limit=900).function(f, args, this)
    none = lambda s: None
    def one(q, n=None):
        fs = [f for f in P.find(q) if n is None or len(f['p']) == n]
        if not fs: ctx.unknown(q, q, 'not found'); return None
        return fs[0]
    def attempt(name, f, g):
        if f is None: return
        try: g()
        except Undecided as e: ctx.unknown(name, where(f), e)
    thorough = ctx.tier != 'quick'
    # ---- combinatorics
    f = one('fact')
    if f:
        for k in range(0, 9):
            def g(): ctx.decide('factorial of %d' % k, ground(run(f, [num(k)])['ret'], num(factorial(k))), where(f), '')
            attempt('factorial', f, g)
    f = one('binomialCoefficient')
    if f:
        import math
        for n in range(0, 8):
            def g():
                for r in range(0, n + 1):
                    v = run(f, [num(n), num(r)])['ret']; ok = ground(v, num(math.comb(n, r)))
                    if ok is not True: ctx.decide('binomial coefficients of %d' % n, ok, where(f), 'C(%d,%d) = %s' % (n, r, show(v)[:60])); return
                ctx.decide('binomial coefficients of %d' % n, True, where(f), '')
            attempt('binomial', f, g)
    # ---- small d functions
    f = one('AmpGen::wigner_d')
    def sm(s):
        c, sn, ch, sh = alg.cosine(s, 'c'); s.set('_ch', ch); s.set('_sh', sh)
    for tj in range(0, 7 if thorough else 6):
        j = Fr(tj, 2)
        for m in spins(j):
            for n in spins(j):
                nm = 'd^%s_{%s,%s}' % (j, m, n)
                def g():
                    ok, why = alg.agree(run(f, [sym('c'), ('n', j), ('n', m), ('n', n)])['ret'], d_spec(j, m, n), sm)
                    ctx.decide(nm, ok, where(f), why)
                attempt(nm, f, g)
    # ---- Clebsch-Gordan
    f = one('AmpGen::CG')
    jm = 4 if thorough else 3
    for t1 in range(0, jm + 1):
        for t2 in range(0, jm + 1):
            j1, j2 = Fr(t1, 2), Fr(t2, 2)
            def g():
                bad = None
                for tJ in range(t1 % 2 ^ t2 % 2, t1 + t2 + 3, 2):
                    J = Fr(tJ, 2)
                    for m1 in spins(j1):
                        for m2 in spins(j2):
                            for M in ([m1 + m2] if (t1 + t2) % 2 else [m1 + m2, m1 + m2 + 1]):
                                w = cg_spec(j1, m1, j2, m2, J, M)
                                v = run(f, [('n', Fr(x)) for x in (j1, m1, j2, m2, J, M)])['ret']
                                ok, why = alg.agree(v, w, none)
                                if ok is not True:
                                    ctx.decide('Clebsch-Gordan coefficients of %s x %s' % (j1, j2), ok, where(f), '<%s %s; %s %s | %s %s> = %s instead of %s' % (j1, m1, j2, m2, J, M, show(v)[:80], show(w)[:80])); return
                # projections outside the multiplets never couple
                for (m1, m2, J) in ((j1 + 1, j2, j1 + j2 + 1), (j1, -j2 - 1, j1 + j2), (j1 + 1, -j2 - 1, abs(j1 - j2)), (-j1 - 1, j2 + 1, j1 + j2)):
                    v = run(f, [('n', Fr(x)) for x in (j1, m1, j2, m2, J, m1 + m2)])['ret']
                    ok, why = alg.agree(v, ZERO, none)
                    if ok is not True: ctx.decide('Clebsch-Gordan coefficients of %s x %s' % (j1, j2), ok, where(f), 'unphysical projection %s, %s couples to %s: %s' % (m1, m2, J, show(v)[:80])); return
                ctx.decide('Clebsch-Gordan coefficients of %s x %s' % (j1, j2), True, where(f), '')
            attempt('Clebsch-Gordan coefficients of %s x %s' % (j1, j2), f, g)
    # ---- recoupling
    f = one('AmpGen::calculate_recoupling_constants')
    for J, L, S_, j1, j2 in ((0, 0, 0, 0, 0), (1, 1, 0, 0, 0), (2, 2, 0, 0, 0), (1, 0, 1, 1, 0), (1, 1, 1, 1, 0), (1, 2, 1, 1, 0), (0, 0, 0, 1, 1), (0, 1, 1, 1, 1), (0, 2, 2, 1, 1), (h, 0, h, h, 0), (h, 1, h, h, 0), (h, 1, h, h, 1), (h, 2, 3 * h, h, 1),
                              (3 * h, 1, h, h, 0), (3 * h, 2, h, h, 0), (1, 0, 1, h, h), (1, 1, 0, h, h), (2, 1, 1, 1, 0), (2, 2, 2, 2, 0), (h, 1, 3 * h, 3 * h, 0), (1, 1, 2, 1, 1), (2, 0, 2, 1, 1)):
        nm = 'helicity couplings of J=%s -> %s %s, L=%s S=%s' % (J, j1, j2, L, S_)
        def g():
            J_, L_, SS, a, b = (Fr(x) for x in (J, L, S_, j1, j2))
            r = run(f, [('n', x) for x in (J_, J_, L_, SS, a, b)])['ret']
            if r[0] != 'list': raise Undecided('couplings %s' % show(r)[:100])
            got = {}
            for x in r[1:]:
                m1, m2 = as_num(field(x, 'm1')), as_num(field(x, 'm2'))
                if m1 is None or m2 is None: raise Undecided('projection')
                if (m1, m2) in got: ctx.decide(nm, False, where(f), 'helicities %s, %s are listed twice' % (m1, m2)); return
                got[m1, m2] = field(x, 'factor')
            for m1 in spins(a):
                for m2 in spins(b):
                    c1, c2 = cg_spec(L_, Fr(0), SS, m1 - m2, J_, m1 - m2), cg_spec(a, m1, b, -m2, SS, m1 - m2)
                    w = ZERO if ZERO in (c1, c2) else mul(sq((2 * L_ + 1) / (2 * J_ + 1)), mul(c1, c2))
                    v = got.pop((m1, m2), ZERO)
                    ok, why = alg.agree(v, w, none)
                    if ok is not True: ctx.decide(nm, ok, where(f), 'helicities %s, %s have coupling %s instead of %s' % (m1, m2, show(v)[:80], show(w)[:80])); return
            ctx.decide(nm, not got, where(f), 'helicities %s do not exist' % list(got))
        attempt(nm, f, g)
    # ---- basis states
    f = one('AmpGen::basisSpinor')
    for id_, pol, pos in ((11, 1, 0), (11, -1, 1), (-11, 1, 2), (-11, -1, 3)):
        def g():
            d_, e = read(run(f, [num(pol), num(id_)])['ret'])
            if e is None or list(d_) != [4]: ctx.decide('rest spinor, %s, spin %+d' % ('particle' if id_ > 0 else 'antiparticle', pol), False, where(f), 'there is no such state: a tensor of extents %s' % list(d_)); return
            ok, why = alg.agree_all([(e[i,], num(1 if i == pos else 0), 'component %d' % i) for i in range(4)], none)
            ctx.decide('rest spinor, %s, spin %+d' % ('particle' if id_ > 0 else 'antiparticle', pol), ok, where(f), why)
        attempt('rest spinor', f, g)
    f = one('AmpGen::basisVector')
    r2 = sq(h)
    for pol, w in ((0, [ZERO, ZERO, ONE, ZERO]), (1, [neg(r2), neg(mul(r2, I)), ZERO, ZERO]), (-1, [r2, neg(mul(r2, I)), ZERO, ZERO])):
        def g():
            d_, e = read(run(f, [num(pol)])['ret'])
            if e is None or list(d_) != [4]: ctx.decide('rest polarisation vector, spin %+d' % pol, False, where(f), 'there is no such state: a tensor of extents %s' % list(d_)); return
            ok, why = alg.agree_all([(e[i,], w[i], 'component %d' % i) for i in range(4)], none)
            ctx.decide('rest polarisation vector, spin %+d' % pol, ok, where(f), why)
        attempt('rest polarisation vector', f, g)
    # ---- D functions
    f = one('AmpGen::wigner_D')
    if f:
        for J, a, b in ((1, 1, 0), (1, -1, 1), (h, h, -h), (2, 1, 2), (0, 0, 0)):
            def g():
                J_, a_, b_ = Fr(J), Fr(a), Fr(b)
                od = {'AmpGen::wigner_d': lambda m, n, st, fr: app('d', *[m.rv(x, st, fr) for x in n['a']])}
                v = run(f, [('obj', 'pair', (('first', sym('c')), ('second', sym('e')))), ('n', J_), ('n', a_), ('n', b_), NULL], None, od)['ret']
                k = b_ - a_
                w = app('d', sym('c'), ('n', J_), ('n', a_), ('n', b_))
                if k: w = mul(('^', sym('e'), ('n', k)), w)
                ok, why = alg.agree(v, w, none, funcs=('d',))
                ctx.decide('D^%s_{%s,%s}' % (J, a, b), ok, where(f), why)
            attempt('D', f, g)
    # ---- angles
    f = one('angCoordinates')
    if f:
        def sph(s):
            dirn(s, 'p'); 
        def dirn(s, nm):
            c, sn, ch, sh = alg.cosine(s, None)
            t = s.draw(); cp, sp = (1 - t * t) / (1 + t * t), 2 * t / (1 + t * t)
            r = s.draw(0.2, 3.)
            s.root(r, r * sn)
            s.set(nm + '0', r * sn * cp); s.set(nm + '1', r * sn * sp); s.set(nm + '2', r * c); s.set('_c', c); s.set('_cp', cp); s.set('_sp', sp)
            return r, c, sn, cp, sp
        def g():
            v = run(f, [vec('p'), NULL])['ret']
            if v[0] != 'obj' or v[1] != 'pair': raise Undecided('angles %s' % show(v)[:60])
            d = dict(v[2])
            ok, why = alg.agree(d['first'], sym('_c'), sph)
            ctx.decide('polar angle of a momentum', ok, where(f), why)
            ok, why = alg.agree(d['second'], add(sym('_cp'), mul(I, sym('_sp'))), sph)
            ctx.decide('azimuthal phase of a momentum', ok, where(f), why)
        attempt('angles', f, g)
    wick(ctx, P, run, one, attempt)
    recursion(ctx, P, run, one, attempt)

def rot(axis, c, s):
    """Rodrigues matrix, 4x4"""
    k = axis; r = {}
    K = {(0, 1): neg(k[2]), (0, 2): k[1], (1, 0): k[2], (1, 2): neg(k[0]), (2, 0): neg(k[1]), (2, 1): k[0]}
    for i in range(4):
        for j in range(4):
            if i == 3 or j == 3: r[i, j] = ONE if i == j else ZERO; continue
            r[i, j] = add(add(c if i == j else ZERO, mul(s, K.get((i, j), ZERO))), mul(V.sub(ONE, c), mul(k[i], k[j])))
    return r
def boost_z(g, gb):
    r = eye(4); r[2, 2] = r[3, 3] = g; r[2, 3] = r[3, 2] = neg(gb); return r

def wick(ctx, P, run, one, attempt):
    f = one('AmpGen::wickTransform')
    if f is None: return
    fc = next((g for g in P.find('AmpGen::TransformSequence::operator()') if len(g['p']) == 1), None)
    if fc is None: ctx.unknown('Wick rotation', where(f), 'TransformSequence'); return
    C, SN, CP, SP, G, GB = (sym('_' + x) for x in ('c', 'sn', 'cp', 'sp', 'g', 'gb'))
    def sampler(massive, along):
        def s_(s):
            if along:
                c, sn, ch, sh = (1, 0, 1, 0) if not s.field else (alg.M(1), alg.M(0), alg.M(1), alg.M(0))
                cp, sp = (1., 0.) if not s.field else (alg.M(1), alg.M(0))
            else:
                c, sn, ch, sh = alg.cosine(s, None)
                t = s.draw(); cp, sp = (1 - t * t) / (1 + t * t), 2 * t / (1 + t * t)
            if massive:
                g, gb, _, _ = alg.gamma(s, None); m = s.draw(0.5, 2.); s.root(m); p, E = m * gb, m * g
                s.set('M2', m * m); s.set('_m', m); s.set('_g', g); s.set('_gb', gb)
            else: p = s.draw(0.2, 2.); E = p
            if not along: s.root(p, p * sn)
            else: s.root(p)
            for n, v in zip(('p0', 'p1', 'p2', 'p3'), (p * sn * cp, p * sn * sp, p * c, E)): s.set(n, v)
            for n, v in (('_c', c), ('_sn', sn), ('_cp', cp), ('_sp', sp)): s.set(n, v)
        return s_
    for massive in (True, False):
        for along in (False, True):
            SM = sampler(massive, along)
            def tern(m, n, st, fr):
                c, a, b = [m.rv(x, st, fr) for x in n['a'][:3]]
                if c in (TRUE, FALSE): return a if c == TRUE else b
                import random
                got = set(); rnd = random.Random(3)
                for i in range(6):
                    s = alg.Sample(False, rnd); SM(s)
                    try: got.add(alg.Real(s, rnd).truth(c))
                    except Exception: raise Undecided('condition %s' % show(c)[:80])
                if len(got) != 1:
                    # both sides are open regions of momenta: the identity has to hold on each
                    if c not in split: split.append(c)
                    return a if choice.get(c, True) else b
                return a if got.pop() else b
            split, choice = [], {}
            def regions(body):
                """every way the conditions that depend on the momentum can go"""
                split.clear(); choice.clear(); body()
                if len(split) > 3: raise Undecided('%d conditions on the momentum' % len(split))
                cs = list(split)
                for i in range(1, 2 ** len(cs)):
                    choice.update({c: not (i >> j) & 1 for j, c in enumerate(cs)}); body()
            k = lambda v: (lambda m, n, st, fr: v)
            ov = {'ctor:AmpGen::Ternary': tern, 'AmpGen::Particle::isStable': k(FALSE if massive else TRUE), 'AmpGen::Particle::massSq': k(sym('M2')), 'AmpGen::Particle::props': k(('addr', (('v', -77, 'PROPS'),))),
                  'AmpGen::ParticleProperties::isPhoton': k(FALSE if massive else TRUE), 'AmpGen::ParticleProperties::isNeutrino': k(FALSE)}
            for ve in (1, -1):
                nm = 'Wick rotation of %s momentum%s to %sz' % ('a massive' if massive else 'a massless', ' along z' if along else '', '+' if ve == 1 else '-')
                def g():
                    seq = run(f, [mk([4], [ZERO, ZERO, sym('p2'), sym('p3')]) if along else vec('p'), sym('PARTICLE'), num(ve), NULL], None, ov)['ret']
                    got = mat(run(fc, [('enum', 'AmpGen::Transform::Representation', 'Vector', 2)], seq, ov)['ret'])[1]
                    if ve == 1: R = rot([SP, neg(CP), ZERO], C, SN)
                    else: R = mmul(rot([ONE, ZERO, ZERO], num(-1), ZERO), rot([neg(SP), CP, ZERO], neg(C), SN))
                    if massive: R = mmul(boost_z(G, GB), R)
                    pv = [sym('p%d' % i) for i in range(4)]
                    a = mvec(got, pv)
                    w = [ZERO, ZERO, ZERO, sym('_m')] if massive else [ZERO, ZERO, sym('p3'), sym('p3')]
                    ok, why = alg.agree_all([(a[i], w[i], 'component %d of the momentum' % i) for i in range(4)], SM)
                    ctx.decide(nm + ' puts the particle %s' % ('at rest' if massive else 'along +z'), ok, where(f), why)
                    ok, why = alg.agree_all(mpairs(got, R), SM)
                    ctx.decide(nm + ' is the rotation in the plane of momentum and z', ok, where(f), why)
                attempt(nm, f, lambda: regions(g))
            if massive and not along:
                # particles taken to their rest frame: everything but stable massless ones
                for st_, ph, nu_ in ((TRUE, FALSE, FALSE), (FALSE, TRUE, FALSE), (FALSE, FALSE, TRUE)):
                    o2 = dict(ov); o2.update({'AmpGen::Particle::isStable': k(st_), 'AmpGen::ParticleProperties::isPhoton': k(ph), 'AmpGen::ParticleProperties::isNeutrino': k(nu_)})
                    def g():
                        seq = run(f, [vec('p'), sym('PARTICLE'), num(1), NULL], None, o2)['ret']
                        a = mvec(mat(run(fc, [('enum', 'AmpGen::Transform::Representation', 'Vector', 2)], seq, o2)['ret'])[1], [sym('p%d' % i) for i in range(4)])
                        ok, why = alg.agree_all([(a[i], [ZERO, ZERO, ZERO, sym('_m')][i], 'component %d' % i) for i in range(4)], SM)
                        ctx.decide('Wick rotation of a particle with stable=%s photon=%s neutrino=%s ends at rest' % (st_[1], ph[1], nu_[1]), ok, where(f), why)
                    attempt('Wick rotation', f, lambda: regions(g))

def recursion(ctx, P, run, one, attempt):
    """one step of the helicity recursion: sum over couplings of coupling * D * amplitude(first) * amplitude(second), and its end points"""
    f = one('AmpGen::helicityAmplitude')
    if f is None: return
    k = lambda v: (lambda m, n, st, fr: v)
    PQ = 'AmpGen::Particle::'
    PART, FRAME, MZ = sym('PART'), sym('FRAME'), sym('Mz')
    def meth(q):
        def hd(m, n, st, fr): return ('app', q, strip(m.rv(n['o'], st, fr))) + tuple(strip(m.rv(x, st, fr)) for x in n['a'])
        return hd
    def strip(t): return t[1] if t[0] == 'deref' else t
    def fn(q, keep=None):
        def hd(m, n, st, fr): return ('app', q) + tuple(strip(m.rv(x, st, fr)) for x in (n['a'] if keep is None else n['a'][:keep]))
        return hd
    D = lambda i: ('app', 'daughter', PART, num(i))
    Pm = lambda o: ('app', 'P', o)
    VEC = ('enum', 'AmpGen::Transform::Representation', 'Vector', 2)
    def setup(couplings, **kw):
        ov = {PQ + q: meth(q) for q in ('daughter', 'spin', 'L', 'P', 'polState', 'index', 'externalSpinTensor')}
        ov.update({PQ + 'props': meth('props'), PQ + 'isStable': k(FALSE), PQ + 'isHead': k(FALSE), PQ + 'S': k(num(2)), PQ + 'attribute': k(('none',)), PQ + 'spinOrbitCouplings': k(('list',)), PQ + 'daughters': k(('list', sym('D1'), sym('D2'))),
                   'AmpGen::wickTransform': fn('wick', 3), 'AmpGen::wigner_D': fn('D', 4), 'angCoordinates': fn('ang', 1), 'index_string': k(S('KEY')), 'ctor:AmpGen::TransformSequence': fn('seq'),
                   'AmpGen::TransformSequence::operator()': fn('frame'), 'AmpGen::Tensor::st': k(VOID), 'AmpGen::ParticleProperties::isPhoton': k(FALSE),
                   'AmpGen::calculate_recoupling_constants': lambda m, n, st, fr: (args.append(tuple(strip(m.rv(x, st, fr)) for x in n['a'])), ('list',) + tuple(
                       ('obj', 'AmpGen::LS', (('cg1', ZERO), ('cg2', ZERO), ('factor', sym('g%d' % i)), ('m1', ('n', Fr(a))), ('m2', ('n', Fr(b))), ('p', ONE))) for i, (a, b) in enumerate(couplings)))[1],
                   'AmpGen::NamedParameter::operator bool': k(FALSE)})
        ov.update(kw.pop('ov', {}))
        args = []
        return ov, args
    def clean(t):
        """the cache handed down is not part of the value"""
        if not isinstance(t, tuple) or not t: return t
        if t[0] == 'deref': return clean(t[1])
        if t[0] == 'app' and t[1].startswith('rec:'):
            a = [clean(x) for x in t[2:]]
            return ('app', 'amp', a[0], a[1], a[2], a[4])
        if t[0] == 'conv': return clean(t[-1])
        return tuple(clean(x) if isinstance(x, tuple) else x for x in t)
    def amp(d, frame, m, s): return ('app', 'amp', D(d), frame, ('n', Fr(m)), num(s))
    def step(nm, couplings, head, sgn, extra=None, skip=()):
        def g():
            ov, args = setup(couplings, ov={PQ + 'isHead': k(TRUE if head else FALSE), **(extra or {})})
            v = clean(run(f, [PART, FRAME, MZ, NULL, num(sgn), NULL], None, ov)['ret'])
            fr_ = ('app', 'seq') if head else ('app', 'seq', FRAME, ('app', 'wick', ('app', 'frame', FRAME, Pm(PART), VEC), PART, num(sgn)))
            w = ZERO
            for i, (a, b) in enumerate(couplings):
                if (a, b) in skip: continue
                Dm = ('app', 'D', ('app', 'ang', ('app', 'frame', fr_, Pm(D(0)), VEC)), ('app', 'spin', PART), MZ, ('n', Fr(a - b)))
                w = add(w, mul(sym('g%d' % i), mul(Dm, mul(amp(0, fr_, a, 1), amp(1, fr_, b, -1)))))
            names = {}
            def atoms(t):
                if not isinstance(t, tuple) or not t: return t
                if t[0] == 'app' and t[1] in ('D', 'amp'): return sym(names.setdefault(t, '%s%d' % (t[1], len(names))))
                return tuple(atoms(x) for x in t)
            ok, why = alg.agree(atoms(v), atoms(w), lambda s: s.complex(*names.values()))
            if ok is False: why = show(v)[:300] + ': ' + why
            ctx.decide(nm, ok, where(f), why)
            if not extra:
                wa = (('app', 'spin', PART), MZ, ('app', 'L', PART), ONE, ('app', 'spin', D(0)), ('app', 'spin', D(1)))
                got = clean(args[0]) if len(args) == 1 else None
                ctx.decide(nm + ', couplings asked for', True if got == wa else False if got is not None and all(x[0] in ('app', 'sym', 'n') for x in got) else None, where(f), 'asks for %s' % (got and ', '.join(map(show, got))))
        attempt(nm, f, g)
    step('helicity recursion of a decaying particle', ((1, 0), (0, 0), (-1, 1)), False, 1)
    step('helicity recursion of a decaying second daughter', ((h, h), (-h, h)), False, -1)
    step('helicity recursion of the head of the decay', ((1, 1), (0, 0), (-1, -1)), True, 1)
    ph = lambda who: {PQ + 'props': meth('props'), 'AmpGen::ParticleProperties::isPhoton': lambda m, n, st, fr: ('b', clean(strip(m.rv(n['o'], st, fr))) == ('app', 'props', D(who)))}
    step('helicity recursion with a photon first', ((1, 0), (0, 0), (-1, 0)), False, 1, ph(0), ((0, 0),))
    step('helicity recursion with a photon second', ((1, 0), (0, 1), (0, -1)), False, 1, ph(1), ((1, 0),))
    # spin of the pair: stated explicitly, or the one that goes with L
    def g():
        ov, args = setup(((1, 0),), ov={PQ + 'S': k(ZERO), PQ + 'L': k(ONE), PQ + 'spinOrbitCouplings': k(('list', pair(0, 0), pair(1, 2), pair(1, 1), pair(2, 2)))})
        run(f, [PART, FRAME, MZ, NULL, ONE, NULL], None, ov)
        got = args[0][3] if len(args) == 1 else None
        ctx.decide('spin coupling defaults to the first allowed with L', None if got is None else ground(got, num(2)), where(f), 'spin %s' % (got and show(got)))
    pair = lambda a, b: ('obj', 'pair', (('first', num(a)), ('second', num(b))))
    attempt('spin coupling default', f, g)
    # pass-through of one-body chains
    def g():
        ov, args = setup((), ov={PQ + 'daughters': k(('list', sym('D1')))})
        v = clean(run(f, [PART, FRAME, MZ, NULL, ONE, NULL], None, ov)['ret'])
        w = ('app', 'amp', D(0), FRAME, MZ, ONE)
        ctx.decide('helicity amplitude of a one-body chain is that of its daughter', True if v == w else None, where(f), show(v)[:200])
    attempt('one-body chain', f, g)
    # end points
    B = ('app', 'seq', FRAME, ('app', 'wick', ('app', 'frame', FRAME, Pm(PART), VEC), PART, ONE))
    for mz, w in ((0, ONE), (1, ZERO)):
        def g():
            ov, args = setup((), ov={PQ + 'daughters': k(('list',)), PQ + 'isStable': k(TRUE), 'AmpGen::ParticleProperties::twoSpin': k(ZERO)})
            v = run(f, [PART, FRAME, num(mz), NULL, ONE, NULL], None, ov)['ret']
            if v[0] == 'b': v = ONE if v[1] else ZERO
            ctx.decide('stable scalar with projection %d' % mz, ground(v, w), where(f), show(v)[:80])
        attempt('stable scalar', f, g)
    INVF = ('app', 'inverse', B)
    pol = mk([4], [sym('e%d' % i) for i in range(4)])
    def fermion(mz):
        log = []
        def bs(m, n, st, fr): log.append(tuple(m.rv(x, st, fr) for x in n['a'])); return sym('REST')
        def fr_(m, n, st, fr):
            a = tuple(strip(m.rv(x, st, fr)) for x in n['a'])
            if a[0] == INVF and a[1] == sym('REST') and a[2][2] == 'Bispinor': return mk([4], [sym('u%d' % i) for i in range(4)])
            return ('app', 'frame') + a
        ov, args = setup((), ov={PQ + 'daughters': k(('list',)), PQ + 'isStable': k(TRUE), 'AmpGen::ParticleProperties::twoSpin': k(ONE), 'AmpGen::basisSpinor': bs, 'AmpGen::TransformSequence::inverse': meth('inverse'), 'AmpGen::TransformSequence::operator()': fr_,
                                 PQ + 'externalSpinTensor': lambda m, n, st, fr: pol if clean(m.rv(n['a'][0], st, fr)) == ('app', 'polState', PART) else None, 'AmpGen::ParticleProperties::pdgID': meth('id')})
        v = run(f, [PART, FRAME, ('n', mz), NULL, ONE, NULL], None, ov)['ret']
        if v[0] == 'obj': v = read(v)[1][()] if () in read(v)[1] else list(read(v)[1].values())[0]
        w = ZERO
        for i in range(4): w = add(w, mul(num(1 if i < 2 else -1), mul(den.un('conj', sym('u%d' % i)), sym('e%d' % i))))
        ok, why = alg.agree(v, w, lambda s: s.complex('u0', 'u1', 'u2', 'u3', 'e0', 'e1', 'e2', 'e3'))
        ctx.decide('stable fermion with projection %s: overlap with the spin state in its own frame' % mz, ok, where(f), why)
        got = log[0][0] if len(log) == 1 else sym('?')
        ctx.decide('stable fermion with projection %s: rest spinor' % mz, ground(got, ('n', 2 * mz)), where(f), 'uses the spinor of polarisation %s' % show(got))
    for mz in (h, -h): attempt('stable fermion', f, lambda: fermion(mz))
    def vector():
        def fr_(m, n, st, fr):
            a = tuple(strip(m.rv(x, st, fr)) for x in n['a'])
            if a[0] == INVF and a[1] == sym('REST') and a[2][2] == 'Vector': return mk([4], [sym('u%d' % i) for i in range(4)])
            return ('app', 'frame') + a
        ov, args = setup((), ov={PQ + 'daughters': k(('list',)), PQ + 'isStable': k(TRUE), 'AmpGen::ParticleProperties::twoSpin': k(num(2)), 'AmpGen::basisVector': lambda m, n, st, fr: sym('REST') if m.rv(n['a'][0], st, fr) == ONE else sym('OTHER'), 'AmpGen::TransformSequence::inverse': meth('inverse'),
                                 'AmpGen::TransformSequence::operator()': fr_, PQ + 'externalSpinTensor': lambda m, n, st, fr: pol if clean(m.rv(n['a'][0], st, fr)) == ('app', 'polState', PART) else None})
        v = run(f, [PART, FRAME, ONE, NULL, ONE, NULL], None, ov)['ret']
        w = ZERO
        for i in range(4): w = add(w, mul(num(metric(i)), mul(den.un('conj', sym('u%d' % i)), sym('e%d' % i))))
        ok, why = alg.agree(v, w, lambda s: s.complex('u0', 'u1', 'u2', 'u3', 'e0', 'e1', 'e2', 'e3'))
        ctx.decide('stable vector: overlap with the polarisation in its own frame', ok, where(f), why)
    attempt('stable vector', f, vector)
