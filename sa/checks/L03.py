"""K-matrix amplitudes.  Each K-matrix shape is abstracted with the matrix inverse left uninterpreted (T01 decides the inverse): the matrix
handed to the inversion must be 1 - i K rho with K the sum of pole terms and background, and the amplitude returned must be the stated
combination of propagator elements, pole couplings and production terms, for every channel, pole, modifier and parameter value."""
from ..value import *
from .. import extract
from ..shapes import *
from .. import shapes as H
from ..run import where
from ..tensors import mk, fresh, read, coords, field
from .L02 import particle_methods, pm, plain, PART, NM

ASSUMPTIONS = ['exact arithmetic (rounding ignored)', 'the expression layer has the meaning established by X01 and X02', 'matrix inversion has the meaning established by T01', 'GeV = 1']

def F_(a, b): return E(sym('F%d%d' % (a, b)))

class Run:
    """one abstract execution; the inverse is a matrix of symbols F_ij and its argument is recorded"""
    def __init__(self, P, extra=None, named=None, vectors=None):
        self.P, self.inv = P, []
        named, vectors = named or {}, vectors or {}
        def inv(m, n, st, fr):
            o = m.rd(st, m.objpath(n, st, fr))
            self.inv.append(read(o)); d = self.inv[-1][0]
            return fresh('F', d)
        def np_ctor(m, n, st, fr):
            a = [m.rv(x, st, fr) for x in n['a']]
            if not a or a[0][0] != 's': return None
            return ('app', 'named', a[0], a[1] if len(a) > 1 else NULL)
        def obj(m, n, st, fr):
            if 'o' not in n: return m.rv(n['a'][0], st, fr)
            try: return m.rd(st, m.objpath(n, st, fr))
            except Undecided: return m.rv(n['o'], st, fr)
        def np_get(m, n, st, fr):
            v = obj(m, n, st, fr)
            if v[0] != 'app' or v[1] != 'named': return None
            return named.get(v[2][1], v[3] if v[3] != NULL else None)
        def np_vec(m, n, st, fr):
            v = obj(m, n, st, fr)
            return vectors.get(v[2][1]) if v[0] == 'app' and v[1] == 'named' else None
        ex = {'AmpGen::Tensor::Invert': inv, 'ctor:AmpGen::NamedParameter': np_ctor, 'AmpGen::NamedParameter::getVal': np_get, 'AmpGen::NamedParameter::getVector': np_vec}
        for f in P.fns.values():
            if f['q'].startswith('AmpGen::NamedParameter::operator ') or f['q'].startswith('AmpGen::NamedParameter<') and '::operator ' in f['q']: ex[strip_targs(f['q'])] = np_get
        for t_ in ('bool', 'unsigned long', 'unsigned int', 'size_t', 'AmpGen::PA_TYPE', 'std::string', 'std::basic_string<char>', 'T', 'unsigned'): ex['AmpGen::NamedParameter::operator ' + t_] = np_get
        ex.update(extra or {})
        self.ov = H.overrides(ex)
    def __call__(self, f, args, this=None): return Machine(self.P, self.ov, limit=60).function(f, args, this)['ret']

def kmat(n, poles, sv):
    return {(a, b): sum_([p[1][a] * p[1][b] / (p[0] - sv) for p in poles]) for a in range(n) for b in range(n)}
def sum_(xs):
    r = E(0)
    for x in xs: r = r + x
    return r

def check(ctx):
    P = H.load(['src/Tensor.cpp'])
    funcs = FUNCS + ('mass', 'massSq', 'prop', 'phsp')
    def dom(x): return H.dom(x)
    def same(name, f, got, want):
        ok, why = agree(plain(got), t(want), dom, funcs)
        ctx.decide(name, ok, where(f), '%s; code has %s' % (why, show(got)[:160]))
    def matrix(name, f, rec, n, K, rho):
        """the matrix that is inverted is 1 - i K rho"""
        if len(rec) != 1: ctx.unknown(name, where(f), '%d inversions' % len(rec)); return
        d, el = rec[0]
        if d != [n, n] or el is None: ctx.decide(name, False, where(f), 'matrix of extents %s' % d); return
        v, w = True, ''
        for c in coords([n, n]):
            ok, y = agree(plain(el[c]), t(E(1 if c[0] == c[1] else 0) - i * K[c] * rho[c[1]]), dom, funcs)
            if ok is False: v, w = False, 'element %s : %s; code has %s' % (list(c), y, show(el[c])[:160]); break
            if ok is None: v, w = None, y
        ctx.decide(name, v, where(f), w)
    def get(n, npar):
        fs = [f for f in P.fns.values() if f['q'] == 'AmpGen::Lineshape::%s::get' % n and f.get('body') and len(f['p']) == npar]
        if not fs: ctx.unknown(n, '', 'not found')
        return fs[0] if fs else None
    def attempt(lab, f, g):
        if f is None: return
        ctx.saw('functions', f['q'])
        try: g()
        except Undecided as e: ctx.unknown(lab, where(f), e)
    # ---- the pole sum and the propagator
    f = next((g for g in P.find('AmpGen::constructKMatrix') if g.get('body')), None)
    for n, np in ((1, 1), (2, 1), (2, 3), (3, 2)):
        g_ = lambda p, c: E(sym('g%d_%d' % (p, c)))
        poles = [(E(sym('S%d' % p)), [g_(p, c) for c in range(n)]) for p in range(np)]
        pv = ('list',) + tuple(('obj', 'AmpGen::poleConfig', (('s', p[0].t), ('couplings', ('list',) + tuple(x.t for x in p[1])), ('bl_factors', ('list',) + (ONE,) * n))) for p in poles)
        def go():
            d, el = read(Run(P)(f, [s.t, num(n), pv]))
            lab = 'K-matrix of %d poles in %d channels' % (np, n)
            if d != [n, n]: ctx.decide(lab, False, where(f), 'extents %s' % d); return
            K = kmat(n, poles, s)
            for c in coords([n, n]): same('%s, element %s' % (lab, list(c)), f, el[c], K[c])
        attempt('K-matrix', f, go)
    f = next((g for g in P.find('AmpGen::getPropagator') if g.get('body')), None)
    for n in (1, 2, 3):
        def go():
            r = Run(P); K = fresh('k', [n, n]); rho = [E(sym('rho%d' % k)) for k in range(n)]
            out = r(f, [K, ('list',) + tuple(x.t for x in rho), NULL])
            matrix('propagator of %d channels inverts 1 - i K rho' % n, f, r.inv, n, {c: E(x) for c, x in read(K)[1].items()}, rho)
            d, el = read(out)
            ctx.decide('propagator of %d channels is that inverse' % n, all(el[c] == sym('F%d%d' % c) for c in coords([n, n])) if d == [n, n] else False, where(f), '')
        attempt('propagator', f, go)
    # ---- the isoscalar pi pi S-wave
    f = get('kMatrix', 7)
    if f is not None:
        ch = ['pipi', 'KK', '4pi', 'EtaEta', 'EtapEta']
        mp, mk, me, mx = E(0.139570), E(0.493677), E(0.547862), E(0.967780)
        s0p, s0s, sA0, sA = par(NM + '_s0_prod', -0.07), par('s0_scatt', -3.92637), par('sA0', -0.15), par('sA', 1.0)
        rho = [two_body(s, mp, mp), two_body(s, mk, mk), four_pi(s), two_body(s, me, me), two_body(s, me, mx)]
        for fp in (True, False):
            poles = []
            for p in range(1, 6):
                m = par('IS_p%d_mass' % p)
                poles.append((m * m + (i * E(('n', Fr('1e-6'))) if fp else E(0)), [par('IS_p%d_%s' % (p, c)) for c in ch]))
            K = kmat(5, poles, s)
            for k in range(5):
                sc = par('f_scatt%d' % k) * (1 - s0s) / (s - s0s)
                K[k, 0] = K[k, 0] + sc
                if k: K[0, k] = K[0, k] + sc
            ad = (1 - sA0) * (s - sA * mp * mp / 2) / (s - sA0)
            K = {c: ad * x for c, x in K.items()}
            def production(k): return (1 - s0p) / (s - s0p)
            cases = []
            for k in range(5):
                cases.append(('pole.%d' % k, sum_([F_(0, c) * poles[k][1][c] for c in range(5)]) / (poles[k][0] - s)))
                cases.append(('poleKK.%d' % k, sum_([F_(1, c) * poles[k][1][c] for c in range(5)]) / (poles[k][0] - s)))
                cases.append(('prod.%d' % k, F_(0, k) * production(k)))
                cases.append(('prodKK.%d' % k, F_(1, k) * production(k)))
            for a, b in ((0, 0), (0, 1), (1, 0), (2, 1), (4, 3)): cases.append(('scatt.%d.%d' % (a, b), sum_([K[x_, a] * F_(b, x_) for x_ in range(5)])))
            if not fp: cases = [c for c in cases if c[0] in ('pole.2', 'prod.1', 'scatt.1.0')]
            first = True
            for mod, want in cases:
                lab = 'kMatrix.%s%s' % (mod, '' if fp else ' without imaginary mass')
                def go():
                    nonlocal first
                    r = Run(P, named={'kMatrix::fp': ('b', fp)})
                    out = r(f, [s.t, s1.t, s2.t, S(NM), num(0), S(mod), NULL])
                    if first: matrix('kMatrix propagator%s' % ('' if fp else ' without imaginary mass'), f, r.inv, 5, K, rho); first = False
                    same(lab, f, out, want)
                attempt(lab, f, go)
    # ---- K pi S-wave
    for n in ('FOCUS', 'PALANO'):
        f = get(n, 7)
        if f is None: continue
        mK, mP, mE = pdg('K+', 'mass'), pdg('pi+', 'mass'), pdg("eta'(958)0" if n == 'FOCUS' else 'eta0', 'mass')
        sN = mK * mK + mP * mP
        q = lambda *a: [E(('n', Fr(x))) for x in a]
        if n == 'FOCUS':
            a12, a32 = (s - q('0.23')[0]) / sN, (s - q('0.27')[0]) / sN
            poles = [(q('1.7919')[0], q('0.31072', '-0.02323'))]
            r1, r2 = focus(s, mK, mP), focus(s, mK, mE)
            X = s / sN - 1
            C = {(0, 0): q('0.79299', '-0.15099', '0.00811'), (1, 1): q('0.17054', '-0.0219', '0.00085655'), (0, 1): q('0.15040', '-0.038266', '0.0022596')}
            c32 = q('-0.22147', '0.026637', '-0.00092057')
        else:
            a12, a32 = s / sN - q('0.87753')[0], s / sN - q('1.0209')[0]
            poles = [(q('1.7991')[0], q('0.3139', '-0.00775')), (q('8.3627')[0], q('1.1804', '-0.22335'))]
            r1, r2 = two_body(s, mK, mP), two_body(s, mK, mE)
            X = (2 * s - q('5.832')[0] - q('0.360')[0]) / (q('5.832')[0] - q('0.360')[0])
            C = {(0, 0): q('-0.1553', '0.0909', '0.8618', '0.0629'), (1, 1): q('-0.0036', '0.2590', '1.6950', '2.2300'), (0, 1): q('0.0738', '0.3866', '1.2195', '0.8390')}
            c32 = q('-0.04046', '0.08143', '-0.08849')
        K = kmat(2, poles, s)
        k11, k12, k22 = [a12 * (K[c] + pol(X, C[c])) for c in ((0, 0), (0, 1), (1, 1))]
        det = k11 * k22 - k12 * k12
        dl = 1 - r1 * r2 * det - i * (r1 * k11 + r2 * k22)
        for mod, want in (('Kpi', (k11 - i * r2 * det) / dl), ('KEta', k12 / dl), ('I32', 1 / (1 - i * a32 * pol(X, c32) * r1))):
            def go():
                same('%s.%s' % (n, mod), f, Run(P)(f, [s.t, s1.t, s2.t, S(NM), num(0), S(mod), NULL]), want)
            attempt('%s.%s' % (n, mod), f, go)
    # ---- simple K-matrix
    f = get('kMatrixSimple', 7)
    for np, nc in ((1, 1), (2, 2), (1, 3), (3, 2)):
        if f is None: break
        chn = {'kMatrix::Channel::%d' % (k + 1): ('list', S('a%d' % k), S('b%d' % k)) for k in range(nc)}
        ms = [(pdg('a%d' % k, 'mass'), pdg('b%d' % k, 'mass')) for k in range(nc)]
        rho = [two_body(s, *x) for x in ms]
        poles = []
        for p in range(1, np + 1):
            m = par('kMatrix::pole::%d::mass' % p)
            poles.append((m * m, [sqrt(m * par('kMatrix::pole::%d::width::%d' % (p, c)) / two_body(m * m, *ms[c])) for c in range(nc)]))
        for k in range(np):
            def go():
                r = Run(P, named={'kMatrix::nPoles': num(np), 'kMatrix::nChannels': num(nc)}, vectors=chn)
                out = r(f, [s.t, s1.t, s2.t, S(NM), num(0), S(str(k)), NULL])
                lab = 'kMatrixSimple.%d with %d poles in %d channels' % (k, np, nc)
                if k == 0: matrix('propagator of ' + lab, f, r.inv, nc, kmat(nc, poles, s), rho)
                same(lab, f, out, sum_([F_(0, c) * poles[k][1][c] for c in range(nc)]) / (poles[k][0] - s))
            attempt('kMatrixSimple', f, go)
    generic(ctx, P, get('GenericKmatrix', 3), attempt, matrix, same)

def generic(ctx, P, f, attempt, matrix, same):
    if f is None: return
    sv = E(pm('massSq'))
    nm = S(NM)
    for np, nc, shape in ((1, 1, 'flat'), (2, 2, 'flat'), (1, 2, 'pole'), (2, 3, 'flat')):
        named = {NM + '::kMatrix::nPoles': num(np)}
        vectors = {NM + '::kMatrix::channels': ('list',) + tuple(S('CH%d' % k) for k in range(nc))}
        for a in range(1, nc + 1):
            for b in range(1, nc + 1): named['%s::%d::%d::nrShape' % (NM, min(a, b), max(a, b))] = S(shape)
        extra = dict(particle_methods())
        extra['AmpGen::Particle::name'] = lambda m, n, st, fr: nm
        extra['AmpGen::phaseSpace'] = lambda m, n, st, fr: ('app', 'phsp') + tuple(m.rv(x, st, fr) for x in n['a'][:3])
        extra['ctor:AmpGen::Particle'] = lambda m, n, st, fr: ('app', 'particle', m.rv(n['a'][0], st, fr)) if n['a'][0].get('t', '').find('Particle') < 0 else m.rv(n['a'][0], st, fr)
        def ph(x, k): p = ('app', 'particle', S('CH%d' % k)); return E(('app', 'phsp', t(x), p, pm('L', p)))
        poles = []
        for p in range(1, np + 1):
            st = '%s::pole::%d' % (NM, p); m = par(st + '::mass')
            poles.append((m * m, [par('%s::g::%d' % (st, c + 1)) for c in range(nc)]))
        nr = {}
        for a in range(nc):
            for b in range(nc):
                x = '%d::%d' % (min(a, b) + 1, max(a, b) + 1)
                f1 = par(NM + '::f1::' + x, 0)
                nr[a, b] = f1 if shape == 'flat' else (f1 + par(NM + '::f2::' + x, 0) * sqrt(sv)) / (sv - par(NM + '::s0::' + x, 0))
        K = {c: x + nr[c] for c, x in kmat(nc, poles, sv).items()}
        rho = [ph(sv, k) for k in range(nc)]
        def one(kind, val, mod, want):
            lab = 'GenericKmatrix %s%s with %d poles in %d channels, %s background' % (kind, mod, np, nc, shape)
            def go():
                ex = dict(extra)
                r = Run(P, ex, dict(named, **{NM + '::kMatrix::production_amplitude': ('enum', 'AmpGen::PA_TYPE', ('PVec', 'QVec', 'ZVec')[val], val)}), vectors)
                def eqpa(m, n, st, fr):
                    vs = [m.rv(x, st, fr) for x in n['a']]
                    return None
                out = r(f, [PART, S(mod), NULL])
                if mod in ('', 'x.1.1'): matrix('propagator of ' + lab, f, r.inv, nc, K, rho)
                same(lab, f, out, want)
            attempt(lab, f, go)
        a = [par('%s::a::%d' % (NM, k + 1)) for k in range(nc)]
        s0 = par(NM + '::s0')
        def Pv(k):
            phi = sum_([a[q] * nr[k, q] for q in range(nc)])
            return sum_([sum_([a[q] * p[1][q] for q in range(nc)]) * p[1][k] / (p[0] - sv) for p in poles]) + phi * (1 + s0) / (sv - s0)
        one('PVec', 0, '', sum_([F_(0, k) * Pv(k) for k in range(nc)]))
        one('QVec', 1, '', sum_([K[k, 0] * F_(0, k) for k in range(nc)]))
        for c in range(nc):
            for p in range(np): one('ZVec ', 2, 'x.%d.%d' % (p + 1, c + 1), sum_([F_(c, k) * poles[p][1][k] for k in range(nc)]) / (poles[p][0] - sv))
