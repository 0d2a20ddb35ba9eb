"""Lineshapes.  Each registered lineshape is abstracted, for every documented modifier and orbital angular momentum, to the term it denotes
as a function of s, the decay-product masses and its named parameters (with their defaults), and compared with the documented formula.
Parameters are identified by name and default value, so reading the wrong parameter or particle property is a difference."""
from ..value import *
from .. import extract
from ..shapes import *
from .. import shapes as H
from ..lib import callv
from ..run import where

ASSUMPTIONS = ['exact arithmetic (rounding ignored)', 'the expression layer has the meaning established by X01 and X02', 'splines are a function of (name, argument, kind, continuation flag)']
NM = 'NAME'
def P_(x, attr): return par(x + '_' + attr, pdg(x, attr))
mass, width0, radius = P_(NM, 'mass'), P_(NM, 'width'), P_(NM, 'radius')
LS = (0, 1, 2, 3, 4)

def ff(q2, L, kind, q20=None):
    z = q2 * radius * radius
    if kind == 'NFF': return E(1)
    if kind == 'BL': return sqrt(barrier(z, L))
    if kind == 'BELLE2018': return sqrt(barrier_norm(z, q20 * radius * radius, L))
    return sqrt(barrier_norm(z, E(0), L))

def shapes():
    """(lineshape, modifier, particle, L, formula, domain)"""
    out = []
    def put(n, mod, L, f, name=NM, dom=None): out.append((n, mod, name, L, f, dom))
    q2, q20 = Q2(s, s1, s2), Q2(mass * mass, s1, s2)
    above = {s.t: (1.6, 3.)}
    for L in LS:
        put('None', '', L, E(1))
        for mod in ('', 'BL', 'NFF', 'BELLE2018'): put('FormFactor', mod, L, ff(q2, L, mod, q20), dom=above)
        a2, a20 = abs_(q2), abs_(q20)
        for mod in ('', 'BL', 'NFF', 'BELLE2018'):
            f = ff(a2, L, mod, a20) / (mass * mass - s - i * mass * H.width(s, s1, s2, mass, width0, radius, L))
            put('BW', mod, L, f if mod == 'BELLE2018' else kfactor(mass, width0) * f)
        put('SBW', '', L, kfactor(mass, width0) / (mass * mass - s - i * mass * width0))
        put('ExpFF', '', L, exp(-q2 * radius * radius / 2))
        put('NonRelBW', '', L, sqrt(width0 / 2 / pi) / (sqrt(s) - mass - i * width0 / 2))
        put('Photon', '', L, 1 / (s - mass * mass))
        put('FormFactorSpline', '', L, spl(NM, s, 'FF') / (mass * mass - s - i * mass * H.width(s, s1, s2, mass, width0, radius, L)))
        for mod in ('', 'IncludeRadiusInWidth', 'BL', 'BL.IncludeRadiusInWidth'):
            mpi = pdg('pi+', 'mass')
            def p2(x): return x - 4 * mpi * mpi
            def p(x): y = p2(x); return where_(y > 0, sqrt(y), 0)
            def lg(x): return log((sqrt(x) + p(x)) / (2 * mpi))
            s0 = mass * mass
            M2 = s0 + width0 / pi * (2 * s0 * p2(s) * p(s) / (sqrt(s) * p(s0) ** 3) * lg(s) + (p2(s) * (s - 3 * s0) + s * (s0 - s)) / (mass * p2(s0)) * lg(s0) + (s0 - s) / p(s0))
            r = radius if 'Radius' in mod else E(0)
            put('GounarisSakurai', mod, L, kfactor(mass, width0) * ff(a2, L, 'BL' if 'BL' in mod else '') / (M2 - s - i * mass * H.width(s, s1, s2, mass, width0, r, L)), dom={**above})
        for mod in ('', 'BL', 'EFF', 'Dis', 'Dis.BL'):
            F = exp(-a2 * radius * radius / 2) if 'EFF' in mod else ff(a2, L, 'BL' if 'BL' in mod else '')
            m2 = mass * mass
            if 'Dis' in mod: m2 = m2 + spl(NM, s, 'dm2', True) - spl(NM, mass * mass, 'dm2', True)
            put('GSpline', mod, L, kfactor(mass, width0) * F / (m2 - i * mass * width0 * spl(NM, s, 'Gamma', True) / spl(NM, mass * mass, 'Gamma', True) - s))
    for k in range(4): put('FormFactor', 'L%d' % k, 2, ff(q2, k, ''), dom=above)
    # K pi S-wave
    def kpi(a, r):
        q = where_(q2 > 0, sqrt(q2), 0)
        return q, 1 + a * r * q2 / 2
    a, r = par('LASS::a', 2.07), par('LASS::r', 3.32)
    q, cot = kpi(a, r)
    rho0 = sqrt(q20) / mass
    gam = width0 * (q / sqrt(s)) / rho0
    bw = mass * width0 / (rho0 * (mass * mass - s - i * mass * gam)) * (cot + i * a * q) / (cot - i * a * q)
    nr = a * sqrt(s) / (cot - i * a * q)
    nrx = 2 * a * sqrt(s) / (2 + a * r * q * q - 2 * i * a * q)
    put('LASS', 'BW', 0, bw, dom=above); put('LASS', 'NR', 0, nrx, dom=above); put('LASS', '', 0, nrx + bw, dom=above)
    G = lambda n, d: par(NM + '::GLASS::' + n, d)
    a, r, phiR, phiF, R, F = G('a', 2.07), G('r', 3.32), G('phiR', 0.), G('phiF', 0.), G('R', 1.), G('F', 1.)
    q, cot = kpi(a, r)
    wd = width0 * mass * sqrt(q2 / (q20 * s))
    rbw = mass * mass * width0 / (sqrt(q20) * (mass * mass - s - i * mass * wd))
    put('GLASS', '', 0, (F * exp(i * phiF) * (a * q * cos(phiF) + cot * sin(phiF)) * sqrt(s) / q + R * exp(i * (phiR + 2 * phiF)) * rbw * (cot + i * a * q)) / (cot - i * a * q), dom=above)
    # Flatte
    mK, mPi, mEta, mPi0, mK0 = [pdg(n, 'mass') for n in ('K+', 'pi+', 'eta0', 'pi0', 'K0')]
    cs = lambda m: csqrt(1 - 4 * m * m / s)
    def ps(m): y = 1 - 4 * m * m / s; return where_(y > 0, sqrt(y), 0)
    n = 'f(0)(980)0'; m0 = P_(n, 'mass')
    Gpi = cs(mPi0) / 3 + 2 * cs(mPi) / 3
    g1, g2 = par('Flatte::gPi', 0.165), par('Flatte::gK_by_gPi', 4.21)
    for mod in ('', 'CutKK', 'kFactor'):
        rK = ps if mod == 'CutKK' else cs
        w = g1 * (Gpi + g2 * (rK(mK0) + rK(mK)) / 2)
        f = 1 / (m0 * m0 - i * m0 * w - s)
        put('Flatte', mod, 0, kfactor(m0, w) * f if mod == 'kFactor' else f, name=n, dom={s.t: (0.3, 2.)})
    n = 'a(0)(980)0'; m0 = P_(n, 'mass')
    g1, g2 = par('Flatte::g2pieta', 0.175), par('Flatte::g2KK_by_g2pieta', 1.20)
    Gpe = sqrt((1 - (mPi - mEta) * (mPi - mEta) / s) * (1 - (mPi + mEta) * (mPi + mEta) / s))
    put('Flatte', '', 0, 1 / (m0 * m0 - i * m0 * g1 * (Gpe + g2 * cs(mK)) - s), name=n, dom={s.t: (1.05, 2.), mK.t: (0.4, 0.8)})
    # Bugg
    B = lambda n, d: par('Bugg::' + n, d)
    M, b1, b2, A, g4, gK, ge, al = B('M', 0.935), B('b1', 1.302), B('b2', 0.340), B('A', 2.426), B('g_4pi', 0.011), B('g_2K', 0.6), B('g_2eta', 0.2), B('alpha', 1.3)
    mp, mk, me = E(0.139570), E(0.493677), E(0.547863)
    sA = B('sA', 0.41) * mp * mp
    s04, lam = B('s0_4pi', E(7.082) / E(2.845)), B('lambda_4pi', 2.845)
    g = M * (b1 + b2 * s) * exp(-(s - M * M) / A)
    adler = (s - sA) / (M * M - sA)
    def j1(x):
        y = 1 - 4 * mp * mp / x; rr = sqrt(where_(y > 0, y, 0))
        return (2 + where_(rr > 0, rr * log((1 - rr) / (1 + rr)), 0)) / pi
    r2 = lambda m: csqrt(1 - 4 * m * m / s)
    qq = lambda m: where_(s > 4 * m * m, s - 4 * m * m, 4 * m * m - s)
    r4 = lambda x: 1 / (1 + exp(lam * (s04 - x)))
    tot = g * adler * r2(mp) + gK * g * s / (M * M) * exp(-al * qq(mk)) * r2(mk) + ge * g * s / (M * M) * exp(-al * qq(me)) * r2(me) + M * where_(s > 16 * mp * mp, g4 * r4(s) / r4(M * M), 0)
    f = 1 / (M * M - s - g * adler * (j1(s) - j1(M * M)) - i * tot)
    put('Bugg', '', 0, f); put('Bugg', 'Az', 0, f * (s - sA) * g)
    It = lambda n, d: par('Isotensor::' + n, d)
    d = -2 * It('a', 55.21) * pi / 180 * sqrt(s / 4 - mp * mp) / (1 + It('b', 0.853) * s + It('c', -0.959) * s ** 2 + It('d', 0.314) * s ** 3)
    put('Isotensor', '', 0, (exp(i * d) - 1) / (2 * i))
    mu, sg = par('MOD_mean'), par('MOD_sigma')
    put('Gaussian', 'MOD', 0, exp(-(s - mu) * (s - mu) / (2 * sg * sg)))
    for deg in (0, 1, 2, 4): out.append(('Poly', 'MOD', NM, 0, pol(s, [par('MOD_c%d' % k) for k in range(deg + 1)]), {'MOD::Degree': num(deg)}))
    put('DecaySpline', '', 0, spl(NM, q2, 'FF'))
    for mod in ('', 'continue', 'Polar'):
        re, im = spl(NM, s, 'Re', mod == 'continue'), spl(NM, s, 'Im', mod == 'continue')
        put('MIPWA', mod, 0, re * (cos(im) + i * sin(im)) if mod == 'Polar' else re + i * im)
    eta, dl = spl(NM, s, 'Eta', True), spl(NM, s, 'Delta', True)
    put('InelasticSpline', '', 0, (eta * (cos(2 * dl) + i * sin(2 * dl)) - 1) / (2 * i))
    return out

def check(ctx):
    P = H.load()
    named = {}
    def np_ctor(m, n, st, fr):
        a = [m.rv(x, st, fr) for x in n['a']]
        if not a or a[0][0] != 's': return None
        return ('app', 'named', a[0])
    def np_get(m, n, st, fr):
        v = m.rv(n['o'], st, fr) if 'o' in n else m.rv(n['a'][0], st, fr)
        return named.get(v[2][1]) if v[0] == 'app' and v[1] == 'named' else None
    ov = H.overrides({'ctor:AmpGen::NamedParameter': np_ctor, 'AmpGen::NamedParameter::getVal': np_get, 'AmpGen::NamedParameter::operator unsigned long': np_get})
    for (n, mod, name, L, want, dm) in shapes():
        lab = '%s%s%s, L=%d%s' % (n, '.' if mod else '', mod, L, '' if name == NM else ' ' + name)
        fs = [f for f in P.fns.values() if f['q'] == 'AmpGen::Lineshape::%s::get' % n and f.get('body') and len(f['p']) == 7]
        if not fs: ctx.unknown(lab, '', 'not found'); continue
        f = fs[0]; named.clear()
        over = {}
        for k, v in (dm or {}).items():
            if isinstance(k, str): named[k] = v; lab += ' %s=%s' % (k, show(v))
            else: over[k] = v
        try: got = Machine(P, ov, limit=20).function(f, [s.t, s1.t, s2.t, S(name), num(L), S(mod), NULL])['ret']
        except Undecided as e: ctx.unknown(lab, where(f), e); continue
        ctx.saw('functions', f['q'])
        ok, why = compare(got, want, over)
        ctx.decide(lab, ok, where(f), '%s; code has %s' % (why, show(got)[:160]))
    forwarding(ctx, P)
    generic(ctx, P, named, np_ctor, np_get)
    coupled(ctx, P, np_ctor)
    factory(ctx, P)

PART = sym('particle')
def meth(name, nargs=0):
    def h(m, n, st, fr):
        o = m.rd(st, m.objpath(n, st, fr)) if n.get('arrow') else m.rv(n['o'], st, fr)
        if o[0] == 'addr' or o == NULL: return None
        a = [m.rv(x, st, fr) for x in n['a'] if x.get('k') != 'defarg']
        return ('app', name, o) + tuple(a)
    return h
def particle_methods():
    return {'AmpGen::Particle::' + q: meth(q) for q in ('massSq', 'mass', 'name', 'L', 'daughter', 'P', 'props', 'getFinalStateParticles', 'isStable', 'attribute')}
def pm(q, o=PART, *a): return ('app', q, o) + a

def forwarding(ctx, P):
    """get(particle, modifier, db) hands the particle's own kinematics, name and orbital momentum to the two-body form"""
    for f in P.fns.values():
        if not (f['q'].startswith('AmpGen::Lineshape::') and f['q'].endswith('::get') and f.get('body') and len(f['p']) == 3): continue
        cls = f['q'].split('::')[-2]
        if cls in ('Factory', 'Base'): continue
        log = []
        def get(m, n, st, fr, log=log):
            if len(n['a']) != 7: return None
            log.append(tuple(m.rv(x, st, fr) for x in n['a'])); return sym('RESULT')
        ov = H.overrides({**particle_methods(), f['q']: get})
        try: r = Machine(P, ov, limit=5).function(f, [PART, S('MOD'), NULL])['ret']
        except Undecided as e: continue
        if r != sym('RESULT') or len(log) != 1: continue
        ctx.saw('forwarders', f['q'])
        d = lambda k: pm('daughter', PART, num(k))
        want = (pm('massSq'), pm('massSq', d(0)), pm('massSq', d(1)), pm('name'), pm('L'), S('MOD'), NULL)
        got = tuple(plain(x) for x in log[0])
        ctx.decide('%s of a particle uses its own kinematics' % cls, True if got == want else False if all(opaque_free(x) for x in got) else None, where(f), 'passes (%s)' % ', '.join(show(x) for x in got))
def opaque_free(t): return not any(x and x[0] not in ('app', 'sym', 'n', 's', 'b', 'null', '+', '*', '/', 'neg') for x in subterms(t))

def plain(t):
    """daughters are compared by identity, whether reached by pointer or reference; the dot product is symmetric"""
    if not isinstance(t, tuple) or not t: return t
    if t[0] == 'deref': return plain(t[1])
    t = tuple(plain(x) for x in t)
    if t[0] == 'app' and t[1] in ('dot', 'AmpGen::dot') and len(t) == 4: return ('app', 'dot') + tuple(sorted(t[2:], key=repr))
    return t

def generic(ctx, P, named, np_ctor, np_get):
    four = {'P': lambda o: o}
    def dot(m, n, st, fr): return ('app', 'dot') + tuple(m.rv(x, st, fr) for x in n['a'])
    def tplus(m, n, st, fr):
        if len(n['a']) != 2 or not all('Tensor' in x.get('t', '') for x in n['a']): return None
        return ('app', 'vsum') + tuple(sorted((m.rv(x, st, fr) for x in n['a']), key=repr))
    ov = H.overrides({**particle_methods(), 'AmpGen::dot': dot, 'ctor:AmpGen::NamedParameter': np_ctor, 'AmpGen::NamedParameter::getVal': np_get, 'AmpGen::NamedParameter::operator unsigned long': np_get})
    plus = ov['AmpGen::operator+']
    ov['AmpGen::operator+'] = lambda m, n, st, fr: tplus(m, n, st, fr) or plus(m, n, st, fr)
    inner = lambda m, n, st, fr: ('app', 'inner') + tuple(m.rv(x, st, fr) for x in n['a'][:2])
    ov['AmpGen::Lineshape::Factory::get'] = inner
    dn = lambda x: pm('daughter', PART, x)
    names = {x: ('app', 'daughter', PART, S(x), num(-1)) for x in ('pi+', 'pi-', 'pi0')}
    Pv = lambda o: pm('P', o)
    d_ = lambda u, v: E(('app', 'dot') + tuple(sorted((u, v), key=repr)))
    T = {k: d_(Pv(o), Pv(PART)) - E(pm('mass')) * E(pm('mass', o)) for k, o in names.items()}
    z = 1 - E(1.07) * (3 * T['pi0'] / (T['pi+'] + T['pi-'] + T['pi0']) - 1)
    eta = where_(z > 0, sqrt(z), 1)
    cases = [('TD', '', {}, E(('app', 'param', cat(pm('name'), S('_decayTime')), ZERO)) / (2 * E(('app', 'prop', S('lifetime'), pm('props'))))),
             ('EtaDalitz', '', {}, eta), ('EtaDalitz', 'Gaussian.X', {}, eta * E(('app', 'inner', S('Gaussian.X'), PART)))]
    for deg in (0, 1, 2):
        s01, s02 = [(lambda v: d_(v, v))(('app', 'vsum') + tuple(sorted((Pv(dn(num(0))), Pv(dn(num(k)))), key=repr))) for k in (1, 2)]
        w = E(0)
        for a in range(deg + 1):
            for b in range(deg + 1): w = w + par('MOD_%d_%d' % (a, b), 0) * s01 ** a * s02 ** b
        cases.append(('PolyNR', 'MOD', {'MOD::Degree': num(deg)}, w))
    funcs = FUNCS + ('mass', 'massSq', 'dot', 'vsum', 'inner', 'prop')
    for n, mod, nm, want in cases:
        named.clear(); named.update(nm)
        lab = 'particle form of %s %s %s' % (n, mod, ' '.join(show(v) for v in nm.values()))
        for f in P.fns.values():
            if f['q'] != 'AmpGen::Lineshape::%s::get' % n or len(f['p']) != 3: continue
            try: got = plain(Machine(P, ov, limit=20).function(f, [PART, S(mod), NULL])['ret'])
            except Undecided as e: ctx.unknown(lab, where(f), e); continue
            ctx.saw('functions', f['q'])
            ok, why = agree(got, t(want), H.dom, funcs)
            ctx.decide(lab, ok, where(f), '%s; code has %s' % (why, show(got)[:160]))
def coupled(ctx, P, np_ctor):
    fs = [f for f in P.find('AmpGen::Lineshape::CoupledChannel::get') if len(f['p']) == 7]
    if not fs: ctx.unknown('CoupledChannel', '', 'not found'); return
    f = fs[0]
    for nch in (0, 1, 2, 3):
        chans = ('list',) + tuple(S(v) for k in range(nch) for v in ('CH%d' % k, 'g%d' % k))
        def vec(m, n, st, fr):
            v = m.rv(n['o'], st, fr)
            return chans if v == ('app', 'named', S(NM + '_channels')) else None
        ph = lambda m, n, st, fr: ('app', 'phsp') + tuple(m.rv(x, st, fr) for x in n['a'][:3])
        ov = H.overrides({**particle_methods(), 'ctor:AmpGen::NamedParameter': np_ctor, 'AmpGen::NamedParameter::getVector': vec, 'AmpGen::phaseSpace': ph,
                          'ctor:AmpGen::Particle': lambda m, n, st, fr: ('app', 'particle', m.rv(n['a'][0], st, fr))})
        for L in (0, 2):
            for mod in ('', 'BL', 'norm'):
                def tot(x):
                    r = E(0)
                    for k in range(nch):
                        p = ('app', 'particle', S('CH%d' % k))
                        r = r + par('g%d' % k, 0) * E(('app', 'phsp', t(x), p, pm('L', p)))
                    return r
                if mod == 'norm' and nch == 0: continue
                w = tot(s) * width0 / tot(mass * mass) if mod == 'norm' else tot(s)
                want = kfactor(mass, width0) * ff(abs_(Q2(s, s1, s2)), L, mod if mod == 'BL' else '') / (mass * mass - s - i * mass * w)
                lab = 'CoupledChannel.%s with %d channels, L=%d' % (mod, nch, L)
                try: got = plain(Machine(P, ov, limit=20).function(f, [s.t, s1.t, s2.t, S(NM), num(L), S(mod), NULL])['ret'])
                except Undecided as e: ctx.unknown(lab, where(f), e); continue
                ctx.saw('functions', f['q'])
                ok, why = agree(got, t(want), H.dom, FUNCS + ('phsp',))
                ctx.decide(lab, ok, where(f), '%s; code has %s' % (why, show(got)[:160]))
    phase(ctx, P)

def phase(ctx, P):
    """phase-space factors of two- and three-body channels"""
    fs = [f for f in P.find('AmpGen::phaseSpace') if f.get('body')]
    if not fs: ctx.unknown('phaseSpace', '', 'not found'); return
    f = fs[0]
    d0, d1 = pm('daughter', PART, num(0)), pm('daughter', PART, num(1))
    ma, mb = E(pm('massSq', d0)), E(pm('massSq', d1))
    R = E(('app', 'param', cat(pm('name'), S('_radius')), ('app', 'prop', S('radius'), pm('props'))))
    kal = lambda a, b, c: a * a + b * b + c * c - 2 * a * b - 2 * a * c - 2 * b * c
    funcs = FUNCS + ('mass', 'massSq', 'prop')
    def run(lab, nfs, attr, L, stable, want, dom=None):
        ms = particle_methods()
        ms['AmpGen::Particle::getFinalStateParticles'] = lambda m, n, st, fr: ('list',) + tuple(sym('fs%d' % k) for k in range(nfs))
        ms['AmpGen::Particle::attribute'] = lambda m, n, st, fr: ('none',) if attr is None else S(attr)
        def st_(m, n, st, fr):
            o = plain(m.rd(st, m.objpath(n, st, fr)) if n.get('arrow') else m.rv(n['o'], st, fr))
            return ('b', stable[0] if o == d0 else stable[1])
        ms['AmpGen::Particle::isStable'] = st_
        ov = H.overrides(ms)
        try: got = plain(Machine(P, ov, limit=20).function(f, [s.t, PART, num(L)])['ret'])
        except Undecided as e: ctx.unknown(lab, where(f), e); return
        ctx.saw('functions', f['q'])
        ok, why = agree(got, t(want), dom or H.dom, funcs)
        ctx.decide(lab, ok, where(f), '%s; code has %s' % (why, show(got)[:200]))
    for L in (0, 1, 2, 3, 4):
        k2 = Q2(s, ma, mb)
        run('two-body phase space with barrier, L=%d' % L, 2, None, L, (True, True), csqrt(kal(s, ma, mb)) / (16 * pi * s) * barrier(where_(k2 > 0, k2, 0) * R * R, L))
    k2 = Q2(s, ma, mb)
    run('two-body phase space, arXiv.0707.3596', 2, 'arXiv.0707.3596', 0, (True, True), 2 * csqrt(k2 / s))
    m1, m2 = E(pm('mass', d0)), E(pm('mass', d1))
    q = csqrt(kal(s, m1 * m1, m2 * m2) / (4 * s))
    cm = (2 * q * log((m1 * m1 + m2 * m2 - s + 2 * sqrt(s) * q) / (2 * m1 * m2)) / sqrt(s) - (m1 * m1 - m2 * m2) * (1 / s - 1 / ((m1 + m2) * (m1 + m2))) * log(m1 / m2)) / (16 * i * pi * pi)
    run('Chew-Mandelstam two-body phase space', 2, 'CM', 0, (True, True), cm)
    # the dispersive phase space of higher waves: a Pade approximant of the dispersion integral below and above threshold, plus the discontinuity above it
    pr0 = lambda o, a: E(('app', 'prop', S(a), pm('props', o)))
    for L in (1, 2, 3):
        lab = 'dispersive two-body phase space, L=%d' % L
        made, inner = [], []
        def pctor(m, n, st, fr, made=made):
            v = [m.rv(x, st, fr) for x in n['a']]
            made.append([plain(callv(m, v[0], [sym('x')], st))] + [plain(x) for x in v[1:3]]); return ('obj', 'AmpGen::Pade', (('id', num(len(made) - 1)),))
        def pcall(m, n, st, fr):
            aa = list(n['a'])
            o = m.rv(n['o'], st, fr) if n.get('o') is not None else m.rv(aa.pop(0), st, fr)
            a = m.rv(aa[0], st, fr)
            if plain(a) != s.t: raise Undecided('approximant at %s' % show(a)[:40])
            return sym('pade%d' % proj(o, ('f', 'id'))[1])
        def cauchy(m, n, st, fr, inner=inner):
            v = [m.rv(x, st, fr) for x in n['a']]
            inner.append((plain(callv(m, v[0], [sym('y')], st)), plain(v[1]), plain(v[2]))); return sym('PV')
        ms = particle_methods()
        ms['AmpGen::Particle::getFinalStateParticles'] = lambda m, n, st, fr: ('list', sym('fs0'), sym('fs1'))
        ms['AmpGen::Particle::attribute'] = lambda m, n, st, fr: S('CM')
        ms['ctor:AmpGen::Pade'] = pctor; ms['AmpGen::Pade::operator()'] = pcall; ms['AmpGen::integrate_1d_cauchy'] = cauchy
        try:
            got = plain(Machine(P, H.overrides(ms), limit=20).function(f, [s.t, PART, num(L)])['ret'])
            ctx.saw('functions', f['q'])
            a, b, Rn = pr0(d0, 'mass'), pr0(d1, 'mass'), E(('app', 'prop', S('radius'), pm('props')))
            sT = (a + b) * (a + b); x, y, PV = E(sym('x')), E(sym('y')), E(sym('PV'))
            dm = H.Dom({sym('x'): (3.1, 3.5), sym('y'): (3.1, 3.5), sym('PV'): (.2, .9), sym('pade0'): (.2, .9), sym('pade1'): (.2, .9)})
            low = high = None; bad = und = None
            for k, (fx, lo, hi) in enumerate(made):
                at = [agree(u, t(w), dm, funcs)[0] for u, w in ((lo, E(0)), (hi, sT), (lo, sT), (hi, E(5)))]
                if None in at: und = und or 'range of an approximant not understood'; continue
                is_lo, is_hi = at[0] and at[1], at[2] and at[3]
                if is_lo: low = k
                elif is_hi: high = k
                else: bad = bad or 'an approximant covers neither the range below threshold nor that above it'
                ok, why = agree(realpart(fx), t(16 * (x - sT) * PV), dm, funcs)
                if ok is False: bad = bad or 'the dispersive part is not the real part of the continued function: %s' % why
                elif ok is None: und = und or why
            for g, at, lo in inner:
                q2y = Q2(y, a * a, b * b)
                ok, why = agree(g, t(barrier(q2y * Rn * Rn, L) * sqrt(q2y / y) / (8 * pi) / (y - sT)), dm, funcs)
                if ok is False: bad = bad or 'the integrand is not the once-subtracted phase space: %s' % why
                elif ok is None: und = und or why
            if len(made) != 2 or low is None or high is None or not inner: und = und or 'approximants not found'
            else:
                k2 = Q2(s, a * a, b * b)
                ok, why = agree(got, t(where_(s >= sT, E(sym('pade%d' % high)) + i * barrier(k2 * Rn * Rn, L) * 2 * sqrt(k2 / s), E(sym('pade%d' % low))) / i), dm, funcs)
                if ok is False: bad = bad or why
                elif ok is None: und = und or why
            if bad and not (und and 'approximants' in und and len(made) != 2): ctx.decide(lab, False, where(f), bad)
            elif und: ctx.unknown(lab, where(f), und)
            else: ctx.decide(lab, True, where(f), '')
        except Undecided as e: ctx.unknown(lab, where(f), e)
    for res, bach, stable in ((d0, d1, (False, True)), (d1, d0, (True, False))):
        pr = lambda o, a: E(('app', 'prop', S(a), pm('props', o)))
        a, b, c = pr(bach, 'mass'), pr(pm('daughter', res, num(0)), 'mass'), pr(pm('daughter', res, num(1)), 'mass')
        M, G = pr(res, 'mass'), pr(res, 'width')
        A, B, C = a * a, b * b, c * c
        sT = B + C + 2 * sqrt(B * C)
        z = M * (M - i * G)
        def H_(x, y, w): k = kal(x, y, w); return where_(imag(sqrt(k)) > 0, sqrt(k), -sqrt(k))
        Hz, HT = H_(s, z, A), csqrt(kal(s, sT, A))
        K = Hz * HT + z * (sT - s - A) + (s - A) * (s - A) - sT * (s + A)
        want = where_(s + A - 2 * sqrt(s * A) > sT, imag(z * log((s + A - HT - sT) / (2 * sqrt(s * A))) - Hz * log(K / (2 * sqrt(s * A) * (sT - z)))) / (16 * pi * pi * s), 0)
        run('three-body phase space, resonance is daughter %d' % (0 if res == d0 else 1), 3, None, 0, stable, want)

def realpart(v):
    """real(...) of a combination of real quantities and I, written out"""
    def go(v):
        """(real, imaginary) with every other symbol real, or None"""
        if v == I: return ZERO, ONE
        if v[0] == '+' or v[0] == '*':
            r = None
            for x in v[1:]:
                p = go(x)
                if p is None: return None
                r = p if r is None else (add(r[0], p[0]), add(r[1], p[1])) if v[0] == '+' else (V_sub(mul(r[0], p[0]), mul(r[1], p[1])), add(mul(r[0], p[1]), mul(r[1], p[0])))
            return r
        if v[0] == 'neg': p = go(v[1]); return p and (mul(num(-1), p[0]), mul(num(-1), p[1]))
        if v[0] == '/':
            p, q = go(v[1]), go(v[2])
            return None if p is None or q is None or q[1] != ZERO else (div(p[0], q[0]), div(p[1], q[0]))
        if any(x == I for x in subterms(v)): return None
        return v, ZERO
    if v[0] == 'app' and v[1] == 'real' and len(v) == 3:
        p = go(v[2])
        if p is not None: return p[0]
    return v
def V_sub(a, b): return a if b == ZERO else add(a, mul(num(-1), b))

def factory(ctx, P):
    def fget(m, n, st, fr): return ('app', 'shape', m.rv(n['a'][0], st, fr))
    for f in P.find('AmpGen::Lineshape::Factory::get'):
        for spec, base, mod in (('BW', 'BW', ''), ('BW.BL', 'BW', 'BL'), ('kMatrix.pole.1', 'kMatrix', 'pole.1')):
            log = []
            def vget(m, n, st, fr, log=log):
                o = m.rd(st, m.objpath(n, st, fr)) if n.get('arrow') else m.rv(n['o'], st, fr)
                log.append((plain(o),) + tuple(m.rv(x, st, fr) for x in n['a'])); return sym('RESULT')
            ov = H.overrides({'AmpGen::Factory::get': fget, 'AmpGen::Lineshape::Base::get': vget})
            two = len(f['p']) == 7
            args = [S(spec), s.t, s1.t, s2.t, S(NM), num(2), NULL] if two else [S(spec), PART, NULL]
            lab = 'Factory::get("%s", %s)' % (spec, 'two-body' if two else 'particle')
            try: r = Machine(P, ov, limit=5).function(f, args)['ret']
            except Undecided as e: ctx.unknown(lab, where(f), e); continue
            ctx.saw('functions', f['q'])
            sh = ('app', 'shape', S(base))
            want = (sh, s.t, s1.t, s2.t, S(NM), num(2), S(mod), NULL) if two else (sh, PART, S(mod), NULL)
            ok = True if log == [want] and r == sym('RESULT') else False if len(log) == 1 and all(opaque_free(x) for x in log[0]) else None
            ctx.decide(lab, ok, where(f), 'asks %s' % [[show(x) for x in l] for l in log])
    for f in P.find('AmpGen::Lineshape::Factory::isLineshape'):
        for spec, base in (('BW', 'BW'), ('BW.BL', 'BW'), ('kMatrix.pole.1', 'kMatrix')):
            for exists in (True, False):
                log = []
                def fget2(m, n, st, fr, log=log): log.append(m.rv(n['a'][0], st, fr)); return ('addr', (('v', -13, 'SHAPE'),)) if exists else NULL
                try: r = Machine(P, {'AmpGen::Factory::get': fget2}, limit=5).function(f, [S(spec)])['ret']
                except Undecided as e: ctx.unknown('isLineshape', where(f), e); continue
                ok = True if r == ('b', exists) and log == [S(base)] else False if r[0] == 'b' and len(log) == 1 and log[0][0] == 's' else None
                ctx.decide('isLineshape("%s") when %s is %sregistered' % (spec, base, '' if exists else 'not '), ok, where(f), 'looks up %s, gives %s' % ([show(x) for x in log], show(r)))
