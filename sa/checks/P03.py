"""Quantum numbers and selection rules of decays.  The queries of Particle are abstracted on decays whose spins, parities, charge conjugations and orbital momenta run over all
combinations up to the bound (the fields of the tree are set to the combination), and must equal the textbook rule: triangle rule, parity (-1)^L, flavour conservation, permutation
signs and the range of spin projections."""
from ..value import *
from .. import extract, part, lib
from ..run import where
from ..tensors import ground, field
import itertools
ASSUMPTIONS = ['the particle table is replaced by a small table; only quantum numbers are used by the code', 'spins up to 5/2']
SRC = ['src/Particle.cpp', 'src/ParticleProperties.cpp', 'src/QuarkContent.cpp', 'src/Utilities.cpp']
UNI = part.UNI
def check(ctx):
    P = extract.load(SRC)
    W0 = part.World(P)
    def deed(name, f, g):
        if f is None: ctx.unknown(name, 'src/Particle.cpp', 'not found'); return
        ctx.saw('functions', f['q'])
        try:
            r = g(f); ok, why = r if isinstance(r, tuple) else (r, '')
            ctx.decide(name, ok, where(f), why)
        except Undecided as e: ctx.unknown(name, where(f), e)
    def setprop(W, n, **kw):
        o = W.mem[part.ROOT[n]]
        for k, v in kw.items(): o = put(o, (('f', k),), v)
        W.mem[part.ROOT[n]] = o
    def setf(W, addr, **kw):
        root = addr[1][0] if addr[0] == 'addr' else addr
        o = W.mem[root]
        for k, v in kw.items(): o = put(o, (('f', k),), v)
        W.mem[root] = o
    def kids(W, h): return list(field(W.mem[h], 'm_daughters')[1:])
    def two(J, a, b, p=(1, 1, 1), L=0):
        W = part.World(P); h = W.build('sigma0{K0S0,pi0}'); ks = kids(W, h)
        for n, s in zip(('sigma0', 'K0S0', 'pi0'), (J, a, b)): setprop(W, n, m_twoSpin=num(s))
        setf(W, h, m_parity=num(p[0]), m_orbital=num(L))
        for k, x in zip(ks, p[1:]): setf(W, k, m_parity=num(x))
        return W, h
    MAX = 6 if ctx.tier == 'thorough' else 4
    base = []
    try: base = [two(0, 0, 0)]
    except Undecided as e: ctx.unknown('construction of a two-body decay', 'src/Particle.cpp', e)
    def variant(J, a, b, p=(1, 1, 1), L=0):
        W, h = base[0]; keep = dict(W.mem)
        for n, s in zip(('sigma0', 'K0S0', 'pi0'), (J, a, b)): setprop(W, n, m_twoSpin=num(s))
        setf(W, h, m_parity=num(p[0]), m_orbital=num(L))
        for k, x in zip(kids(W, h), p[1:]): setf(W, k, m_parity=num(x))
        return W, h, keep
    def run(f, args, *v, **kw):
        W, h, keep = variant(*v, **kw)
        try: return W.call(h, f, args, keep=False)['ret']
        finally: W.mem = keep
    spins = [(J, a, b) for J in range(MAX + 1) for a in range(MAX + 1) for b in range(a + 1) if (J + a + b) % 2 == 0]
    def waves(J, a, b, par):
        r = []
        for L in range((J + a + b) // 2 + 1):
            if par is not None and par[0] != par[1] * par[2] * (-1) ** L: continue
            for s in range(abs(a - b), a + b + 1, 2):
                if abs(2 * L - s) <= J <= 2 * L + s: r.append((L, Fr(s, 2)))
        return r
    def lits(v):
        if v[0] == 'app' and v[1] == 'pair' or v[0] == 'obj':
            pass
        try: return tuple(x for x in (as_num(lib.first(v)), as_num(lib.second(v))))
        except AttributeError: raise Undecided('not a pair: %s' % show(v)[:80])
    def pair(v):
        a, b = as_num(proj(v, ('f', 'first'))), as_num(proj(v, ('f', 'second')))
        if a is None or b is None: raise Undecided('not a definite pair: %s' % show(v)[:80])
        return a, b
    orr, soc, cp_ = W0.fns('orbitalRange'), W0.fns('spinOrbitCouplings'), W0.fns('conservesParity')
    if base:
        for par in (None, (1, 1, 1), (-1, 1, 1), (1, -1, 1), (-1, 1, -1)):
            tag = 'any parity' if par is None else 'parities %s' % (par,)
            def g(f):
                for s in spins:
                    w = waves(*s, par); want = (min(x[0] for x in w), max(x[0] for x in w)) if w else (999, 999)
                    got = pair(run(f, [('b', par is not None)], *s, p=par or (1, 1, 1)))
                    if not w: ok = got[0] > got[1] or got[0] >= 999
                    else: ok = got == want
                    if not ok: return False, '2J=%d -> %d,%d (%s): orbital momenta %s..%s instead of %s..%s' % (s + (tag,) + tuple(map(str, got)) + want)
                return True
            deed('range of orbital angular momenta, %s' % tag, orr, g)
            def g(f):
                for s in spins:
                    if par is not None and not waves(*s, par): continue
                    v = run(f, [('b', par is not None)], *s, p=par or (1, 1, 1))
                    if v[0] != 'list': raise Undecided(show(v)[:80])
                    got = sorted(pair(x) for x in v[1:])
                    if got != sorted(waves(*s, par)): return False, '2J=%d -> %d,%d (%s): couplings %s instead of %s' % (s + (tag, [tuple(map(str, x)) for x in got], [tuple(map(str, x)) for x in waves(*s, par)]))
                return True
            deed('spin-orbit couplings, %s' % tag, soc, g)
        def g(f):
            for par in itertools.product((1, -1), repeat=3):
                for L in range(5):
                    r = part.lit(run(f, [num(L)], 0, 0, 0, p=par))
                    if r != (par[0] == par[1] * par[2] * (-1) ** L): return False, 'parities %s with L=%d: %s' % (par, L, r)
            return True
        deed('parity conservation', cp_, g)
        def g(f):
            for J, a, b in spins:
                for L in range(4):
                    r = run(f, [], J, a, b, L=L)
                    if r[0] != 'n': raise Undecided(show(r)[:80])
                    want = -1 if (J - 2 * L - a - b) // 2 % 2 else 1
                    if r[1] != want: return False, '2J=%d -> %d,%d, L=%d: %s instead of %d' % (J, a, b, L, r[1], want)
            return True
        deed('sign of a two-body decay under parity', W0.fns('finalStateParity'), g)
    def fsp(t, Ls):
        """product of (-1)^(J-L-s1-s2) over the vertices"""
        pass
    for d, want in (('D0{K*(892)bar0{K-,pi+},rho(770)0{pi+,pi-}}', 1), ('D0[P]{K*(892)bar0{K-,pi+},rho(770)0{pi+,pi-}}', -1), ('D0{a(1)(1260)+{rho(770)0{pi+,pi-},pi+},K-}', 1), ('D0{a(1)(1260)+[D]{rho(770)0{pi+,pi-},pi+},K-}', 1), ('D0{a(1)(1260)+[P]{rho(770)0{pi+,pi-},pi+},K-}', 1), ('D0[P]{K(1)(1270)+[P]{rho(770)0{pi+,pi-},K+},rho(770)0{pi+,pi-}}', 1), ('D0{K*(892)bar0{K-,pi+},rho(770)0[D]{pi+,pi-}}', 1), ('D0{K*(892)bar0[D]{K-,pi+},rho(770)0[D]{pi+,pi-}}', 1), ('D0{rho(770)0{pi+,pi-},pi0}', 1), ('D0{pi0}', 1), ('B+{K(2)*(1430)0{K+,pi-},pi+}', 1)):
        def g(f):
            W = part.World(P); h = W.build(d)
            def sign(x):
                k = x['kids']
                if not k: return 1
                if len(k) == 1: return sign(k[0])
                e = UNI[x['props']][1] - 2 * x['L'] - UNI[k[0]['props']][1] - UNI[k[1]['props']][1]
                return (-1 if e // 2 % 2 else 1) * sign(k[0]) * sign(k[1])
            w = sign(W.tree(h)); r = part.lit(W.call(h, f, [], keep=False)['ret'])
            return r == w, '%d instead of %d' % (r, w)
        deed('sign of %s under parity is the product over its vertices' % d, W0.fns('finalStateParity'), g)
    for d, want in (('D0{pi0,pi0}', 1), ('D0{rho(770)0{pi+,pi-},pi0}', -1), ('D0{rho(770)0{pi+,pi-},rho(770)0{pi+,pi-}}', 1), ('D0{K-,pi+}', 1), ('B+{K(1)(1270)+{rho(770)0{pi+,pi-},K+},pi0}', -1), ('D0{Dbar0{rho(770)0,pi0}}', -1)):
        deed('C of the decay products of %s' % d, W0.fns('C'), lambda f: (lambda W: (lambda r: (r == want, '%s instead of %d' % (r, want)))(part.lit(W.call(W.build(d), f, [], keep=False)['ret'])))(part.World(P)))
        def g(f):
            W = part.World(P); h = W.build(d)
            a, b, c = [part.lit(W.call(h, x, [], keep=False)['ret']) for x in (W0.fns('C'), W0.fns('finalStateParity'), f)]
            return c == a * b, 'CP %d with C %d and P %d' % (c, a, b)
        if W0.fns('C') and W0.fns('finalStateParity'): deed('CP of %s is C times P' % d, W0.fns('CP'), g)
    # ---- polarisation states
    sp = W0.fns('setPolarisationState', 1, lambda f: 'vector' not in f['p'][0]['t'])
    def g(f):
        W = part.World(P); h = W.build('sigma0'); keep = dict(W.mem)
        for s in range(0, 7):
            for st in range(-8, 9):
                W.mem = dict(keep); setprop(W, 'sigma0', m_twoSpin=num(s))
                W.call(h, f, [num(st)])
                got = W.tree(h)['pol']
                ok = (abs(st) <= s and st % 2 == 1) if s % 2 else 2 * abs(st) <= s
                if (got == st) != ok or (not ok and got != 999): return False, 'state %d of a particle of spin %d/2 becomes %d' % (st, s, got)
        return True
    deed('a polarisation state is accepted exactly when it is a projection of the spin', sp, g)
    spv = W0.fns('setPolarisationState', 1, lambda f: 'vector' in f['p'][0]['t'])
    def g(f):
        W = part.World(P); h = W.build('Lambda(c)+{Delta(1232)++{p+,pi+},K*(892)bar0}', ['p+', 'K*(892)bar0', 'pi+'])
        W.call(h, f, [('list', num(-1), num(1), num(-1), num(0))])
        def leafs(d): return [d] if not d['kids'] else [x for k in d['kids'] for x in leafs(k)]
        t = W.tree(h); got = {x['name']: x['pol'] for x in leafs(t)}; got['head'] = t['pol']
        return got == {'p+': 1, 'K*(892)bar0': -1, 'pi+': 0, 'head': -1}, 'states %s' % got
    deed('polarisation states are given to the head and to the final state in order of its indices', spv, g)
    # ---- kind of decay
    qs = W0.fns('isQuasiStable')
    for n, want in (('K+', True), ('K*(892)0', False), ('rho(770)0', False), ('gamma0', False), ('mu-', True), ('D0', True), ('psi(2S)0', False), ('p-', True)):
        deed('%s is %squasi-stable' % (n, '' if want else 'not '), qs, lambda f: (lambda W: (lambda r: (r is want, str(r)))(part.lit(W.call(W.build(n), f, [], keep=False)['ret'])))(part.World(P)))
    wk = W0.fns('isWeakDecay')
    for d, want in (('D0{K-,pi+}', True), ('K*(892)0{K+,pi-}', False), ('rho(770)0{pi+,pi-}', False), ('a(1)(1260)+{rho(770)0,pi+}', False), ('B+{psi(2S)0,K+}', True), ('NonResS0{pi+,pi-}', False), ('Delta(1232)++{p+,pi+}', False), ('Lambda(1520)0{p+,K-}', False), ('Lambda0{p+,pi-}', True), ('D0{NonResS0{pi+,pi-},K0S0}', True)):
        deed('%s %s weakly' % (d, 'decays' if want else 'does not decay'), wk, lambda f: (lambda W: (lambda r: (r is want, str(r)))(part.lit(W.call(W.build(d), f, [], keep=False)['ret'])))(part.World(P)))
    tp = W0.fns('topologicalString')
    for d, want in (('D0{K*(892)bar0{K-,pi+},rho(770)0{pi+,pi-}}', '11'), ('D0{K-,pi+}', '00'), ('Lambda(c)+{Delta(1232)++{p+,pi+},K-}', '3/20'), ('D0', '')):
        deed('topology of %s' % d, tp, lambda f: (lambda W: (lambda r: (r == want, r))(part.lit(W.call(W.build(d), f, [], keep=False)['ret'])))(part.World(P)))
    # ---- access to decay products
    da = W0.fns('daughter', 2)
    for n, dep, want in (('pi-', -1, 'pi-'), ('K*(892)bar0', 1, 'K*(892)bar0'), ('K-', -1, 'K-'), ('mu-', -1, None), ('pi-', 1, None)):
        def g(f):
            W = part.World(P); h = W.build('D0{K*(892)bar0{K-,pi+},rho(770)0{pi+,pi-}}', ['K-', 'pi+', 'pi+', 'pi-']); r = W.call(h, f, [S(n), num(dep)], keep=False)
            v = r['ret']
            if v == NULL: return want is None, 'nothing found'
            return part.rdtree(W.m, r['st'], v)['name'] == want, 'another particle'
        deed('decay product %s %s' % (n, 'of the final state' if dep == -1 else 'of the first generation'), da, g)
    mq = W0.fns('daughterQuarks')
    # ---- permutations of identical particles
    ms = next((f for f in P.find('AmpGen::minSwaps') if f.get('body')), None)
    def g(f):
        for n in range(1, 6 if ctx.tier == 'thorough' else 5):
            for perm in itertools.permutations(range(n)):
                cyc, seen = [], set()
                for i in range(n):
                    if i in seen: continue
                    c, j = [], i
                    while j not in seen: seen.add(j); c.append(j); j = perm[j]
                    cyc.append(c)
                for k in range(2 ** len(cyc)):
                    ep = [0] * n
                    for b, c in enumerate(cyc):
                        for i in c: ep[i] = -1 if k >> b & 1 else 1
                    want = 1
                    for b, c in enumerate(cyc):
                        if k >> b & 1 and len(c) % 2 == 0: want = -want
                    m = Machine(P, {}, limit=20, max_unroll=80, budget=400000, depth=40)
                    v = m.function(f, [('list',) + tuple(num(i) for i in perm), ('list',) + tuple(num(i) for i in ep)])['ret']
                    a, s = pair(v)
                    if (a, s) != (n - len(cyc), want): return False, 'permutation %s with exchange signs %s: %s swaps and sign %s instead of %d and %d' % (perm, ep, a, s, n - len(cyc), want)
        return True
    deed('a permutation of identical particles needs n - cycles swaps and has their sign', ms, g)
