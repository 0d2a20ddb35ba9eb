"""Construction of the amplitude of a decay chain.  Particle's methods are abstracted on decay trees: momenta, propagator and spin tensor to terms in the (uninterpreted) lineshapes and
vertices asked for, the amplitude to the sum over orderings of identical particles, and the external spin tensors to terms in the momentum, compared on shell with the boosted or
rotated states of the rest frame by exact identity testing; the special-cased directions are decided separately."""
from ..value import *
from .. import extract, part, lib, den, alg, numw, value as V
from ..run import where
from ..tensors import *
import itertools, random, math
ASSUMPTIONS = ['exact arithmetic (rounding ignored); directions closer than the cut of the code to a special-cased direction are treated as that direction', 'lineshapes, vertices and helicity amplitudes are uninterpreted here (L02, T04, T03)']
SRC = ['src/Particle.cpp', 'src/ParticleProperties.cpp', 'src/QuarkContent.cpp', 'src/Utilities.cpp', 'src/Tensor.cpp']
UNI = part.UNI
def leafs(d): return [d] if not d['kids'] else [x for k in d['kids'] for x in leafs(k)]
def resolve(t, evs, memo):
    r = memo.get(id(t))
    if r is not None: return r[0]
    if t[0] == 'ite':
        c = [e.truth(t[1]) for e in evs]
        if len(set(c)) != 1: raise Undecided('case distinction %s varies' % show(t[1])[:80])
        out = resolve(t[2] if c[0] else t[3], evs, memo)
    elif t[0] in ('+', '*', 'neg', '/', '^', 'app'):
        k = [resolve(x, evs, memo) if isinstance(x, tuple) and x and isinstance(x[0], str) else x for x in t[1:]]
        if t[0] == '+':
            out = ZERO
            for x in k: out = add(out, x)
        elif t[0] == '*':
            out = ONE
            for x in k: out = mul(out, x)
        elif t[0] == '/': out = div(k[0], k[1])
        elif t[0] == 'neg': out = neg(k[0])
        else: out = (t[0],) + tuple(k)
    else: out = t
    memo[id(t)] = (out, t)
    return out
def check(ctx):
    P = extract.load(SRC)
    W0 = part.World(P)
    def deed(name, f, g):
        if f is None: ctx.unknown(name, 'src/Particle.cpp', 'not found'); return
        ctx.saw('functions', f['q'])
        try:
            r = g(f); ok, why = r if isinstance(r, tuple) else (r, '')
            ctx.decide(name, ok, where(f), why)
        except (Undecided, numw.NoValue) as e: ctx.unknown(name, where(f), e)
    def world(extra=None, formalism='Covariant', basis='Dirac'):
        return part.World(P, part.overrides(formalism, basis, extra=den.overrides(extra or {})), limit=700)
    def val(W, r): return r['ret']
    def same(a, b): return numw.agree(a, b, funcs=('prop', 'st', 'ext', 'bar', 'hel', 'LS', 'vtx', 'vtxn', 'param', 'propi', 'sti', 'exti', 'heli'))
    def momentum(i): return [('app', 'param', S('%d_%s' % (i, c))) for c in ('Px', 'Py', 'Pz', 'E')]
    def psum(t):
        r = [ZERO] * 4
        for x in leafs(t): r = [add(a, b) for a, b in zip(r, momentum(x['index']))]
        return r
    def cmp4(v, want):
        d, e = read(v)
        if list(d) != [4] or e is None: return False, 'shape %s' % (d,)
        for i in range(4):
            ok, why = same(e[(i,)], want[i])
            if ok is not True: return ok, 'component %d is %s instead of %s' % (i, show(e[(i,)])[:80], show(want[i])[:80])
        return True, ''
    # ---- kinematics
    CH = ('D0{K*(892)bar0{K-,pi+},rho(770)0{pi+,pi-}}', ['K-', 'pi+', 'pi+', 'pi-'])
    fP = W0.fns('P', 0); fQ = W0.fns('Q', 0); fM = W0.fns('massSq', 0)
    def nodes(W, h):
        out, todo = [], [('addr', (h,))]
        while todo:
            a = todo.pop(0); out.append(a); todo += [x for x in field(W.mem[a[1][0]], 'm_daughters')[1:]]
        return out
    for d, fs in (CH, ('D0{a(1)(1260)+{rho(770)0{pi+,pi-},pi+},K-}', ['K-', 'pi+', 'pi+', 'pi-']), ('D0{pi+,pi-,pi0}', ['pi+', 'pi-', 'pi0']), ('Lambda(c)+{Delta(1232)++{p+,pi+},K-}', ['p+', 'K-', 'pi+'])):
        def g(f):
            W = world(); h = W.build(d, fs)
            for a in nodes(W, h):
                t = part.rdtree(W.m, St(W.mem), a); r = cmp4(W.call(a[1][0], f, [], keep=False)['ret'], psum(t))
                if r[0] is not True: return r[0], '%s: %s' % (t['name'], r[1])
            return True
        deed('momenta in %s are sums over the final state' % d, fP, g)
        def g(f):
            W = world(); h = W.build(d, fs)
            for a in nodes(W, h):
                t = part.rdtree(W.m, St(W.mem), a)
                if len(t['kids']) != 2: continue
                r = cmp4(W.call(a[1][0], f, [], keep=False)['ret'], [add(x, neg(y)) for x, y in zip(psum(t['kids'][0]), psum(t['kids'][1]))])
                if r[0] is not True: return r[0], '%s: %s' % (t['name'], r[1])
            return True
        deed('momentum transfer in %s is the difference of the two decay products' % d, fQ, g)
        def g(f):
            W = world(); h = W.build(d, fs)
            for a in nodes(W, h):
                t = part.rdtree(W.m, St(W.mem), a); p = psum(t)
                w = ('n', (Fr(str(UNI[t['props']][5])) / 1000) ** 2)
                if t['kids']:
                    w = ZERO
                    for i in range(4): w = add(w, mul(num(metric(i)), mul(p[i], p[i])))
                v = W.call(a[1][0], f, [], keep=False)['ret']
                ok, why = same(v, w)
                if ok is not True: return ok, '%s: %s' % (t['name'], show(v)[:100])
            return True
        deed('squared masses in %s' % d, fM, g)
    # ---- propagators
    fp = W0.fns('propagator')
    def lsget(m, n, st, fr):
        a = [m.rv(x, st, fr) if i == 0 else None for i, x in enumerate(n['a'])]
        if len(n['a']) < 2: return None
        p = m.rv(n['a'][1], st, fr)
        t = part.rdtree(m, st, p)
        return ('app', 'LS', a[0], S(t['name']), num(t['L'])) + tuple(num(x['index']) for x in leafs(t))
    for d, fs in (CH, ('D0{a(1)(1260)+[D]{rho(770)0[GS]{pi+,pi-},pi+},K-}', ['K-', 'pi+', 'pi+', 'pi-']), ('D0{a(1)(1260)+{pi+,pi+,pi-},K-}', ['K-', 'pi+', 'pi+', 'pi-']), ('D0{a(1)(1260)+[GS]{pi+,pi+,pi-},K-}', ['K-', 'pi+', 'pi+', 'pi-']), ('D0{K-,pi+}', ['K-', 'pi+']), ('Dbar0{D0{K-,pi+}}', ['K-', 'pi+']), ('D0{rho(770)0[GS]{rho(770)0{pi+,pi-}},pi0}', ['pi+', 'pi-', 'pi0']), ('D0{rho(770)0{rho(770)0{pi+,pi-}},pi0}', ['pi+', 'pi-', 'pi0'])):
        def g(f):
            W = world({'AmpGen::Lineshape::Factory::get': lsget}); h = W.build(d, fs); t = W.tree(h)
            def want(x):
                k = x['kids']
                if not k: return ONE
                l = x['lineshape']
                if len(k) >= 3 and l == 'BW': l = 'SBW'
                r = ONE if len(k) == 1 and ('BW' in l or 'FormFactor' in l) else ('app', 'LS', S(l), S(x['name']), num(x['L'])) + tuple(num(y['index']) for y in leafs(x))
                for y in k: r = mul(r, want(y))
                return r
            v = W.call(h, f, [NULL], keep=False)['ret']
            ok, why = same(v, want(t))
            return ok, '%s instead of %s' % (show(v)[:200], show(want(t))[:200])
        deed('propagator of %s is the product over its states' % d, fp, g)
    # ---- spin tensors
    fst = W0.fns('spinTensor')
    def tens(tag, dim, key): return mk(dim, [('app', tag) + key + tuple(num(i) for i in c) for c in coords(dim)])
    def flat(v):
        d, e = read(v)
        if e is None: raise Undecided('tensor')
        return tuple(e[c] for c in sorted(e))
    def sfget(m, n, st, fr):
        a = [m.rv(x, st, fr) for x in n['a'][:5]]
        k = (a[4],)
        for x in a[:4]: k += flat(x)
        return tens('vtx', [2], k)
    def sfn(m, n, st, fr):
        a = m.rv(n['a'][0], st, fr); j = m.rv(n['a'][1], st, fr)
        if a[0] != 'list': return None
        k = (j,)
        for x in a[1:]: k += flat(proj(x, ('f', 'first'))) + flat(proj(x, ('f', 'second')))
        return tens('vtxn', [2], k)
    def ext(m, n, st, fr):
        o = part.rdtree(m, st, m.rd(st, m.objpath(n, st, fr))); pol = m.rv(n['a'][0], st, fr)
        return tens('ext', [1] if UNI[o['props']][1] == 0 else [4], (S(o['name']), num(o['index']), pol))
    SPN = {0: 'S', 2: 'V', 4: 'T', 1: 'f', 3: 'r'}
    def spn(n):
        s = SPN[UNI[n][1]]; return s.upper() if UNI[n][0] < 0 and s in 'fr' else s
    def tree_tensor(x):
        k = x['kids']
        if not k: return [('app', 'ext', S(x['name']), num(x['index']), num(x['pol'])) + tuple(num(i) for i in c) for c in coords([1] if UNI[x['props']][1] == 0 else [4])]
        if len(k) == 1: return tree_tensor(k[0])
        if len(k) == 2:
            nm = '%s_%s%s_%s' % (spn(x['props']), spn(k[0]['props']), spn(k[1]['props']), x['vertex'] or 'SPDFGHI'[x['L']] + (str(x['S']) if 0 < x['S'] < 10 else chr(x['S'] - 10) if x['S'] else ''))
            key = (S(nm),) + tuple(psum(x)) + tuple(add(a, neg(b)) for a, b in zip(psum(k[0]), psum(k[1]))) + tuple(tree_tensor(k[0])) + tuple(tree_tensor(k[1]))
            return [('app', 'vtx') + key + (num(i),) for i in range(2)]
        if len(k) == 3:
            key = (('n', Fr(UNI[x['props']][1], 2)),)
            for y in k: key += tuple(psum(y)) + tuple(tree_tensor(y))
            return [('app', 'vtxn') + key + (num(i),) for i in range(2)]
        raise Undecided('decay into %d' % len(k))
    for d, fs in (CH, ('D0[D]{K*(892)bar0{K-,pi+},rho(770)0{pi+,pi-}}', CH[1]), ('D0{a(1)(1260)+[D]{rho(770)0[GS]{pi+,pi-},pi+},K-}', ['K-', 'pi+', 'pi+', 'pi-']), ('Lambda(c)+[P1]{Lambda(1520)0{p+,K-},pi+}', ['p+', 'K-', 'pi+']), ('Lambda(c)-[D2]{K+,Delta(1232)--{p-,pi-}}', ['p-', 'K+', 'pi-']), ('D0{pi+,pi-,pi0}', ['pi+', 'pi-', 'pi0']), ('Lambda(c)+[SA]{p+,K*(892)bar0{K-,pi+}}', ['p+', 'K-', 'pi+']),
                  ('B+{K(1)(1270)+[vertex=Custom]{rho(770)0{pi+,pi-},K+},pi0}', ['pi+', 'pi-', 'K+', 'pi0']), ('Dbar0{D0{K-,pi+}}', ['K-', 'pi+']), ('D0{rho(770)0{pi+,pi-},gamma0}', ['pi+', 'pi-', 'gamma0']), ('B+{K(2)*(1430)0{K+,pi-},pi+}', ['K+', 'pi-', 'pi+'])):
        def g(f):
            W = world({'AmpGen::Vertex::Factory::getSpinFactor': sfget, 'AmpGen::Vertex::Factory::getSpinFactorNBody': sfn, 'AmpGen::Particle::externalSpinTensor': ext, 'AmpGen::Tensor::st': lambda m, n, st, fr: VOID}); h = W.build(d, fs); t = W.tree(h)
            v = W.call(h, f, [NULL], keep=False)['ret']; got = flat(v); want = tree_tensor(t)
            if len(got) != len(want): return False, 'tensor of %d elements instead of %d' % (len(got), len(want))
            for a, b in zip(got, want):
                ok, why = same(a, b)
                if ok is not True: return ok, '%s instead of %s' % (show(a)[:300], show(b)[:300])
            return True
        deed('spin tensor of %s uses vertex, momenta and daughters of each decay' % d, fst, g)
    # ---- the amplitude
    def cx(tag, k): return add(('app', tag) + k, mul(I, ('app', tag + 'i') + k))
    def ctens(tag, dim, key): return mk(dim, [cx(tag, key + tuple(num(i) for i in c)) for c in coords(dim)])
    ge = W0.fns('getExpression')
    def key(m, st, p): return tuple(num(x['index']) for x in leafs(part.rdtree(m, st, m.rd(st, p))))
    def o_prop(m, n, st, fr): return cx('prop', key(m, st, m.objpath(n, st, fr)))
    def o_st(m, n, st, fr):
        p = m.objpath(n, st, fr); t = part.rdtree(m, st, m.rd(st, p)); d = [1] if UNI[t['props']][1] == 0 else [4]
        return ctens('st', d, key(m, st, p))
    def o_ext(m, n, st, fr): return ctens('ext', [4], (m.rv(n['a'][0], st, fr),))
    def o_bar(m, n, st, fr):
        d, e = read(m.rv(n['a'][0], st, fr)); return mk(d, [('app', 'bar', e[c]) for c in coords(d)])
    def o_hel(m, n, st, fr):
        p = m.lv(n['a'][0], st, fr); return cx('hel', key(m, st, p) + (m.rv(n['a'][2], st, fr),))
    amp = {'AmpGen::Particle::propagator': o_prop, 'AmpGen::Particle::spinTensor': o_st, 'AmpGen::Particle::externalSpinTensor': o_ext, 'AmpGen::Bar': o_bar, 'AmpGen::helicityAmplitude': o_hel, 'AmpGen::Tensor::st': lambda m, n, st, fr: VOID,
           'ctor:AmpGen::TransformSequence': lambda m, n, st, fr: ('obj', 'AmpGen::TransformSequence', ())}
    def sgnp(p, names, ids):
        s = 1; seen = set()
        for i in range(len(p)):
            if i in seen: continue
            c = 0; j = i
            while j not in seen: seen.add(j); j = p[j]; c += 1
            if c % 2 == 0 and UNI[names[i]][1] % 2: s = -s
        return s
    def factor(t, idx, formalism, pol):
        two = UNI[t['props']][1]; k = tuple(num(i) for i in idx)
        if formalism == 'Canonical': return cx('hel', k + (num(pol) if two % 2 == 0 else ('n', Fr(pol, 2)),))
        if two == 0: return cx('st', k + (ZERO,))
        r = ZERO
        for i in range(4):
            s = cx('st', k + (num(i),)); e = cx('ext', (num(pol), num(i)))
            r = add(r, mul(('app', 'bar', e), s) if two == 1 else mul(num(metric(i)), mul(('app', 'conj', e), s)))
        return r
    CASES = [(CH[0], CH[1], 0), ('D0{K*(892)bar0{K-,pi+},pi0}', ['K-', 'pi+', 'pi0'], 0), ('D0{pi0,pi0,pi0}', ['pi0'] * 3, 0), ('Lambda(c)+{Delta(1232)++{p+,pi+},K-}', ['p+', 'K-', 'pi+'], -1), ('rho(770)0{K*(892)0{K+,pi-},pi0}', ['K+', 'pi-', 'pi0'], 1), ('psi(2S)0{rho(770)0{pi+,pi-},pi+,pi-}', ['pi+', 'pi-', 'pi+', 'pi-'], -1),
             ('B+{Lambda(c)+,p+,p+}', ['Lambda(c)+', 'p+', 'p+'], 0), ('B+{p+,p+,p+}', ['p+'] * 3, 0), ('Lambda(c)+{p+,pi+,pi+}', ['p+', 'pi+', 'pi+'], 1), ('K(2)*(1430)0{pi+,pi-}', ['pi+', 'pi-'], 1)]
    for formalism in ('Covariant', 'Canonical'):
        for mod in ((), ('NoSym',), ('Inco',), ('BgSpin0',), ('Inco', 'NoSym'), ('BgSpin0', 'Inco')):
            for d, fs, pol in CASES:
                if mod and d not in (CASES[0][0], CASES[6][0], CASES[5][0]): continue
                dd = d.replace('{', '[%s]{' % ';'.join(mod), 1) if mod else d
                def g(f):
                    W = world(amp, formalism=formalism); h = W.build(dd, fs); t = W.tree(h)
                    W.mem[h] = put(W.mem[h], (('f', 'm_polState'),), num(pol))
                    v = W.call(h, f, [NULL, ('list',)], keep=False)['ret']
                    perms = [p for p in itertools.permutations(range(len(fs))) if all(fs[p[i]] == fs[i] for i in range(len(fs)))]
                    if 'NoSym' in mod: perms = perms[:1]
                    tot = ZERO
                    for p in perms:
                        idx = [p[x['index']] for x in leafs(t)]
                        a = cx('prop', tuple(num(i) for i in idx))
                        if 'BgSpin0' not in mod and not (formalism == 'Covariant' and UNI[t['props']][1] > 2): a = mul(a, factor(t, idx, formalism, pol))
                        tot = add(tot, mul(('app', 'conj', a), a) if 'Inco' in mod else mul(num(sgnp(p, fs, None)), a))
                    n = num(len(perms))
                    want = ('app', 'sqrt', div(tot, n)) if 'Inco' in mod else div(tot, num(math.isqrt(len(perms))) if math.isqrt(len(perms)) ** 2 == len(perms) else ('app', 'sqrt', n))
                    ok, why = same(v, want)
                    return ok, '%s: %s instead of %s' % (why, show(v)[:300], show(want)[:300])
                deed('amplitude of %s (%s)' % (dd, formalism), ge, g)
    def g(f):
        W = world(amp); h = W.build('Lambda(c)+{Delta(1232)++{p+,pi+},K-}', ['p+', 'K-', 'pi+']); W.call(h, f, [NULL, ('list', num(-1), num(1), num(0), num(0))]); t = W.tree(h)
        got = (t['pol'], [x['pol'] for x in leafs(t) if x['name'] == 'p+'][0])
        return got == (-1, 1), 'polarisation states %s' % (got,)
    deed('the requested polarisation state is the one of the amplitude', ge, g)
    # ---- external spin states
    fe = W0.fns('externalSpinTensor')
    m_ = sym('m'); p = [sym('p%d' % i) for i in range(4)]
    X_, Y_, Z_, E_ = p
    r2 = ('app', 'sqrt', num(2))
    def regime(kind):
        def samp(s):
            g_, sg, ch, sh = alg.gamma(s, None); m = s.draw(0.5, 2.); mod = m * sg
            s.set('m', m)
            if kind == 'rest': v, g_ = [0 * m, 0 * m, 0 * m], 1 + 0 * m
            elif kind == '+z': v = [0 * m, 0 * m, mod]
            elif kind == '-z': v = [0 * m, 0 * m, -mod]
            else:
                q, f = s.draw(0.15, 0.9), s.draw(-0.9, 0.9)
                c, d = (1 - q * q) / (1 + q * q), 2 * q / (1 + q * q); cf, sf = (1 - f * f) / (1 + f * f), 2 * f / (1 + f * f)
                v = [mod * 2 * c * d * cf, mod * 2 * c * d * sf, mod * (c * c - d * d)]
                s.root(mod * c, mod * 2 * c * d)
            s.root(mod, ch, m, m * ch)
            for i in range(3): s.set('p%d' % i, v[i])
            s.set('p3', m * g_)
            s.set('_P', mod if kind != 'rest' else 0 * m)
        return samp
    Pm = sym('_P')
    def rest(two, lam):
        if two == 2: return {1: [div(num(-1), r2), neg(div(I, r2)), ZERO], -1: [div(ONE, r2), neg(div(I, r2)), ZERO], 0: [ZERO, ZERO, ONE]}[lam]
        return [ONE, ZERO] if lam == 1 else [ZERO, ONE]
    def boosted(n):
        d = ZERO
        for a, b in zip(p[:3], n): d = add(d, mul(a, b))
        return [add(a, div(mul(b, d), mul(m_, add(E_, m_)))) for a, b in zip(n, p[:3])] + [div(d, m_)]
    def rotated(n, kind):
        """rotation of the z axis onto the direction of flight, along the great circle; by half a turn about y if they are opposite"""
        if kind in ('rest', '+z'): return list(n)
        if kind == '-z': return [neg(n[0]), n[1], neg(n[2])]
        k = [div(a, Pm) for a in p[:3]]
        kn = ZERO
        for a, b in zip(k, n): kn = add(kn, mul(a, b))
        c = div(add(kn, n[2]), add(ONE, k[2]))
        return [add(add(a, neg(mul(c, add(b, z)))), mul(num(2), mul(n[2], b))) for a, b, z in zip(n, k, (ZERO, ZERO, ONE))]
    def spin_rot(lam, kind):
        if kind in ('rest', '+z'): return rest(1, lam)
        if kind == '-z': return [ZERO, ONE] if lam == 1 else [num(-1), ZERO]
        n = ('app', 'sqrt', mul(num(2), mul(Pm, add(Pm, Z_))))
        return [div(add(Pm, Z_), n), div(add(X_, mul(I, Y_)), n)] if lam == 1 else [div(add(neg(X_), mul(I, Y_)), n), div(add(Pm, Z_), n)]
    def sigmap(c):
        z, zb = add(X_, mul(I, Y_)), add(X_, neg(mul(I, Y_)))
        return [add(mul(Z_, c[0]), mul(zb, c[1])), add(mul(z, c[0]), neg(mul(Z_, c[1])))]
    def expected(two, lam, basis, anti, kind):
        if two == 2:
            if basis == 'Dirac': return boosted(rest(2, lam))
            if lam == 0:
                k = [div(a, Pm) for a in p[:3]] if kind != 'rest' else [ZERO, ZERO, ONE]
                return [div(mul(a, E_), m_) for a in k] + [div(Pm, m_)]
            return rotated(rest(2, lam), kind) + [ZERO]
        c = rest(1, lam) if basis == 'Dirac' else spin_rot(lam, kind)
        N = ('app', 'sqrt', div(add(E_, m_), mul(num(2), m_)))
        sp = [div(x, add(E_, m_)) for x in sigmap(c)]
        r = [mul(N, x) for x in ((sp + c) if anti else (c + sp))]
        return [mul(I, x) for x in r] if anti and basis == 'Weyl' else r
    for basis in ('Dirac', 'Weyl'):
        for n, two, anti in (('rho(770)0', 2, False), ('gamma0', 2, False), ('K*(892)bar0', 2, True), ('p+', 1, False), ('p-', 1, True), ('mu-', 1, False)):
            if n == 'gamma0' and basis == 'Dirac': continue
            for lam in ((1, 0, -1) if two == 2 else (1, -1)):
                if n == 'gamma0' and lam == 0: continue
                for kind in ('general', '+z', '-z', 'rest'):
                    if n == 'gamma0' and kind == 'rest': continue
                    def g(f):
                        W = world({'AmpGen::Particle::P': lambda m, nn, st, fr: mk([4], p)}, basis=basis); h = W.build(n)
                        W.mem[part.ROOT[n]] = put(W.mem[part.ROOT[n]], (('f', 'm_mass'),), mul(num(1000), m_))
                        v = W.call(h, f, [num(lam), NULL], keep=False)['ret']
                        d, e = read(v)
                        if list(d) != [4] or e is None: return False, 'shape %s' % (d,)
                        samp = regime(kind); evs = []
                        rnd = random.Random(11)
                        for _ in range(4):
                            s = alg.Sample(False, rnd); samp(s); evs.append(alg.Real(s, rnd))
                        want = expected(two, lam, basis, anti, kind); memo = {}
                        got = [resolve(e[(i,)], evs, memo) for i in range(4)]
                        return alg.agree_all([(got[i], want[i], 'component %d' % i) for i in range(4)], samp)
                    deed('%s state of %s with projection %+d, %s' % (basis, n, lam, {'general': 'general momentum', '+z': 'along z', '-z': 'against z', 'rest': 'at rest'}[kind]), fe, g)
    for n in ('pi+', 'D0'):
        for basis in ('Dirac', 'Weyl'):
            def g(f):
                W = world(basis=basis); h = W.build(n); d, e = read(W.call(h, f, [ZERO, NULL], keep=False)['ret'])
                return (list(d) == [1] and e[(0,)] == ONE), 'tensor %s' % (d,)
            deed('%s state of the scalar %s is one' % (basis, n), fe, g)
