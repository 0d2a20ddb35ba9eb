"""Decay descriptors and decay trees.  Constructors and methods of Particle are abstracted on decay trees over a symbolic-free universe of particles (the particle table is
replaced by a small table; the code only uses the quantum numbers in it): every enumerated descriptor, in every order of decay products, must give the tree it describes in canonical
order; printing and reading a tree is the identity; conjugation, final-state indices, expansion, matching and the quasi-stable tree follow their definitions."""
from ..value import *
from .. import extract, part, lib, value as V
from ..run import where
from ..tensors import ground, field
import itertools, functools
ASSUMPTIONS = ['the particle table is replaced by a table of 24 states with all combinations of quantum numbers the code distinguishes', 'decay trees up to depth 3 and 4 final-state particles']
SRC = ['src/Particle.cpp', 'src/ParticleProperties.cpp', 'src/QuarkContent.cpp', 'src/Utilities.cpp']
UNI = part.UNI
def T(n, *kids, m=()): return (n, tuple(m), tuple(T(k) if isinstance(k, str) else k for k in kids))
TREES = [T('K*(892)0', 'K+', 'pi-'), T('D0', T('K*(892)bar0', 'K-', 'pi+'), 'pi0'), T('D0', T('K*(892)bar0', 'K-', 'pi+'), T('rho(770)0', 'pi+', 'pi-')), T('Dbar0', T('K*(892)0', 'K+', 'pi-'), T('rho(770)0', 'pi+', 'pi-')), T('D0', T('K*(892)bar0', 'K-', 'pi+'), T('rho(770)0', 'pi+', 'pi-'), m=('D',)),
         T('D0', T('a(1)(1260)+', T('rho(770)0', 'pi+', 'pi-'), 'pi+'), 'K-'), T('D0', T('a(1)(1260)+', T('rho(770)0', 'pi+', 'pi-', m=('GS',)), 'pi+', m=('D',)), 'K-'), T('Dbar0', T('a(1)(1260)-', T('rho(770)0', 'pi+', 'pi-'), 'pi-', m=('D', 'GS')), 'K+'), T('B+', T('K(2)*(1430)0', 'K+', 'pi-'), 'pi+'),
         T('Lambda(c)+', T('Delta(1232)++', 'p+', 'pi+'), 'K-'), T('Lambda(c)+', T('Lambda(1520)0', 'p+', 'K-'), 'pi+', m=('P1',)), T('Lambda(c)-', T('Delta(1232)--', 'p-', 'pi-'), 'K+', m=('D',)), T('Lambda(c)+', 'p+', T('K*(892)bar0', 'K-', 'pi+'), m=('SA',)), T('D0', T('NonResS0', 'pi+', 'pi-'), 'K0S0'), T('D0', 'pi+', 'pi-', 'pi0', m=('BgSpin0',)),
         T('B+', T('psi(2S)0', 'mu+', 'mu-'), 'K+', m=('Inco', 'NoSym')), T('D0', T('rho(770)0', 'gamma0', 'pi0'), 'gamma0'), T('B+', T('K(1)(1270)+', T('rho(770)0', 'pi+', 'pi-'), 'K+', m=('LASS', 'D', 'coupling=1')), 'pi0'), T('D0', T('sigma0', 'pi+', 'pi-', m=('FormFactor',)), 'pi0'), T('D0', T('K*(892)bar0', 'K-', 'pi+', m=('GS.BL',)), 'pi0'), T('B+', T('K(2)*(1430)0', 'K+', 'pi-', m=('P',)), 'pi+')]
VTX = [T('B+', T('K(1)(1270)+', T('rho(770)0', 'pi+', 'pi-'), 'K+', m=('D', 'vertex=Custom')), 'pi0'), T('B+', T('K(1)(1270)+', T('rho(770)0', 'pi+', 'pi-'), 'K+', m=('vertex=Custom',)), 'pi0'), T('Lambda(c)+', T('Lambda(1520)0', 'p+', 'K-'), 'pi+', m=('vertex=f_rS_D', 'P1'))]
def text(t, perm=None):
    n, m, k = t
    return n + ('[' + ';'.join(m) + ']' if m else '') + ('{' + ','.join(text(x) for x in k) + '}' if k else '')
def shuffles(t, cap=12):
    n, m, k = t
    if not k: return [t]
    subs = list(itertools.product(*[shuffles(x) for x in k]))
    out = [(n, m, p) for s in subs for p in itertools.permutations(s)]
    seen, r = set(), []
    for o in out:
        x = text(o)
        if x not in seen: seen.add(x); r.append(o)
    return r[:cap]
def leaves(t): return [t[0]] if not t[2] else [x for k in t[2] for x in leaves(k)]
def conjt(t): return (part.anti(t[0]), t[1], tuple(conjt(k) for k in t[2]))
def nets(n): return {tuple(s.count(c) - s.count(c.upper()) for c in part.QN) for s in UNI[n][7]}
def nettree(t):
    if 'NonRes' not in t[0]: return nets(t[0])
    acc = {(0,) * 6}
    for k in t[2]: acc = {tuple(a + b for a, b in zip(x, y)) for x in acc for y in nettree(k)}
    return acc
def strong(t):
    acc = {(0,) * 6}
    for k in t[2]: acc = {tuple(a + b for a, b in zip(x, y)) for x in acc for y in nettree(k)}
    if abs(UNI[t[0]][0]) in (23, 24): return False
    return bool(acc & nettree(t)) or 'NonRes' in t[0]
def minL(t):
    if len(t[2]) != 2: return 0
    J, a, b = [UNI[x][1] for x in (t[0], t[2][0][0], t[2][1][0])]
    P = [UNI[x][2] for x in (t[0], t[2][0][0], t[2][1][0])]
    ls = [l for l in range(0, (J + a + b) // 2 + 1) if any(abs(2 * l - s) <= J <= 2 * l + s for s in range(abs(a - b), a + b + 1, 2))]
    if strong(t): ls = [l for l in ls if P[0] == P[1] * P[2] * (-1) ** l]
    return min(ls) if ls else 999
ORB = 'SPDFGHI'
def expect(t):
    n, mods, kids = t
    d = {'name': n, 'props': n, 'parity': UNI[n][2], 'minL': minL(t), 'mods': list(mods)}
    L = S_ = 0; ls = None; v = ''
    for m in mods:
        if m.startswith('vertex='): v = m[7:]
        elif m.split('.')[0] in part.LINESHAPES: ls = m
        elif len(m) <= 2 and m != '':
            for c in m:
                if c in ORB: L = ORB.index(c)
                elif c.isdigit(): S_ = int(c)
                else: S_ = 10 + ord(c)
    d['L'] = L or d['minL']; d['S'] = S_; d['vertex'] = v
    dflt = ls in (None, 'BW')
    if dflt:
        ls = 'BW'
        if 'NonRes' in n or UNI[n][6] < 1e-3: ls = 'FormFactor'
        if UNI[n][0] == 22: ls = 'Photon'
    d['lineshape'], d['deflt'] = ls, dflt
    return d
def before(a, b):
    """canonical order of decay products: spin, decaying states first, mass, particle before its antiparticle, charge, id"""
    A, B = UNI[a[0]], UNI[b[0]]
    if A[1] != B[1]: return A[1] > B[1]
    if bool(a[2]) != bool(b[2]): return bool(a[2])
    if A[5] != B[5]: return A[5] > B[5]
    if abs(A[0]) == abs(B[0]) and A[0] != B[0]: return A[0] > B[0]
    if A[4] != B[4]: return A[4] > B[4]
    if A[0] != B[0]: return A[0] > B[0]
    return False
def canon(t):
    n, m, k = t
    k = [canon(x) for x in k]
    key = functools.cmp_to_key(lambda a, b: -1 if before(*((conjt(a), conjt(b)) if UNI[n][0] < 0 else (a, b))) else 1 if before(*((conjt(b), conjt(a)) if UNI[n][0] < 0 else (b, a))) else 0)
    return (n, m, tuple(sorted(k, key=key)))
def differ(got, t, keys=('name', 'props', 'parity', 'L', 'S', 'minL', 'lineshape', 'deflt', 'vertex'), mods=True, path=''):
    e = expect(t); path = path + '/' + t[0]
    for k in keys:
        if got[k] != e[k]: return '%s: %s is %r instead of %r' % (path, k, got[k], e[k])
    if mods and got['mods'] != e['mods']: return '%s: modifiers %r instead of %r' % (path, got['mods'], e['mods'])
    if len(got['kids']) != len(t[2]): return '%s has %d decay products instead of %d' % (path, len(got['kids']), len(t[2]))
    for a, b in zip(got['kids'], t[2]):
        r = differ(a, b, keys, mods, path)
        if r: return r
    return None
def same(a, b, keys, path=''):
    path += '/' + a['name']
    for k in keys:
        if a[k] != b[k]: return '%s: %s %r and %r' % (path, k, a[k], b[k])
    if len(a['kids']) != len(b['kids']): return '%s: %d and %d decay products' % (path, len(a['kids']), len(b['kids']))
    for x, y in zip(a['kids'], b['kids']):
        r = same(x, y, keys, path)
        if r: return r
    return None
PHYS = ('name', 'props', 'L', 'S', 'lineshape', 'vertex')
def check(ctx):
    P = extract.load(SRC)
    W0 = part.World(P)
    w = where(W0.ctor) if W0.ctor else 'src/Particle.cpp'
    def deed(name, f, g):
        if f is None: ctx.unknown(name, 'src/Particle.cpp', 'not found'); return
        ctx.saw('functions', f['q'])
        try:
            r = g(f); ok, why = r if isinstance(r, tuple) else (r, '')
            ctx.decide(name, ok, where(f), why)
        except Undecided as e: ctx.unknown(name, where(f), e)
    nleaf = lambda t: leaves(t)
    # ---- reading a descriptor
    for t in TREES:
        c = canon(t)
        def g(f):
            for s in shuffles(t):
                W = part.World(P); got = W.tree(W.build(text(s)))
                r = differ(got, c)
                if r: return False, 'read from %s: %s' % (text(s), r)
            return True
        deed('tree of %s, in every order of its decay products' % text(t), W0.ctor, g)
    def leafs(d): return [d] if not d['kids'] else [x for k in d['kids'] for x in leafs(k)]
    for t in TREES + VTX:
        def g(f):
            W = part.World(P); a = W.tree(W.build(text(t)))
            W2 = part.World(P); b = W2.tree(W2.build(a['us']))
            r = same(a, b, PHYS + ('us',))
            if r is None:
                for k in ('Inco', 'NoSym', 'BgSpin0'):
                    if (k in a['mods']) != (k in b['mods']): r = 'modifier %s' % k
                for x in a['mods']:
                    if '=' in x and x not in b['mods']: r = 'modifier %s' % x
            return r is None, '%s prints as %s, which reads back differently: %s' % (text(t), a['us'], r)
        deed('%s survives printing and reading' % text(t), W0.ctor, g)
    def g(f):
        pool = ('D', 'GS', 'Inco', 'NoSym', 'BgSpin0', 'phsp=CM', 'mode=2', 'coupling=1'); seen = {}
        sets = [c for k in ((2, 8) if ctx.tier == 'quick' else (1, 2, 3, 4, 8)) for c in itertools.combinations(pool, k)]
        for ms in sets:
            t = T('D0', T('rho(770)0', 'pi+', 'pi-', m=ms), 'pi0')
            W = part.World(P); a = W.tree(W.build(text(t)))
            W2 = part.World(P); b = W2.tree(W2.build(a['us']))
            r = same(a, b, PHYS + ('us',))
            x, y = a['kids'], b['kids']
            for i, (u, v) in enumerate(zip(x, y)):
                for k in set(pool[2:]):
                    if r is None and (k in u['mods']) != (k in v['mods']): r = 'modifier %s' % k
                    if r is None and u['name'] == 'rho(770)0' and (k in u['mods']) != (k in ms): r = 'modifier %s' % k
            if r is not None: return False, '%s prints as %s, which reads back differently: %s' % (text(t), a['us'], r)
            if a['us'] in seen: return False, '%s and %s both print as %s' % (seen[a['us']], text(t), a['us'])
            seen[a['us']] = text(t)
        return True, '%d combinations' % len(sets)
    deed('combined modifiers survive printing and reading and print differently', W0.ctor, g)
    # different trees have different descriptors
    def g(f):
        seen = {}
        for t in TREES:
            for t2 in [t] + [(t[0], t[1] + (x,), t[2]) for x in ('GS', 'NoSym', 'Inco', 'BgSpin0') if x not in t[1]]:
                W = part.World(P); us = W.tree(W.build(text(t2)))['us']
                if us in seen and seen[us] != canon(t2) and text(seen[us]) != text(canon(t2)): return False, '%s and %s both print as %s' % (text(seen[us]), text(canon(t2)), us)
                seen[us] = canon(t2)
        return True
    deed('different trees print differently', W0.ctor, g)
    # ---- final state indices
    for t, fss in ((TREES[2], [['K-', 'pi+', 'pi+', 'pi-'], ['pi-', 'pi+', 'K-', 'pi+']]), (TREES[1], [['K-', 'pi+', 'pi0'], ['pi0', 'pi+', 'K-']]), (TREES[9], [['p+', 'K-', 'pi+'], ['K-', 'pi+', 'p+']]), (TREES[14], [['pi+', 'pi-', 'pi0']])):
        for fs in fss:
            def g(f):
                W = part.World(P); a = W.tree(W.build(text(t), fs)); l = leafs(a)
                ix = [x['index'] for x in l]
                if sorted(ix) != list(range(len(fs))): return False, 'final-state indices %s' % ix
                for x in l:
                    if fs[x['index']] != x['name']: return False, '%s is given the index of %s' % (x['name'], fs[x['index']])
                    if x['orig'] != x['index']: return False, 'original index of %s is %d instead of %d' % (x['name'], x['orig'], x['index'])
                return a['good'] is True, 'the complete decay is reported as not usable'
            deed('indices of %s for final state %s' % (text(t), fs), W0.ctor, g)
    for t, fs in ((TREES[1], ['K-', 'pi+', 'pi+']), (TREES[1], ['K-', 'pi+', 'pi0', 'pi0']), (TREES[0], ['K-', 'pi-'])):
        deed('%s cannot fill final state %s' % (text(t), fs), W0.ctor, lambda f: (lambda W: (W.tree(W.build(text(t), fs))['good'] is False, 'it is reported as usable'))(part.World(P)))
    fsp = W0.fns('getFinalStateParticles')
    for t, fs in ((TREES[2], ['pi-', 'pi+', 'K-', 'pi+']), (TREES[5], ['K-', 'pi+', 'pi+', 'pi-']), (TREES[1], ['K-', 'pi+', 'pi0'])):
        for srt in (True, False):
            def g(f):
                W = part.World(P); h = W.build(text(t), fs); a = W.tree(h)
                r = W.call(h, f, [('b', srt)], keep=False)
                if r['ret'][0] != 'list': raise Undecided(show(r['ret'])[:80])
                got = [rdt['index'] for rdt in (part.rdtree(W.m, r['st'], x) for x in r['ret'][1:])]
                want = [x['index'] for x in leafs(a)]
                if srt: want = sorted(want)
                return got == want, 'lists %s instead of %s' % (got, want)
            deed('final-state particles of %s%s' % (text(t), ' sorted' if srt else ''), fsp, g)
    # ---- orderings of identical particles
    ido = W0.fns('identicalDaughterOrderings')
    for t, fs in ((TREES[2], ['K-', 'pi+', 'pi+', 'pi-']), (TREES[1], ['K-', 'pi+', 'pi0']), (TREES[5], ['K-', 'pi+', 'pi+', 'pi-']), (T('D0', T('rho(770)0', 'pi+', 'pi-'), T('rho(770)0', 'pi+', 'pi-')), ['pi+', 'pi-', 'pi+', 'pi-']), (T('D0', 'pi0', 'pi0', 'pi0'), ['pi0'] * 3)):
        def g(f):
            W = part.World(P); h = W.build(text(t), fs); r = W.call(h, f, [], keep=False)
            if r['ret'][0] != 'list' or any(x[0] != 'list' for x in r['ret'][1:]): raise Undecided(show(r['ret'])[:80])
            got = sorted(tuple(part.lit(y) for y in x[1:]) for x in r['ret'][1:])
            want = sorted(p for p in itertools.permutations(range(len(fs))) if all(fs[p[i]] == fs[i] for i in range(len(fs))))
            return got == want, 'orderings %s instead of %s' % (got, want)
        deed('orderings of identical particles in %s' % fs, ido, g)
    so = W0.fns('setOrdering')
    for perm in ((0, 1, 2, 3), (0, 2, 1, 3), (3, 1, 0, 2)):
        def g(f):
            W = part.World(P); h = W.build(text(TREES[2]), ['K-', 'pi+', 'pi+', 'pi-']); W.call(h, f, [('list',) + tuple(num(i) for i in perm)])
            got = {x['orig']: x['index'] for x in leafs(W.tree(h))}
            return got == {i: perm[i] for i in range(4)}, 'indices %s' % got
        deed('ordering %s is applied to the final state' % (perm,), so, g)
    # ---- conjugation
    cj = W0.fns('conj')
    for t in TREES + VTX[:1]:
        for hd, ro in ((True, True), (True, False), (False, True)):
            def g(f):
                W = part.World(P); h = W.build(text(t)); a = W.tree(h); r = W.call(h, f, [('b', hd), ('b', ro)], keep=True)
                b = W.value(r, r['ret'])
                c = canon(t); want = conjt(c) if hd else (c[0], c[1], tuple(conjt(k) for k in c[2]))
                if ro: want = canon(want)
                keys = ('name', 'props', 'L', 'S', 'lineshape', 'deflt', 'vertex')
                x = differ(b, want, keys)
                if x: return False, 'conjugate of %s is %s: %s' % (a['us'], b['us'], x)
                if W.tree(h)['us'] != a['us']: return False, 'the particle itself changes to %s' % W.tree(h)['us']
                W2 = part.World(P)
                return True
            deed('conjugate of %s%s%s' % (text(t), '' if hd else ', head kept', '' if ro else ', not reordered'), cj, g)
    ct = W0.fns('conjThis')
    for t in TREES[:6]:
        def g(f):
            W = part.World(P); h = W.build(text(t)); W.call(h, f, []); a = W.tree(h)
            def props(d): return (d['props'], [props(k) for k in d['kids']])
            def want(x): return (x[0], [want(k) for k in x[2]])
            return props(a) == want(conjt(canon(t))), 'gives %s' % (props(a),)
        deed('conjugating %s in place' % text(t), ct, g)
    # ---- the order of decay products
    lt = W0.fns('operator<')
    items = [T('K+'), T('K-'), T('pi+'), T('pi-'), T('pi0'), T('K0S0'), T('p+'), T('p-'), T('K*(892)0'), T('K*(892)0', 'K+', 'pi-'), T('K*(892)bar0', 'K-', 'pi+'), T('rho(770)0', 'pi+', 'pi-'), T('rho(770)+', 'pi+', 'pi0'), T('rho(770)+'), T('sigma0', 'pi+', 'pi-'), T('gamma0'), T('Lambda(1520)0', 'p+', 'K-')]
    def g(f):
        W = part.World(P); roots = [W.build(text(x)) for x in items]
        tab = {}
        for i, a in enumerate(roots):
            for j, b in enumerate(roots):
                r = W.call(a, f, [W.mem[b]], keep=False)['ret']
                tab[i, j] = part.lit(r)
                if tab[i, j] != before(items[i], items[j]): return False, '%s < %s is %s' % (text(items[i]), text(items[j]), tab[i, j])
        return True
    deed('decay products are ordered by spin, decay, mass, particle before antiparticle, charge and id', lt, g)
    def g(f):
        W = part.World(P); h = W.build(text(T('D0', 'pi+', 'pi+', 'pi-')), ['pi+', 'pi+', 'pi-']); a = W.tree(h)
        x, y = [(W.mem[d[1][0]] if d[0] == 'addr' else d) for d in a['addr'][:2]]
        ra = W.m.function(f, [y], x, mem=W.mem)['ret']; rb = W.m.function(f, [x], y, mem=W.mem)['ret']
        return (part.lit(ra) is True and part.lit(rb) is False), 'identical particles with index 0 and 1 compare as %s and %s' % (show(ra), show(rb))
    deed('identical particles are ordered by index', lt, g)
    # ---- matching of decay chains
    mt = W0.fns('matches')
    A_, R_ = T('K*(892)bar0', 'K-', 'pi+'), T('rho(770)0', 'pi+', 'pi-')
    E, PE, DO, DP, NO = 2, 4, 8, 16, 1
    for x, y, wnt in ((T('D0', A_, 'pi0'), T('D0', A_, 'pi0'), E), (T('D0', A_, R_), T('D0', A_, R_, m=('D',)), DO), (T('D0', A_, 'pi0'), T('D0', 'K*(892)bar0', 'pi0'), PE), (T('D0', 'K*(892)bar0', 'pi0'), T('D0', A_, 'pi0'), PE), (T('D0', A_, 'pi0'), T('Dbar0', A_, 'pi0'), NO), (T('D0', A_, R_), T('D0', A_, 'pi0'), NO), (T('D0'), T('D0', A_, 'pi0'), PE),
                      (T('D0', A_, 'pi0'), T('D0', 'K*(892)bar0', 'K0S0'), NO), (T('D0', A_, 'pi0'), T('D0', A_, 'K0S0', m=('D',)), NO), (T('D0', R_, A_), T('D0', T('a(1)(1260)+', R_, 'pi+'), 'K-'), NO), (T('D0', A_, 'pi0'), T('D0', 'K*(892)bar0', 'pi0', m=('D',)), PE | DO), (T('D0', 'pi+', 'pi-', 'pi0'), T('D0', R_, 'pi0'), NO), (T('K+'), T('K+'), E)):
        def g(f):
            W = part.World(P); a, b = W.build(text(x)), W.build(text(y))
            r = part.lit(W.call(a, f, [W.mem[b]], keep=False)['ret'])
            ok = (r & (E | PE | DO | DP | NO)) == wnt if wnt != NO else r & NO and not r & (E | PE)
            return bool(ok), '%s and %s match with state %d instead of %d' % (text(x), text(y), r, wnt)
        deed('match of %s and %s' % (text(x), text(y)), mt, g)
    # ---- modifiers
    pm = W0.fns('parseModifier')
    for mod, key, wnt in [(l, 'L', i) for i, l in enumerate('SPDFGHI')] + [('1', 'S', 1), ('3', 'S', 3), ('D2', 'L', 2), ('D2', 'S', 2), ('P1', 'L', 1), ('vertex=Name', 'vertex', 'Name'), ('GS', 'lineshape', 'GS')]:
        def g(f):
            W = part.World(P); a = W.build('a(1)(1260)+{rho(770)0{pi+,pi-},pi+}'); W.call(a, f, [S(mod)]); d = W.tree(a)
            return d[key] == wnt, 'modifier %s gives %s %s instead of %s' % (mod, key, d[key], wnt)
        deed('modifier %s sets %s' % (mod, key), pm, g)
    # ---- polarisation in matching
    sp = W0.fns('setPolarisationState')
    for pa, pb, wnt in ((1, 1, E), (1, -1, DP), (0, 1, DP)):
        def g(f):
            W = part.World(P); a, b = W.build('Lambda(c)+{Delta(1232)++{p+,pi+},K-}'), W.build('Lambda(c)+{Delta(1232)++{p+,pi+},K-}')
            for x, v in ((a, pa), (b, pb)): W.mem[x] = put(W.mem[x], (('f', 'm_polState'),), num(v))
            r = part.lit(W.call(a, f, [W.mem[b]], keep=False)['ret'])
            return (r & (E | PE | DO | DP | NO)) == wnt, 'polarisations %d and %d match with state %d instead of %d' % (pa, pb, r, wnt)
        deed('match of polarisations %d and %d' % (pa, pb), mt, g)
    # ---- unknown names
    for d in ('notAParticle', 'D0{notAParticle,pi0}', 'D0{K*(892)bar0{K-,notAParticle},pi0}', 'notAParticle{K-,pi+}', 'D0{K-,pi+,notAParticle}', ''):
        deed('"%s" is reported as not usable' % d, W0.ctor, lambda f: (lambda W: (W.tree(W.build(d))['good'] is False, 'it is reported as usable'))(part.World(P)))
    # ---- expansion of a decay chain
    ex = W0.fns('expand')
    for x, y, wnt, res_ in ((T('D0', 'K*(892)bar0', 'pi0'), A_, T('D0', A_, 'pi0'), True), (T('D0', T('a(1)(1260)+', 'rho(770)0', 'pi+'), 'K-'), R_, T('D0', T('a(1)(1260)+', R_, 'pi+'), 'K-'), True), (T('D0', 'rho(770)0', 'rho(770)0'), R_, T('D0', R_, 'rho(770)0'), True), (T('D0', A_, 'pi0'), T('K*(892)bar0', 'K0S0', 'pi0'), T('D0', A_, 'pi0'), False), (T('D0', A_, 'pi0'), R_, T('D0', A_, 'pi0'), False)):
        def g(f):
            W = part.World(P); a, b = W.build(text(x)), W.build(text(y)); r = W.call(a, f, [W.mem[b]])
            def names(d): return (d['name'], tuple(names(k) for k in d['kids']))
            def nm(t): return (t[0], tuple(nm(k) for k in t[2]))
            got = names(W.tree(a))
            srt = lambda z: (z[0], tuple(sorted(srt(k) for k in z[1])))
            return part.lit(r['ret']) is res_ and srt(got) == srt(nm(wnt)), 'gives %s (%s)' % (got, show(r['ret']))
        deed('expanding %s by %s' % (text(x), text(y)), ex, g)
    # ---- quasi-stable tree: resonances are replaced by their decay products
    qt = W0.fns('quasiStableTree')
    for x, wnt in ((TREES[2], T('D0', 'K-', 'pi+', 'pi+', 'pi-')), (T('B+', T('Dbar0', T('K*(892)0', 'K+', 'pi-'), 'pi0'), 'pi+'), T('B+', T('Dbar0', 'K+', 'pi-', 'pi0'), 'pi+')), (T('D0', 'K0S0', 'pi0'), T('D0', 'K0S0', 'pi0')), (TREES[9], T('Lambda(c)+', 'p+', 'pi+', 'K-')), (T('B+', T('Dbar0', 'K+', 'pi-'), T('rho(770)+', 'pi+', 'pi0')), T('B+', T('Dbar0', 'K+', 'pi-'), 'pi+', 'pi0')), (T('Dbar0', T('D0', 'K-', 'pi+')), T('Dbar0', 'K-', 'pi+'))):
        def g(f):
            W = part.World(P); a = W.build(text(x)); r = W.call(a, f, [], keep=False); b = W.value(r, r['ret'])
            def names(d): return (d['name'], tuple(sorted(names(k) for k in d['kids'])))
            def nm(t): return (t[0], tuple(sorted(nm(k) for k in t[2])))
            return names(b) == nm(wnt), 'is %s' % b['us']
        deed('quasi-stable tree of %s' % text(x), qt, g)
    # ---- setters keep the descriptor up to date
    for q, args, wnt in (('setOrbital', [num(2)], 'D0[D]{K*(892)bar0{K-,pi+},rho(770)0{pi+,pi-}}'), ('addModifier', [S('NoSym')], 'D0[NoSym]{K*(892)bar0{K-,pi+},rho(770)0{pi+,pi-}}'), ('addModifier', [S('D')], 'D0[D]{K*(892)bar0{K-,pi+},rho(770)0{pi+,pi-}}'), ('addModifier', [S('a=b')], 'D0[a=b]{K*(892)bar0{K-,pi+},rho(770)0{pi+,pi-}}')):
        def g(f):
            W = part.World(P); a = W.build(text(TREES[2])); W.call(a, f, args); us = W.tree(a)['us']
            return us == wnt, 'descriptor is %s instead of %s' % (us, wnt)
        deed('descriptor after %s(%s)' % (q, show(args[0])), W0.fns(q), g)
    for q, args, wnt in (('attribute', S('coupling'), S('1')), ('attribute', S('coup'), ('none',)), ('hasModifier', S('D'), TRUE), ('hasModifier', S('coupling=1'), TRUE), ('hasModifier', S('F'), FALSE), ('hasModifier', S('coupling'), FALSE)):
        deed('%s(%s)' % (q, show(args)), W0.fns(q), lambda f: (lambda W: (lambda h: (lambda v: (ground(v, wnt), 'gives %s' % show(v)[:80]))(W.call(h, f, [args], keep=False)['ret']))(W.build('K(1)(1270)+[LASS;D;coupling=1]{rho(770)0{pi+,pi-},K+}')))(part.World(P)))
    vd = W0.fns('isValidDecayDescriptor')
    for d, ok in (('D0{K-,pi+}', 1), ('D0{K*(892)bar0{K-,pi+},pi0}', 1), ('D0[D]{K*(892)bar0[GS]{K-,pi+},pi0}', 1), ('D0', 0), ('D0{K-,pi+', 0), ('D0{K-,notAParticle}', 0), ('notAParticle{K-,pi+}', 0), ('D0{K-,pi+}_Re', 1), ('D0{K*(892)bar0{K-,pi+},pi0}_Im', 1), ('pre_D0{K-,pi+}', 1), ('x', 0), ('D0{K-}}{', 0) if False else ('D0{K-,x}', 0)):
        deed('"%s" is %sa decay descriptor' % (d, '' if ok else 'not '), vd, lambda f: (lambda v: (ground(v, TRUE if ok else FALSE), 'gives %s' % show(v)[:80]))(part.World(P).m.function(f, [S(d)], mem=part.memory())['ret']))
    # ---- copies
    cl = W0.fns('clone')
    def g(f):
        W = part.World(P); a = W.build(text(TREES[2])); r = W.call(a, f, [], keep=True); b = W.value(r, r['ret']); o = W.tree(a)
        if same(o, b, PHYS): return False, 'the copy differs: %s' % same(o, b, PHYS)
        sh = lambda d: [x for x in d['addr']] + [y for k in d['kids'] for y in sh(k)]
        both = [x for x in sh(o) if x in sh(b)]
        return (not both), 'the copy shares decay products with the original'
    deed('a clone is equal and shares nothing', cl, g)
