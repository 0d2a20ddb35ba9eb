"""Spin vertices.  Projectors and orbital operators are abstracted to tensors of terms in the momenta and compared with their definitions on shell;
every registered vertex is abstracted to a tensor of terms, bilinear in the two currents, and compared with the index expression of its coupling."""
from ..value import *
from .. import extract, den, value as V, alg
from ..run import where
from ..tensors import *
ASSUMPTIONS = ['exact arithmetic (rounding ignored)', 'P is time-like', 'the expression, tensor and gamma-matrix layers have the meaning established by X01, X02, T01 and T02',
               'couplings that the documentation does not spell out are taken as the covariant couplings with the stated spins and orbital momentum in the convention of the code']
SRC = ['src/Vertex.cpp', 'src/FermionVertices.cpp', 'src/DiracMatrices.cpp', 'src/Tensor.cpp']
LOR = 'mnrsxy'
def shape(name): return {'S': [1], 'V': [4], 'T': [4, 4], 'f': [4], 'F': [4], 'r': [4, 4], 'R': [4, 4]}[name]

# ---------------------------------------------------------------- index expressions
class X:
    """tensor with named free indices; juxtaposition sums over repeated indices, Lorentz ones (m n r s x y) with the metric"""
    def __init__(self, ix, el): self.ix, self.el = ix, el
    def __mul__(a, b):
        if not isinstance(b, X): return X(a.ix, {c: mul(b, v) for c, v in a.el.items()})
        rep = [i for i in a.ix if i in b.ix]
        free = [i for i in a.ix if i not in rep] + [i for i in b.ix if i not in rep]
        out = {}
        for c1, v1 in a.el.items():
            if v1 == ZERO: continue
            d1 = dict(zip(a.ix, c1))
            for c2, v2 in b.el.items():
                if v2 == ZERO: continue
                d2 = dict(zip(b.ix, c2)); s = 1; ok = True
                for i in rep:
                    if d1[i] != d2[i]: ok = False; break
                    if i in LOR: s *= metric(d1[i])
                if not ok: continue
                d = dict(d1); d.update(d2); k = tuple(d[i] for i in free)
                t = mul(v1, v2)
                out[k] = add(out.get(k, ZERO), neg(t) if s < 0 else t)
        return X(''.join(free), {c: out.get(c, ZERO) for c in coords([4] * len(free))})
    __rmul__ = __mul__
    def to(self, ix):
        p = [self.ix.index(i) for i in ix]
        if sorted(ix) != sorted(self.ix): raise AssertionError((ix, self.ix))
        return {tuple(c[j] for j in p): v for c, v in self.el.items()}
    def __add__(a, b):
        e = b.to(a.ix); return X(a.ix, {c: add(v, e[c]) for c, v in a.el.items()})
    def __sub__(a, b): return a + num(-1) * b
    def __truediv__(a, x): return X(a.ix, {c: div(v, x) for c, v in a.el.items()})
class Tn:
    def __init__(self, n, el): self.n, self.el = n, el
    def __call__(self, ix):
        if len(ix) != self.n: raise AssertionError(ix)
        if len(set(ix)) == self.n: return X(ix, self.el)
        raise AssertionError(ix)
def syms(name, n): return Tn(n, {c: sym(name + ''.join(map(str, c))) for c in coords([4] * n)})
def sgn(p):
    s = 1
    for i in range(len(p)):
        for j in range(i):
            if p[j] == p[i]: return 0
            if p[j] > p[i]: s = -s
    return s
EPS = Tn(4, {c: num(sgn(c)) for c in coords([4] * 4)})
g4 = Tn(2, {(i, j): num(metric(i) if i == j else 0) for i in range(4) for j in range(4)})
one2 = Tn(2, {(i, j): num(int(i == j)) for i in range(4) for j in range(4)})
half, third = ('n', Fr(1, 2)), ('n', Fr(1, 3))

def check(ctx):
    P_ = extract.load(SRC)
    ov = den.overrides({})
    def table(name, n):
        v = Machine(P_, ov, limit=700).global_value(('g', 'AmpGen::' + name))
        if v is None: raise Undecided('table %s' % name)
        if v[0] == 'obj': v = v[2][0][1]
        if v[0] != 'list' or len(v) - 1 != n: raise Undecided('table %s' % name)
        return v[1:]
    try: GT, JT = table('Gamma', 5), table('SO3', 3)
    except Undecided as e: ctx.unknown('gamma matrices', 'src/DiracMatrices.cpp', e); return
    G = [Tn(2, mat(x)[1]) for x in GT]; J3 = [Tn(2, mat(x)[1]) for x in JT]
    G5 = G[4]
    GV = Tn(3, {(m,) + c: G[m].el[c] for m in range(4) for c in coords([4, 4])})
    P, Q = fresh('P', [4]), fresh('Q', [4])
    p, q = syms('P', 1), syms('Q', 1)
    pp = (p('m') * p('m')).el[()]
    m_ = ('app', 'sqrt', pp)
    # ---- definitions of the operators, as functions of P and Q
    def Ldef(p=p, q=q): return Tn(1, (q('m') - p('m') * div((p('n') * q('n')).el[()], (p('n') * p('n')).el[()])).to('m'))
    def Sdef(): return Tn(2, (g4('mn') - (p('m') * p('n')) / pp).to('mn'))
    def LDdef():
        L, S_ = Ldef(), Sdef()
        return Tn(2, (L('m') * L('n') - S_('mn') * div((L('r') * L('r')).el[()], num(3))).to('mn'))
    def S2def(S_=None):
        S_ = S_ or Sdef()
        return Tn(4, (half * (S_('mr') * S_('ns') + S_('ms') * S_('nr')) - third * (S_('mn') * S_('rs'))).to('mnrs'))
    def slashdef(v): return Tn(2, (GV('mab') * v('m')).to('ab'))
    def gtdef(): return Tn(3, (GV('nab') - (p('n') * p('m') * GV('mab')) / pp).to('nab'))
    def Fdef(s): 
        sl = slashdef(p)
        return Tn(2, (half * ((num(s) * sl('ab')) / m_ + one2('ab'))).to('ab'))
    def S3def(s, F=None, gt=None, S_=None):
        F, gt, S_ = F or Fdef(s), gt or gtdef(), S_ or Sdef()
        return Tn(4, (num(-1) * (S_('mn') * F('ab')) + third * (F('ac') * gt('mcd') * gt('ndb'))).to('mnab'))
    # ---- sampler: P on shell, Q general with the momentum of the second daughter of known modulus
    def samp(s, deriv=True):
        k = alg.unit(s, ['_k0', '_k1', '_k2']); g, sg, _, _ = alg.gamma(s, None); m = s.draw(0.5, 2.)
        s.root(m)
        Pv = [m * sg * x for x in k] + [m * g]
        l = alg.unit(s, ['_l0', '_l1', '_l2']); r = s.draw(0.3, 1.5); e2 = s.draw(0.5, 2.)
        s.root(r)
        P2 = [r * x for x in l] + [e2]
        Qv = [a - 2 * b for a, b in zip(Pv, P2)]
        for i in range(4): s.set('P%d' % i, Pv[i]); s.set('Q%d' % i, Qv[i])
        for n, d in VN: s.complex(*['%s%s' % (n, ''.join(map(str, c))) for c in coords(d)])
        if not deriv: return
        dt = lambda a, b: sum((metric(i) * (a[i] * b[i]) for i in range(1, 4)), -1 * (a[0] * b[0]))
        pv = dt(Pv, Pv); pq = dt(Pv, Qv)
        Lv = [Qv[i] - Pv[i] * (pq / pv) for i in range(4)]
        Sv = {(i, j): (metric(i) if i == j else 0) - Pv[i] * Pv[j] / pv for i, j in coords([4, 4])}
        l2 = dt(Lv, Lv)
        for i in range(4):
            s.set('L%d' % i, Lv[i])
            for j in range(4):
                s.set('Sp%d%d' % (i, j), Sv[i, j]); s.set('LD%d%d' % (i, j), Lv[i] * Lv[j] - l2 * Sv[i, j] / 3)
    # the matrix-valued helpers are kept as they are (their elements are linear in P), the rest by name
    L, S_, LD = syms('L', 1), syms('Sp', 2), syms('LD', 2)
    VN = []
    NAMED = {'AmpGen::Orbital_PWave': (2, fresh('L', [4])), 'AmpGen::Spin1Projector': (1, fresh('Sp', [4, 4])), 'AmpGen::Orbital_DWave': (2, fresh('LD', [4, 4]))}
    def same(v, w):
        try: return read(v)[1] == read(w)[1]
        except Undecided: return False
    def named(nargs, out, fn=None):
        def h(m, n, st, fr):
            a = [m.rv(x, st, fr) for x in n['a']]
            if len(a) != nargs or not same(a[0], P) or (nargs > 1 and not same(a[1], Q)): return None
            return out
        return h
    tens = lambda T: mk([4] * T.n, [T.el[c] for c in coords([4] * T.n)])
    gt_, F_, Fb_ = gtdef(), Fdef(1), Fdef(-1)
    NAMED2 = dict(NAMED)
    NAMED2.update({'AmpGen::gamma_twiddle': (1, tens(gt_)), 'AmpGen::Spin1hProjector': (1, tens(F_)), 'AmpGen::Spin1hbProjector': (1, tens(Fb_)), 'AmpGen::Gamma4Vec': (0, tens(GV)), 'AmpGen::LeviCivita': (-1, tens(EPS)), 'AmpGen::Spin2Projector': (1, None)})
    def product(m, n, st, fr):
        """contraction of indexed tensors, at its specification (T01)"""
        pt = [t.replace('const ', '').replace('&', '').replace('AmpGen::', '').strip() for t in n.get('pt') or []]
        if pt != ['TensorProxy', 'TensorProxy']: return ov['AmpGen::operator*'](m, n, st, fr)
        A, B = m.rv(n['a'][0], st, fr), m.rv(n['a'][1], st, fr)
        try: r = contract(A, B)
        except Undecided: return None
        return r
    def contract(A, B):
        if A[0] != 'obj' or B[0] != 'obj': raise Undecided('')
        ia, ib = field(A, 'm_indices'), field(B, 'm_indices')
        if ia[0] != 'list' or ib[0] != 'list': raise Undecided('')
        key = lambda i: (field(i, 'm_ptr'), field(i, 'm_isUpper'))
        ka, kb = [key(i) for i in ia[1:]], [key(i) for i in ib[1:]]
        if any(k[1] not in (TRUE, FALSE) or k[0][0] == 'sym' for k in ka + kb): raise Undecided('')
        pa, pb = [k[0] for k in ka], [k[0] for k in kb]
        if len(set(pa)) != len(pa) or len(set(pb)) != len(pb): raise Undecided('')
        da, ea = read(A); db, eb = read(B)
        if ea is None or eb is None or len(da) != len(pa) or len(db) != len(pb): raise Undecided('')
        rep = [(i, pb.index(x)) for i, x in enumerate(pa) if x in pb]
        if any(da[i] != db[j] for i, j in rep): raise Undecided('')
        # storage that is shared by symmetry only matters for speed: the result is laid out in full
        fa, fb = [i for i in range(len(pa)) if pa[i] not in pb], [j for j in range(len(pb)) if pb[j] not in pa]
        by = {}
        for c, v in eb.items():
            if v != ZERO: by.setdefault(tuple(c[j] for _, j in rep), []).append((tuple(c[j] for j in fb), v))
        out = {}
        for c, v in ea.items():
            if v == ZERO: continue
            k = tuple(c[i] for i, _ in rep); s = 1
            for (i, j), x in zip(rep, k):
                if ka[i][1] != kb[j][1] and x != 3: s = -s
            for f, w in by.get(k, ()):
                kk = tuple(c[i] for i in fa) + f; t = mul(v, w)
                out[kk] = add(out.get(kk, ZERO), neg(t) if s < 0 else t)
        d = [da[i] for i in fa] + [db[j] for j in fb]
        idx = [ia[1 + i] for i in fa] + [ib[1 + j] for j in fb]
        return proxy(mk(d, [out.get(c, ZERO) for c in coords(d)]), idx)
    def mach(names, fast=True):
        o = dict(ov)
        for k, (n, out) in names.items():
            if out is not None: o[k] = (lambda out: lambda m, nn, st, fr: out)(out) if n <= 0 else named(n, out)
        if fast: o['AmpGen::operator*'] = product
        o['AmpGen::Tensor::st'] = lambda m, n, st, fr: ('void',)
        return Machine(P_, o, limit=4000, max_unroll=300)
    def get(v, dim):
        d, e = read(v)
        if e is None: return None, d
        if dim == [] or dim == [1]:
            if prod(d) != 1: return None, d
            return {(): list(e.values())[0]}, d
        if d != dim: return None, d
        return e, d
    def compare(name, f, got, want, dim):
        e, d = get(got, dim)
        if e is None: ctx.decide(name, False, where(f), 'has extents %s instead of %s' % (d, dim)); return
        ok, why = alg.agree_all([(e[c], want[c], 'element %s' % list(c)) for c in sorted(e)], samp)
        ctx.decide(name, ok, where(f), why)
    # ---- operators
    def op(q_, args, want, dim, names={}):
        fs = [f for f in find(P_, 'AmpGen::' + q_) if len(f['p']) == len(args)]
        if len(fs) != 1: ctx.unknown(q_, 'src/Vertex.cpp', 'not found'); return
        f = fs[0]; ctx.saw('operators', q_)
        try: compare(q_, f, mach(names).function(f, args)['ret'], want() if callable(want) else want, dim)
        except Undecided as e: ctx.unknown(q_, where(f), e)
    op('Orbital_PWave', [P, Q], lambda: Ldef().el, [4])
    op('Spin1Projector', [P], lambda: Sdef().el, [4, 4])
    op('Orbital_DWave', [P, Q], lambda: LDdef().el, [4, 4])
    op('Spin2Projector', [P], lambda: S2def().el, [4] * 4)
    op('Gamma4Vec', [], lambda: GV.el, [4] * 3)
    op('slash', [P], lambda: slashdef(p).el, [4, 4])
    op('gamma_twiddle', [P], lambda: gtdef().el, [4] * 3)
    op('Spin1hProjector', [P], lambda: Fdef(1).el, [4, 4])
    op('Spin1hbProjector', [P], lambda: Fdef(-1).el, [4, 4])
    op('Spin3hProjector', [P], lambda: S3def(1).el, [4] * 4, {'AmpGen::Gamma4Vec': NAMED2['AmpGen::Gamma4Vec']})
    op('Spin3hbProjector', [P], lambda: S3def(-1).el, [4] * 4, {'AmpGen::Gamma4Vec': NAMED2['AmpGen::Gamma4Vec']})
    VN[:] = [('u', [4])]
    cj = lambda T: Tn(T.n, {c: ('app', 'conj', v) for c, v in T.el.items()})
    u = syms('u', 1)
    op('Bar', [fresh('u', [4])], lambda: (cj(u)('b') * G[3]('ba')).to('a'), [4])
    # ---- defining features of the operators, independent of the formulas above
    def feature(name, f, pairs):
        ok, why = alg.agree_all(pairs, samp); ctx.decide(name, ok, where(f), why)
    z = lambda x: [(v, ZERO, 'element %s' % list(c)) for c, v in sorted(x.el.items())]
    def fetch(q_, args, n):
        f = next((f for f in find(P_, 'AmpGen::' + q_) if len(f['p']) == len(args)), None)
        if not f: raise Undecided(q_ + ' not found')
        e, d = get(mach({}).function(f, args)['ret'], [4] * n)
        if e is None: raise Undecided('extents %s' % d)
        return f, Tn(n, e)
    def feats():
        f, l = fetch('Orbital_PWave', [P, Q], 1)
        feature('P-wave orbital momentum is transverse', f, z(l('m') * p('m')))
        f, d = fetch('Orbital_DWave', [P, Q], 2)
        feature('D-wave orbital momentum is transverse', f, z(d('mn') * p('m')))
        feature('D-wave orbital momentum is symmetric', f, [(d.el[i, j], d.el[j, i], '') for i, j in coords([4, 4])])
        feature('D-wave orbital momentum is traceless', f, z(d('mn') * g4('mn')))
        f, s = fetch('Spin1Projector', [P], 2)
        feature('spin-one projector is idempotent', f, [((s('mn') * s('nr')).to('mr')[c], s.el[c], '') for c in coords([4, 4])])
        feature('spin-one projector is transverse', f, z(s('mn') * p('n')))
        f, a = fetch('Spin1hProjector', [P], 2); f2, b = fetch('Spin1hbProjector', [P], 2)
        feature('spin-half projector is idempotent', f, [((a('ab') * a('bc')).to('ac')[c], a.el[c], '') for c in coords([4, 4])])
        feature('antifermion projector is idempotent', f2, [((b('ab') * b('bc')).to('ac')[c], b.el[c], '') for c in coords([4, 4])])
        feature('the spin-half projectors are complementary', f2, [(add(a.el[c], b.el[c]), one2.el[c], '') for c in coords([4, 4])])
    try: feats()
    except Undecided as e: ctx.unknown('operator features', 'src/Vertex.cpp', e)
    # ---- three-body factors
    f = next((f for f in P_.find('AmpGen::Vertex::Factory::getSpinFactorNBody') if f.get('body')), None)
    if f:
        ctx.saw('vertices', 'three-body')
        VN[:] = [('x', [4]), ('y', [4]), ('w', [4])]
        x, y, w = syms('x', 1), syms('y', 1), syms('w', 1)
        arg = ('list',) + tuple(('obj', 'std::pair<AmpGen::Tensor, AmpGen::Tensor>', (('first', fresh(n, [4])), ('second', fresh(n + 's', [1])))) for n in 'xyw')
        for l, want, dim in ((0, {(): ONE}, [1]), (1, (EPS('mnrs') * x('n') * y('r') * w('s')).to('m'), [4])):
            try: compare('three-body spin factor, L=%d' % l, f, mach(NAMED2).function(f, [arg, num(l), ('none',)])['ret'], want, dim)
            except Undecided as e: ctx.unknown('three-body spin factor, L=%d' % l, where(f), e)
    # ---- vertices
    V1n = lambda s: syms('V', {'S': 0, 'V': 1, 'T': 2, 'f': 1, 'F': 1, 'r': 2, 'R': 2}[s])
    S2p = S2def(S_)
    bar = lambda T: Tn(1, (cj(T)('b') * G[3]('ba')).to('a'))
    gl = lambda s: Tn(2, (one2('ab') + num(s) * G5('ab')).to('ab'))
    sl = slashdef(L)
    P1 = Tn(1, {c: mul(half, add(p.el[c], q.el[c])) for c in p.el}); P2 = Tn(1, {c: mul(half, V.sub(p.el[c], q.el[c])) for c in p.el})
    mod = ('app', 'sqrt', add(add(mul(P2.el[0,], P2.el[0,]), mul(P2.el[1,], P2.el[1,])), mul(P2.el[2,], P2.el[2,])))
    hel = Tn(2, {c: div(mul(I, add(add(mul(J3[0].el[c], P2.el[0,]), mul(J3[1].el[c], P2.el[1,])), mul(J3[2].el[c], P2.el[2,]))), mod) for c in coords([4, 4])})
    def helv(v): return Tn(1, (hel('ab') * X('b', v.el)).to('a'))
    dotv = lambda a, b: a('m') * b('m')
    e4 = lambda a, b, c, d: EPS('mnrs') * a('m') * b('n') * c('r') * d('s')
    e3 = lambda ix, a, b, c: EPS(ix) * a(ix[1]) * b(ix[2]) * c(ix[3])
    mI = mul(num(-1), I)
    def tv(T, v): return Tn(1, (T('mn') * v('n')).to('m'))
    def perp(v): return Tn(1, (S_('mn') * v('n')).to('m'))
    W = {
     'S_SS_S': lambda a, b: mul(a, b), 'S_VV_S': lambda a, b: dotv(a, b), 'S_VV_S1': lambda a, b: S_('mn') * a('m') * b('n'), 'S_VV_D': lambda a, b: LD('mn') * a('m') * b('n'),
     'S_VV_P': lambda a, b: e4(a, b, L, p), 'S_VS_P': lambda a, b: dotv(a, L) * b, 'V_SS_P': lambda a, b: L('m') * a * b,
     'V_VS_P': lambda a, b: e3('mnrs', a, L, p) * b, 'V_VS_S': lambda a, b: S_('mn') * a('n') * b, 'V_VS_D': lambda a, b: S_('mn') * LD('nr') * a('r') * b,
     'V_VV_P': lambda a, b: L('m') * dotv(a, b).el[()], 'V_VV_S': lambda a, b: S_('mx') * e3('xnrs', p, a, b),
     'V_VV_P1': lambda a, b: EPS('nrsm') * p('n') * L('r') * Tn(1, (S_('mx') * e3('xnrs', p, a, b)).to('m'))('s'), 'V_VV_P2': lambda a, b: S2p('rsnm') * a('r') * b('s') * L('n'),
     'T_VS_D': lambda a, b: (lambda g: num(Fr(-1, 2)) * (g('m') * L('n') + g('n') * L('m')) * b)(Tn(1, e3('mnrs', p, q, a).to('m'))),
     'T_TS_S': lambda a, b: (S_('mr') * a('rs') * S_('sn') - S_('mn') * mul(third, (a('rs') * S_('rs')).el[()])) * b,
     'T_VS_P': lambda a, b: (lambda v: (half * (L('m') * v('n') + L('n') * v('m')) - S_('mn') * mul(third, dotv(L, a).el[()])) * b)(perp(a)),
     'T_SS_D': lambda a, b: LD('mn') * a * b, 'S_TV_P': lambda a, b: a('mn') * L('m') * b('n'), 'S_TS_D': lambda a, b: a('mn') * LD('mn') * b,
     'S_TV_D': lambda a, b: Tn(2, (a('xs') * LD('sy')).to('xy'))('mn') * (EPS('mnrs') * p('r') * b('s')), 'S_TT_S': lambda a, b: a('mn') * b('mn'),
     'V_TS_P': lambda a, b: S_('mn') * a('nr') * L('r') * b, 'V_TS_D': lambda a, b: (EPS('mnrs') * p('r') * q('s')) * Tn(1, tv(a, L).el)('n') * num(-1) * b,
     'S_fF_S': lambda a, b: bar(b)('a') * a('a'), 'S_fF_S1': lambda a, b: bar(b)('a') * G5('ab') * a('b'), 'V_fF_S': lambda a, b: bar(b)('a') * gt_('mab') * a('b'),
     'V_fF_S1': lambda a, b: bar(b)('a') * G5('ab') * GV('mbc') * a('c'),
     'V_fF_PL': lambda a, b: S_('mn') * (bar(a)('a') * (GV('nab') * gl(-1)('bc')) * b('c')), 'V_fF_PR': lambda a, b: S_('mn') * (bar(a)('a') * (GV('nab') * gl(1)('bc')) * b('c')),
     'S_VV_rp': lambda a, b: mI * e4(helv(b), a, P1, P2) + (dotv(b, a) * dotv(P1, P2).el[()] - dotv(b, P1) * dotv(a, P2).el[()]),
     'S_VV_rm': lambda a, b: (lambda h: mI * e4(b, a, P1, P2) + (dotv(h, a) * dotv(P1, P2).el[()] - dotv(h, P1) * dotv(a, P2).el[()]))(helv(b)),
     'S_TV_rp': lambda a, b: (lambda h, r: mI * e4(b, r, P1, P2) + (h('m') * (a('mn') * dotv(P1, P2).el[()] - P1('m') * r('n')) * P2('n')))(helv(b), tv(a, P1)),
     'S_TV_rm': lambda a, b: (lambda h, r: mI * e4(h, r, P1, P2) + (b('m') * (a('mn') * dotv(P1, P2).el[()] - P1('m') * r('n')) * P2('n')))(helv(b), tv(a, P1)),
    }
    def ferm(F):
        return {
         'f_fS_S': lambda a, b: F('ab') * a('b') * b, 'f_fS_S1': lambda a, b: F('ab') * (G5('bc') * a('c')) * b,
         'f_fS_P': lambda a, b: F('ab') * (G5('bc') * (sl('cd') * a('d'))) * b, 'f_fS_P1': lambda a, b: F('ab') * (sl('bc') * a('c')) * b,
         'f_fS_SL': lambda a, b: F('ab') * (gl(-1)('bc') * a('c')) * b, 'f_fS_SR': lambda a, b: F('ab') * (gl(1)('bc') * a('c')) * b,
         'f_Vf_S': lambda a, b: F('ab') * (G5('bc') * (gt_('mcd') * a('m') * b('d'))), 'f_Vf_S1': lambda a, b: F('ab') * (gt_('mbc') * a('m') * b('c')),
         'f_Vf_P': lambda a, b: F('ab') * b('b') * dotv(a, L).el[()], 'f_Vf_P2': lambda a, b: F('ab') * (G5('bc') * b('c')) * dotv(a, L).el[()],
         'f_Vf_P1': lambda a, b: F('ab') * (G5('bc') * (gt_('mcd') * e3('mnrs', a, L, p) * b('d'))), 'f_Vf_P3': lambda a, b: F('ab') * (gt_('mbc') * e3('mnrs', L, a, p) * b('c')),
         'f_Vf_D': lambda a, b: F('ab') * (G5('bc') * (gt_('mcd') * (LD('mn') * a('n')) * b('d'))), 'f_Vf_D1': lambda a, b: F('ab') * (gt_('mbc') * (LD('mn') * a('n')) * b('c')),
         'f_Vf_SL': lambda a, b: F('ab') * ((GV('mbc') * a('m')) * (gl(-1)('cd') * b('d'))), 'f_Vf_SR': lambda a, b: F('ab') * ((GV('mbc') * a('m')) * (gl(1)('cd') * b('d'))),
         'f_Tf_P': lambda a, b: F('ab') * (gt_('mbc') * (a('mn') * L('n')) * b('c')),
         'r_fS_P': lambda a, b: (num(-1) * (L('m') * (F('ab') * a('b'))) + third * (F('ab') * (gt_('mbc') * (sl('cd') * a('d'))))) * b,
         'r_fS_D': lambda a, b: (lambda w: (L('m') * (F('ab') * (sl('bc') * w('c'))) - mul(third, dotv(L, L).el[()]) * (F('ab') * (gt_('mbc') * w('c')))) * b)(Tn(1, (G5('cd') * a('d')).to('c'))),
         'f_rS_P': lambda a, b: F('ab') * (a('mb') * L('m')) * b, 'f_rS_P1': lambda a, b: F('ab') * (G5('bc') * (a('mc') * L('m'))) * b,
         'f_rS_D': lambda a, b: F('ab') * (G5('bd') * (gt_('mdc') * (LD('mn') * a('nc')))) * b}
    W.update(ferm(F_))
    W.update({k.replace('f', 'F').replace('r', 'R'): v for k, v in ferm(Fb_).items()})
    for name in sorted(W):
        head, ab, _ = name.split('_')
        f = next((f for f in P_.find('AmpGen::Vertex::%s::operator()' % name) if f.get('body')), None)
        if not f: ctx.unknown('vertex ' + name, 'AmpGen/Vertex.h', 'not found'); continue
        ctx.saw('vertices', name)
        try:
            d1, d2 = shape(ab[0]), shape(ab[1])
            VN[:] = [('a', d1), ('b', d2)]
            def cur(n, d, k):                # a spin-two current is symmetric
                T = syms(n, len(d))
                if k == 'T': T = Tn(2, {(i, j): T.el[min(i, j), max(i, j)] for i, j in coords([4, 4])})
                return T
            A, B = [fresh(n, d) if d == [1] else tens(cur(n, d, k)) for n, d, k in (('a', d1, ab[0]), ('b', d2, ab[1]))]
            ta, tb = [sym(n + '0') if d == [1] else cur(n, d, k) for n, d, k in (('a', d1, ab[0]), ('b', d2, ab[1]))]
            w = W[name](ta, tb)
            if not isinstance(w, X): w = X('', {(): w})
            dim = shape(head) if head != 'S' else [1]
            want = {(): w.el[()]} if head == 'S' else w.to(('ma' if head in 'rR' else 'mn' if head == 'T' else 'a' if head in 'fF' else 'm'))
            r = mach(NAMED2).function(f, [P, Q, A, B, ('none',)])
            compare('vertex ' + name, f, r['ret'], want, dim)
        except Undecided as e: ctx.unknown('vertex ' + name, where(f), e)
