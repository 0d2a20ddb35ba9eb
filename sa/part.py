"""a small universe of particles for the checks on decay trees: the property table is replaced by this one (any table is allowed by the code)"""
from .value import *
from . import lib, extract
from .tensors import field
QN = 'duscbt'
def qcontent(states):
    q = lambda s: ('obj', 'AmpGen::QuarkState', (('m_quarks', ('list',) + tuple(num(s.count(c) - s.count(c.upper())) for c in QN)),))
    return ('obj', 'AmpGen::QuarkContent', (('m_quarks', ('list',) + tuple(q(s) for s in states)),))
# name: id, 2J, P, C, charge, mass (MeV), width (MeV), quark contents, antiparticle format
BASE = {
 'D0': (421, 0, -1, 0, 0, 1864, 0, ['cU'], 'F'), 'B+': (521, 0, -1, 0, 1, 5279, 0, ['uB'], 'B'), 'K+': (321, 0, -1, 0, 1, 493, 0, ['uS'], 'B'), 'pi+': (211, 0, -1, 0, 1, 139, 0, ['uD'], 'B'), 'pi0': (111, 0, -1, 1, 0, 134, 0, ['uU', 'dD'], ' '),
 'K0S0': (310, 0, -1, 0, 0, 497, 0, ['dS', 'sD'], ' '), 'K*(892)0': (313, 2, -1, 0, 0, 895, 50, ['dS'], 'F'), 'K*(892)+': (323, 2, -1, 0, 1, 891, 50, ['uS'], 'B'), 'rho(770)0': (113, 2, -1, -1, 0, 775, 149, ['uU', 'dD'], ' '), 'rho(770)+': (213, 2, -1, 0, 1, 775, 149, ['uD'], 'B'),
 'a(1)(1260)+': (20213, 2, 1, 0, 1, 1230, 400, ['uD'], 'B'), 'K(1)(1270)+': (10323, 2, 1, 0, 1, 1272, 90, ['uS'], 'B'), 'K(2)*(1430)0': (315, 4, 1, 0, 0, 1432, 109, ['dS'], 'F'), 'sigma0': (9000221, 0, 1, 1, 0, 475, 550, ['uU', 'dD'], ' '), 'gamma0': (22, 2, -1, -1, 0, 0, 0, [''], ' '),
 'p+': (2212, 1, 1, 0, 1, 938, 0, ['uud'], 'B'), 'Lambda(c)+': (4122, 1, 1, 0, 1, 2286, 0, ['udc'], 'B'), 'Lambda(1520)0': (3124, 3, -1, 0, 0, 1519, 15, ['uds'], 'F'), 'Delta(1232)++': (2224, 3, 1, 0, 2, 1232, 117, ['uuu'], 'B'), 'Lambda0': (3122, 1, 1, 0, 0, 1115, 0, ['uds'], 'F'),
 'mu-': (13, 1, 1, 0, -1, 105, 0, [''], 'B'), 'NonResS0': (998, 0, 1, 0, 0, 1, 0, [''], ' '), 'psi(2S)0': (100443, 2, -1, -1, 0, 3686, 0.3, ['cC'], ' '), 'W+': (24, 2, -1, 0, 1, 80000, 2000, [''], 'B'),
}
SUF = {1: '+', -1: '-', 0: '0', 2: '++', -2: '--'}
def antiname(n, d):
    if d[8] == 'F': return n[:-1] + 'bar0' if n.endswith('0') else n
    return n[:-len(SUF[d[4]])] + SUF[-d[4]] if n.endswith(SUF[d[4]]) else n
UNI = {}
for n_, d_ in BASE.items():
    UNI[n_] = d_
    if d_[8] != ' ': UNI[antiname(n_, d_)] = (-d_[0], d_[1], -d_[2] if d_[1] % 2 else d_[2], d_[3], -d_[4], d_[5], d_[6], [s.swapcase() for s in d_[7]], d_[8])
BYID = {d[0]: n for n, d in UNI.items()}
def anti(n): return BYID[-UNI[n][0]] if UNI[n][8] != ' ' else n
def stem(n):
    d = UNI[n]; k = n if d[0] > 0 else BYID[-d[0]]
    s = SUF[UNI[k][4]]
    return k[:-len(s)] if k.endswith(s) else k
def propsobj(n):
    d = UNI[n]
    f = {'m_mass': ('n', Fr(str(d[5]))), 'm_mErrPlus': ZERO, 'm_mErrMinus': ZERO, 'm_width': ('n', Fr(str(d[6]))), 'm_wErrPlus': ZERO, 'm_wErrMinus': ZERO, 'm_radius': ('n', Fr(3, 2)), 'm_Gparity': ZERO, 'm_parity': num(d[2]), 'm_Cparity': num(d[3]), 'm_pdgID': num(d[0]), 'm_Rexist': ZERO,
         'm_charge': num(d[4]), 'm_twoSpin': num(d[1]), 'm_isospin': S('?'), 'm_name': S(stem(n)), 'm_texName': S('\\' + n), 'm_chargeString': S(SUF[d[4]]), 'm_Aformat': num(ord(d[8])), 'm_status': num(ord('R')), 'm_quarkContent': qcontent(d[7]), 'm_isValid': TRUE, 'm_customName': FALSE}
    return ('obj', 'AmpGen::ParticleProperties', tuple(sorted(f.items())))
ROOT = {n: ('v', -1000 - i, 'props:' + n) for i, n in enumerate(sorted(UNI))}
NAME = {('addr', (r,)): n for n, r in ROOT.items()}
def memory(): return {ROOT[n]: propsobj(n) for n in UNI}
def ptr(n): return ('addr', (ROOT[n],))
def get(m, n, st, fr):
    x = m.rv(n['a'][0], st, fr)
    if x[0] == 's': return ptr(x[1]) if x[1] in UNI else NULL
    if x[0] == 'n': return ptr(BYID[int(x[1])]) if int(x[1]) in BYID else NULL
    return None
LINESHAPES = ('BW', 'SBW', 'FormFactor', 'Photon', 'GS', 'Flatte', 'RBW', 'LASS')
def islineshape(m, n, st, fr):
    x = m.rv(n['a'][0], st, fr)
    return ('b', x[1].split('.')[0] in LINESHAPES) if x[0] == 's' else None
def overrides(formalism='Covariant', basis='Dirac', defmod='', extra=None):
    def npctor(m, n, st, fr):
        nm = m.rv(n['a'][0], st, fr)
        return {'Particle::SpinFormalism': ('enum', 'AmpGen::spinFormalism', formalism, ['Covariant', 'Canonical'].index(formalism)),
                'Particle::SpinBasis': ('enum', 'AmpGen::spinBasis', basis, ['Dirac', 'Weyl'].index(basis)), 'Particle::DefaultModifier': S(defmod)}.get(nm[1] if nm[0] == 's' else None)
    def npget(m, n, st, fr):
        p = m.objpath(n, st, fr); v = m.rd(st, p)
        return v
    def npcmp(neg):
        def h(m, n, st, fr):
            a = m.rv(n['a'][0], st, fr); b = m.rv(n['a'][1], st, fr)
            r = lib.eq_any(m, a, b)
            return bnot(r) if neg else r
        return h
    ov = {'ctor:AmpGen::NamedParameter': npctor, 'AmpGen::NamedParameter::getVal': npget, 'AmpGen::NamedParameter::operator==': npcmp(False), 'AmpGen::NamedParameter::operator!=': npcmp(True),
          'AmpGen::ParticlePropertiesList::get': get, 'AmpGen::ParticleProperties::get': get, 'AmpGen::ParticlePropertiesList::getMe': lambda m, n, st, fr: ('addr', (('v', -999, 'ppl'),)),
          'AmpGen::ParticlePropertiesList::quasiStableThreshold': lambda m, n, st, fr: ('n', Fr(1, 10**6)),
          'AmpGen::Lineshape::Factory::isLineshape': islineshape}
    ov.update(extra or {})
    return ov
def machine(P, ov, limit=20, budget=3000000): return Machine(P, ov, limit=limit, max_unroll=200, budget=budget, depth=120, hooks={'static_init': True, 'recur': 8})

# ---------------------------------------------------------------- trees
ATTR = {'name': 'm_name', 'lineshape': 'm_lineshape', 'vertex': 'm_vertexName', 'us': 'm_uniqueString', 'parity': 'm_parity', 'pol': 'm_polState', 'index': 'm_index', 'orig': 'm_originalIndex', 'L': 'm_orbital', 'S': 'm_spinConfigurationNumber',
        'minL': 'm_minL', 'deflt': 'm_usesDefaultLineshape', 'good': 'm_isStateGood'}
def lit(v):
    if v[0] == 's': return v[1]
    if v[0] == 'n' and v[1].denominator == 1: return int(v[1])
    if v[0] == 'b': return v[1]
    raise Undecided('not a definite value: %s' % show(v)[:80])
def rdtree(m, st, o, depth=0):
    if depth > 8: raise Undecided('decay tree is circular')
    if o[0] == 'addr': o = m.rd(st, o[1])
    if o[0] != 'obj': raise Undecided('not a particle: %s' % show(o)[:80])
    d = {k: lit(field(o, f)) for k, f in ATTR.items()}
    p = field(o, 'm_props')
    if p == NULL: d['props'] = None
    elif p in NAME: d['props'] = NAME[p]
    else: raise Undecided('properties %s' % show(p)[:80])
    ds = field(o, 'm_daughters')
    if ds[0] != 'list': raise Undecided('decay products %s' % show(ds)[:80])
    md = field(o, 'm_modifiers')
    if md[0] != 'list': raise Undecided('modifiers %s' % show(md)[:80])
    d['mods'] = [lit(x) for x in md[1:]]
    d['kids'] = [rdtree(m, st, x, depth + 1) for x in ds[1:]]
    d['addr'] = list(ds[1:])
    return d
class World:
    def __init__(self, P, ov=None, **kw):
        self.P, self.ov, self.kw = P, ov or overrides(), kw
        self.m = machine(P, self.ov, **kw); self.mem = memory()
        cs = [f for f in P.find('AmpGen::Particle::Particle') if f.get('fk') == 'ctor' and f.get('body')]
        def pick(test): return next((f for f in cs if test(f)), None)
        self.ctor = pick(lambda f: len(f['p']) == 3 and 'vector' in f['p'][1]['t'])
        self.cs = cs
    def fns(self, q, n=None, test=None):
        r = [f for f in self.P.find('AmpGen::Particle::' + q) if f.get('body') and (n is None or len(f['p']) == n) and (test is None or test(f))]
        return r[0] if r else None
    def build(self, desc, fs=(), order=True):
        if self.ctor is None: raise Undecided('no constructor from a decay descriptor')
        r = self.m.function(self.ctor, [S(desc), ('list',) + tuple(S(x) for x in fs), ('b', order)], None, mem=self.mem)
        self.mem = {k: v for k, v in r['st'].s.items()}
        # keep the head under a root of its own
        root = self.m.fresh('head'); self.mem[root] = r['this']
        self.fix(root)
        return root
    def fix(self, root):
        """daughters of a head that was analysed as *this refer to it under its own root"""
        o = self.mem[root]; old = ('addr', (('v', 0, 'this'),))
        ds = field(o, 'm_daughters')
        for x in ds[1:] if ds[0] == 'list' else ():
            if x[0] == 'addr' and len(x[1]) == 1 and x[1][0] in self.mem:
                d = self.mem[x[1][0]]
                if field(d, 'm_parent') == old: self.mem[x[1][0]] = put(d, (('f', 'm_parent'),), ('addr', (root,)))
    def call(self, root, fn, args=(), keep=True):
        """fn on the particle at root; effects are kept"""
        o = self.mem[root] if root[0] in ('v', 'mem') else None
        mem = dict(self.mem)
        r = self.m.function(fn, list(args), o, mem=mem)
        if keep:
            self.mem = {k: v for k, v in r['st'].s.items()}
            if 'this' in r: self.mem[root] = r['this']; self.fix(root)
        return r
    def tree(self, root): 
        st = St(self.mem); return rdtree(self.m, st, self.mem[root])
    def value(self, r, v):
        """particle value v returned by a call"""
        return rdtree(self.m, r['st'], v)
