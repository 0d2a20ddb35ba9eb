"""Lineshapes: extraction of the term each lineshape denotes, and the formulas they stand for (documented in AmpGen/Lineshapes.h)."""
import glob, math
from .value import *
from . import extract, den, value as V
from .spec import *
from .numw import agree

pi = E(('n', Fr('3.14159265358979323846')))   # M_PI as written in <math.h>
def load(extra=()):
    return extract.load(['src/Lineshapes.cpp'] + sorted(glob.glob(extract.REPO + '/src/Lineshapes/*.cpp')) + list(extra))

def prop_of(attr):
    def h(m, n, st, fr):
        v = m.rv(n['o'], st, fr) if 'o' in n else m.rv(n['a'][0], st, fr)
        return ('app', 'prop', S(attr), v)
    return h
def pdg(name, attr): return E(('app', 'prop', S(attr), ('app', 'PDG', S(name))))
def par(name, default=None): return E(('app', 'param', S(name), ZERO if default is None else t(default)))
def param(x):
    d = x[1] if len(x) > 1 else ZERO
    return ('app', 'param', x[0] if x else S(''), d)
def spline(m, n, st, fr):
    a = [m.rv(x, st, fr) for x in n['a']]
    if len(a) < 3: return None
    return ('app', 'spline', a[0], a[1], a[2], a[4] if len(a) > 4 else FALSE)
def split(m, n, st, fr):
    a = [m.rv(x, st, fr) for x in n['a']]
    if a[0][0] != 's' or a[1][0] != 'n' or len(a) > 2 and a[2] != TRUE: return None
    return ('list',) + tuple(S(x) for x in a[0][1].split(chr(int(a[1][1]))) if x not in ('', ' ', '\n', '\t'))
def spl(name, x, which, cont=False): return E(('app', 'spline', S(name), t(x), S(which), ('b', cont)))
def overrides(extra=None):
    ov = {'AmpGen::ParticlePropertiesList::get': lambda m, n, st, fr: ('app', 'PDG', m.rv(n['a'][0], st, fr)), 'AmpGen::getSpline': spline, 'AmpGen::split': split}
    for a in ('mass', 'width', 'radius', 'lifetime'): ov['AmpGen::ParticleProperties::' + a] = prop_of(a)
    ov.update(extra or {})
    return den.overrides(ov, param)

s, s1, s2 = E(sym('s')), E(sym('s1')), E(sym('s2'))
def dom(x):
    if x == s.t: return (0.25, 3.)
    if x in (s1.t, s2.t): return (0.01, 0.35)
    if x[0] == 'app' and x[1] == 'prop' and x[2] == S('mass'): return (0.1, 0.5)
    if x[0] == 'app' and x[1] == 'param' and '_mass' in repr(x[2]): return (1.2, 1.9)
    return None
FUNCS = ('spline', 'pade')
class Dom:
    def __init__(self, over=None): self.o = over or {}
    def __call__(self, x): return self.o.get(x) or dom(x)
def compare(a, b, over=None): return agree(a, t(b), Dom(over), FUNCS)

# ---------------------------------------------------------------- formulas
def Q2(S_, a, b): return (S_ * S_ + a * a + b * b - 2 * S_ * a - 2 * S_ * b - 2 * a * b) / (4 * S_)
def den_L(z, L):
    return [lambda: E(1), lambda: 1 + z, lambda: z * z + 3 * z + 9, lambda: z * (z - 15) ** 2 + 9 * (2 * z - 5) ** 2, lambda: (z * z - 45 * z + 105) ** 2 + 25 * z * (2 * z - 21) ** 2][L]()
NUM_L = [1, 2, 13, 277, 12746]
def barrier(z, L): return NUM_L[L] * z ** L / den_L(z, L) if L else E(1)
def barrier_norm(z, z0, L): return den_L(z0, L) / den_L(z, L) if L else E(1)
def kfactor(m, w):
    g = m * sqrt(m * m + w * w)
    return sqrt(2 * sqrt(E(2)) / pi * m * w * g / sqrt(m * m + g))
def width(S_, a, b, m, w, r, L):
    q2 = Q2(S_, a, b); q2 = where_(q2 > 0, q2, 0)
    q20 = abs_(Q2(m * m, a, b))
    return w * barrier_norm(q2 * r * r, q20 * r * r, L) * m * sqrt(q2 / q20 / S_) * (q2 / q20) ** L if L else w * m * sqrt(q2 / q20 / S_)
def pol(x, cs):
    r = E(0)
    for k, c in enumerate(cs): r = r + c * x ** k if k else r + c
    return r
def two_body(S_, a, b): return csqrt(1 - (a + b) * (a + b) / S_)
def focus(S_, a, b): return csqrt((1 - (a + b) * (a + b) / S_) * (1 - (a - b) * (a - b) / S_))
def four_pi(S_):
    return where_(S_ > 1, two_body(S_, E(2 * 0.139570), E(2 * 0.139570)), pol(S_, [0.00051, -0.01933, 0.13851, -0.20840, -0.29744, 0.13655, 1.07885]))
