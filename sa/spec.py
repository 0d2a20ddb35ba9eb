"""Operators on terms, for writing down specifications."""
from .value import *
from . import value as V
from . import den
def t(x):
    if isinstance(x, E): return x.t
    if isinstance(x, tuple): return x
    if isinstance(x, complex): return add(num(x.real), mul(num(x.imag), V.I))
    return num(x)
class E:
    __slots__ = ('t',)
    def __init__(self, x): self.t = t(x)
    def __add__(a, b): return E(add(t(a), t(b)))
    def __radd__(a, b): return E(add(t(b), t(a)))
    def __sub__(a, b): return E(V.sub(t(a), t(b)))
    def __rsub__(a, b): return E(V.sub(t(b), t(a)))
    def __mul__(a, b): return E(mul(t(a), t(b)))
    def __rmul__(a, b): return E(mul(t(b), t(a)))
    def __truediv__(a, b): return E(div(t(a), t(b)))
    def __rtruediv__(a, b): return E(div(t(b), t(a)))
    def __neg__(a): return E(neg(t(a)))
    def __pow__(a, n): return E(den.pow_(t(a), t(n)))
    def __gt__(a, b): return cmp_('>', t(a), t(b))
    def __lt__(a, b): return cmp_('<', t(a), t(b))
    def __ge__(a, b): return cmp_('>=', t(a), t(b))
    def __le__(a, b): return cmp_('<=', t(a), t(b))
def f1(n): return lambda x: E(den.un(n, t(x)))
sqrt, exp, log, sin, cos, tan, atan, abs_, real, imag, conj, norm = map(f1, ('sqrt', 'exp', 'log', 'sin', 'cos', 'tan', 'atan', 'abs', 'real', 'imag', 'conj', 'norm'))
def csqrt(x): return E(den.csqrt(t(x)))
def where_(c, a, b): return E(ite(c, t(a), t(b)))
i = E(V.I)
