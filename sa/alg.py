"""Equality of terms whose free symbols are bound by algebraic constraints (unit vectors, cosines and their half-angle roots, on-shell energies).

A sampler draws free coordinates and *derives* the constrained symbols and every root that may be taken, over any field.  Equality is tested in
GF(p) (a false 'equal' has probability < degree/2^61 per trial, three trials); a difference is certified by three real valuations that satisfy the constraints."""
import random, math, cmath, hashlib
from fractions import Fraction as Fr
from .value import *
from . import value as V, numw
from .numw import NoValue, Nan

P_ = 2305843009212943201          # prime, = 1 mod 8*3*5*7*11*13*17, so that small integers and -1 have roots
class M:
    """number mod P_"""
    __slots__ = ('v',)
    def __init__(s, v): s.v = v % P_
    def __add__(a, b): return M(a.v + mv(b))
    __radd__ = __add__
    def __sub__(a, b): return M(a.v - mv(b))
    def __rsub__(a, b): return M(mv(b) - a.v)
    def __mul__(a, b): return M(a.v * mv(b))
    __rmul__ = __mul__
    def __truediv__(a, b): return M(a.v * inv(mv(b)))
    def __rtruediv__(a, b): return M(mv(b) * inv(a.v))
    def __neg__(a): return M(-a.v)
    def __pow__(a, n): return M(pow(a.v, n, P_)) if n >= 0 else M(pow(inv(a.v), -n, P_))
def mv(x):
    if isinstance(x, M): return x.v
    if isinstance(x, Fr): return x.numerator * inv(x.denominator)
    return int(x)
def inv(x):
    x %= P_
    if x == 0: raise NoValue('division by zero')
    return pow(x, P_ - 2, P_)
def tonelli(n):
    n %= P_
    if n == 0: return 0
    if pow(n, (P_ - 1) // 2, P_) != 1: return None
    q, s = P_ - 1, 0
    while q % 2 == 0: q //= 2; s += 1
    z = 2
    while pow(z, (P_ - 1) // 2, P_) == 1: z += 1
    m, c, t, r = s, pow(z, q, P_), pow(n, q, P_), pow(n, (q + 1) // 2, P_)
    while t != 1:
        i, x = 0, t
        while x != 1: x = x * x % P_; i += 1
        b = pow(c, 1 << (m - i - 1), P_)
        m, c = i, b * b % P_
        t, r = t * c % P_, r * b % P_
    return r
IM = tonelli(P_ - 1)
SMALL = (2, 3, 5, 7, 11, 13, 17)
ROOT = {p: tonelli(p) for p in SMALL}
def root_of_int(n):
    r = 1
    for p in SMALL:
        while n % (p * p) == 0: n //= p * p; r = r * p % P_
        if n % p == 0: n //= p; r = r * ROOT[p] % P_
    k = math.isqrt(n)
    return r * k % P_ if k * k == n else None

class Sample:
    """what a sampler fills in: env (symbol -> value), roots (list of values that are known square roots of their squares), apps ((f, value) -> value)"""
    def __init__(self, field, rnd):
        self.field, self.rnd, self.env, self.roots, self.apps, self.cj = field, rnd, {}, [], {}, {}
    def draw(self, lo=0.1, hi=0.9):
        if self.field: return M(self.rnd.randrange(2, P_ - 1))
        return self.rnd.uniform(lo, hi)
    def set(self, name, v): self.env[sym(name) if isinstance(name, str) else name] = v
    def complex(self, *names):
        """complex-valued symbols"""
        for n in names:
            a, b = self.draw(0.2, 2.), self.draw(0.2, 2.)
            if self.field: self.env[sym(n)] = M(a.v + IM * b.v); self.cj[sym(n)] = M(a.v - IM * b.v)
            else: self.env[sym(n)] = complex(a, b)
    def app(self, f, x, v): self.apps[(f, mv(x) % P_ if self.field else x)] = v
    def root(self, *vs): self.roots += vs

class Field(numw.Field):
    def __init__(self, salt, S_, cj=False, other=None):
        super().__init__(salt); self.S, self.cj = S_, cj
        self.other = other
        self.rt = {}
        for r in S_.roots:
            for n in range(1, 13):
                for d in range(1, 13):
                    if math.gcd(n, d) != 1: continue
                    a, b = root_of_int(n), root_of_int(d)
                    self.rt.setdefault(r.v * r.v * n * inv(d) % P_, r.v * a * inv(b) % P_)
    def flip(self):
        if self.other is None:
            self.other = Field.__new__(Field); self.other.__dict__.update(self.__dict__)
            self.other.cj, self.other.memo, self.other.other = not self.cj, {}, self
        return self.other
    def inv(self, x): return inv(x)
    def __call__(self, t):
        r = self.memo.get(id(t))
        if r is None: r = self.memo[id(t)] = (self.ev(t), t)
        return r[0]
    def ev(self, t):
        k = t[0]
        if k == 'n': return t[1].numerator * inv(t[1].denominator) % P_
        if k == 'sym':
            if t == I: return (-IM if self.cj else IM) % P_
            if self.cj and t in self.S.cj: return mv(self.S.cj[t]) % P_
            if t in self.S.env: return mv(self.S.env[t]) % P_
            return self.hh(t)
        if k == '+':
            r = 0
            for x in t[1:]: r += self(x)
            return r % P_
        if k == '*':
            r = 1
            for x in t[1:]: r = r * self(x) % P_
            return r
        if k == 'neg': return -self(t[1]) % P_
        if k == '/': return self(t[1]) * inv(self(t[2])) % P_
        if k == '^':
            e = t[2][1] if isinstance(t[2], tuple) and t[2][0] == 'n' else t[2]
            if not isinstance(e, tuple) and e == int(e):
                b = self(t[1]); e = int(e)
                return pow(b, e, P_) if e >= 0 else pow(inv(b), -e, P_)
        if k == 'app':
            f, a = t[1], t[2:]
            if f == 'conj': return self.flip()(a[0])
            if f == 'norm': return self(a[0]) * self.flip()(a[0]) % P_
            if f == 'real': return (self(a[0]) + self.flip()(a[0])) * inv(2) % P_
            if f == 'imag': return (self(a[0]) - self.flip()(a[0])) * inv(2 * (-IM if self.cj else IM)) % P_
            if f in ('sqrt', 'csqrt'):
                x = a[0]
                if x[0] == 'n' and x[1] >= 0:
                    r, d = root_of_int(x[1].numerator), root_of_int(x[1].denominator)
                    if r is not None and d is not None: return r * inv(d) % P_
                v = self(x)
                if v == 0: return 0
                if v in self.rt: return self.rt[v]
                return self.hh(('sqrt', v))
            if f == 'pow' and a[0][0] == 'n' and a[1][0] == 'n' and a[0][1] > 0 and (2 * a[1][1]).denominator == 1 and abs(a[1][1]) < 60:
                r, d = root_of_int(a[0][1].numerator), root_of_int(a[0][1].denominator)
                if r is not None and d is not None:
                    e = int(2 * a[1][1]); x = r * inv(d) % P_
                    return pow(x, e, P_) if e >= 0 else pow(inv(x), -e, P_)
            if len(a) == 1:
                v = self(a[0])
                if (f, v) in self.S.apps: return mv(self.S.apps[(f, v)]) % P_
        return self.hh(tuple(self(x) if isinstance(x, tuple) and x and isinstance(x[0], str) else (tuple(map(repr, x)) if isinstance(x, tuple) else x) for x in t))
    def hh(self, key): return int.from_bytes(hashlib.blake2b(repr((self.salt, key)).encode(), digest_size=16).digest(), 'big') % P_

class Real(numw.Eval):
    def __init__(self, S_, rnd, funcs=()):
        super().__init__(rnd, None, funcs)
        self.env = {k: complex(v) for k, v in S_.env.items()}

def agree(a, b, sampler, funcs=(), tries=24):
    """(True|False|None, why) for two terms under the sampler's constraints"""
    return agree_all([(a, b, '')], sampler, funcs, tries)
def agree_all(pairs, sampler, funcs=(), tries=24):
    """all pairs (got, want, label) equal: True; some pair certified different: False; else None"""
    pairs = [p for p in pairs if p[0] != p[1]]
    if not pairs: return True, ''
    todo = []
    try:
        left = pairs
        fs = []
        for salt in (1, 2, 3):
            s = Sample(True, random.Random(salt * 7919)); sampler(s)
            fs.append(Field(salt, s))
        for p in pairs:
            if any(F(p[0]) != F(p[1]) for F in fs): todo.append(p)
    except (NoValue, RecursionError, TypeError, AttributeError, ValueError): todo = pairs
    if not todo: return True, ''
    unsure = None
    rnd = random.Random(5)
    for p in todo:
        bad = []
        for i in range(tries):
            s = Sample(False, rnd); sampler(s)
            E = Real(s, rnd, funcs)
            try: vb, va = E.num(p[1]), E.num(p[0])
            except Nan: continue
            except (OverflowError, ZeroDivisionError): continue
            except NoValue as e: unsure = 'not interpretable: %s' % e; break
            if abs(va - vb) > 1e-6 * max(abs(va), abs(vb)) + 1e-9: bad.append((E.env, va, vb))
            if len(bad) >= 3: break
        if len(bad) >= 3:
            env, va, vb = bad[0]
            return False, '%s is %s = %.6g%+.6gi instead of %.6g%+.6gi, e.g. for %s' % (p[2], show(p[0])[:160], va.real, va.imag, vb.real, vb.imag, ', '.join('%s=%.3g' % (show(k)[:20], v.real) for k, v in list(env.items())[:8]))
        if unsure is None: unsure = 'no proof of equality and no separating valuation: %s: %s vs %s' % (p[2], show(p[0])[:160], show(p[1])[:160])
    return None, unsure

# ---- stock samplers
def unit(s, names):
    u, v = s.draw(), s.draw()
    n = 1 + u * u + v * v
    k = (2 * u / n, 2 * v / n, (1 - u * u - v * v) / n)
    for a, x in zip(names, k): s.set(a, x)
    return k
def cosine(s, name):
    """c = cos(t) for 0<t<pi with roots of (1+c)/2, (1-c)/2, 1-c^2"""
    q = s.draw(0.1, 0.9)
    ch, sh = (1 - q * q) / (1 + q * q), 2 * q / (1 + q * q)
    c = ch * ch - sh * sh
    s.root(ch, sh, 2 * ch * sh)
    if name: s.set(name, c)
    return c, 2 * ch * sh, ch, sh
def gamma(s, name):
    q = s.draw(0.1, 0.8)
    ch, sh = (1 + q * q) / (1 - q * q), 2 * q / (1 - q * q)
    g = ch * ch + sh * sh
    s.root(ch, sh, 2 * ch * sh)
    if name: s.set(name, g)
    return g, 2 * ch * sh, ch, sh
