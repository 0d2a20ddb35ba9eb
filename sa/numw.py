"""Deciding whether two extracted terms denote the same function.

agree(a, b): True when the normal forms coincide (a proof), False only when the terms are fully understood *and* a separating valuation of
their free symbols is exhibited (a certificate that they differ), None otherwise.  Nothing of the analysed program is run: valuations are
applied to terms, and only to rule out that two differently written terms are the same function."""
import cmath, math, random, zlib
from .value import *
from . import value as V

class NoValue(Exception): pass      # term not interpretable
class Nan(Exception): pass          # interpretable, outside the domain here

def h01(key): return (zlib.crc32(repr(key).encode()) & 0xffffffff) / 2.0**32

class Eval:
    def __init__(self, rnd, dom=None, funcs=()):
        self.rnd, self.dom, self.funcs, self.env, self.memo = rnd, dom or {}, funcs, {}, {}
    def atom(self, t):
        if t not in self.env:
            d = self.dom(t) if callable(self.dom) else self.dom.get(t)
            if d is None: d = (0.3, 2.5)
            self.env[t] = complex(self.rnd.uniform(*d))
        return self.env[t]
    def __call__(self, t):
        k = t
        r = self.memo.get(k)
        if r is None:
            r = self.ev(t)
            if isinstance(r, complex) and (cmath.isnan(r) or cmath.isinf(r)): raise Nan()
            self.memo[k] = r
        return r
    def real(self, t):
        v = self(t)
        if isinstance(v, bool): return float(v)
        if abs(v.imag) > 1e-9 * max(1, abs(v)): raise Nan()
        return v.real
    def truth(self, t):
        v = self(t)
        if isinstance(v, bool): return v
        return v != 0
    def num(self, t):
        v = self(t)
        return complex(v) if isinstance(v, bool) else v
    def ev(self, t):
        k = t[0]
        if k == 'n': return complex(float(t[1]))
        if k == 'b': return t[1]
        if k == 'sym': return 1j if t == I else self.atom(t)
        if k in ('+', '*'):
            r = self.num(t[1])
            for x in t[2:]: r = r + self.num(x) if k == '+' else r * self.num(x)
            return r
        if k == 'neg': return -self.num(t[1])
        if k == '/':
            b = self.num(t[2])
            if abs(b) < 1e-9: raise Nan()
            return self.num(t[1]) / b
        if k == '^':
            e = t[2][1] if isinstance(t[2], tuple) else t[2]
            b = self.num(t[1])
            if b == 0 and e < 0: raise Nan()
            return b ** int(e)
        if k == 'ite': return self(t[2]) if self.truth(t[1]) else self(t[3])
        if k in ('<', '=='):
            a, b = self(t[1]), self(t[2])
            if isinstance(a, bool) or isinstance(b, bool): return complex(a) == complex(b) if k == '==' else NoValue
            if k == '<': a, b = complex(self.real(t[1])), complex(self.real(t[2]))
            if abs(a - b) < 1e-7 * max(1, abs(a)): raise Nan()
            return a.real < b.real if k == '<' else False
        if k == 'not': return not self.truth(t[1])
        if k == 'and': return self.truth(t[1]) and self.truth(t[2])
        if k == 'or': return self.truth(t[1]) or self.truth(t[2])
        if k == 'app': return self.app(t)
        raise NoValue(k)
    def app(self, t):
        f, a = t[1], t[2:]
        if f in ('param', 'prop') and all(x[0] in ('s', 'cat', 'sym', 'n', 'app', '+', '*', '/', 'neg') for x in a): return self.atom(t)
        if f in self.funcs: return self.unint(f, a)
        if f in ('real', 'imag', 'conj', 'norm', 'abs', 'csqrt', 'sqrt', 'exp', 'log', 'sin', 'cos', 'tan', 'asin', 'acos', 'atan', 'fabs'):
            x = self.num(a[0])
            realarg = abs(x.imag) < 1e-12 * max(1, abs(x))
            if f == 'real': return complex(x.real)
            if f == 'imag': return complex(x.imag)
            if f == 'conj': return x.conjugate()
            if f == 'norm': return complex(abs(x) ** 2)
            if f in ('abs', 'fabs'): return complex(abs(x))
            if f == 'csqrt': return cmath.sqrt(complex(x.real, 0) if realarg else x)
            if f == 'sqrt':
                if realarg:
                    if x.real < 0:
                        if x.real > -1e-9: raise Nan()
                        raise Nan()
                    return complex(math.sqrt(x.real))
                return cmath.sqrt(x)
            if f == 'log':
                if x == 0 or (realarg and x.real < 0): raise Nan()
                return cmath.log(x)
            if f == 'exp':
                if x.real > 200: raise Nan()
                return cmath.exp(x)
            try: return getattr(cmath, f)(x)
            except (ValueError, OverflowError): raise Nan()
        if f == 'atan2': return complex(math.atan2(self.real(a[0]), self.real(a[1])))
        if f == 'fmod':
            y = self.real(a[1])
            if y == 0: raise Nan()
            return complex(math.fmod(self.real(a[0]), y))
        if f == 'pow':
            b, e = self.num(a[0]), self.num(a[1])
            if b == 0: raise Nan()
            return b ** e
        raise NoValue(f)
    def unint(self, f, a):
        """an uninterpreted function: a fixed smooth function of its arguments"""
        key, xs = [f], []
        for x in a:
            if x[0] in ('s', 'b') : key.append(x); continue
            try: xs.append(self.num(x)); key.append('#')
            except NoValue: key.append(x)
        r = complex(0.4 + h01(key))
        for i, x in enumerate(xs): r += (0.2 + h01((key, i))) * (x / (1 + abs(x))) + 0.1 * h01((key, i, 1)) * cmath.sin(complex(x.real, max(-5, min(5, x.imag))))
        return r

def separate(a, b, dom=None, funcs=(), tries=60, nan=True, seed=1):
    """a valuation on which a and b differ, or None.  Raises NoValue when a term is not interpretable."""
    rnd = random.Random(seed)
    bad, ok = [], 0
    for i in range(tries):
        E = Eval(rnd, dom, funcs)
        try: vb = E.num(b)
        except Nan: continue
        except (OverflowError, ZeroDivisionError): continue
        try: va = E.num(a)
        except Nan: va = None
        except (OverflowError, ZeroDivisionError): continue
        if va is None:
            if nan: bad.append((E.env, None, vb))
        elif abs(va - vb) > 1e-6 * max(abs(va), abs(vb)) + 1e-11: bad.append((E.env, va, vb))
        else: ok += 1
        if len(bad) >= 3: return bad[0]
    return None if not bad or len(bad) < 3 else bad[0]

# ---- identity of rational expressions in opaque atoms, tested in GF(p); a false "identical" has probability < degree/2^61 per trial, three trials
PRIME = 2305843009213693921          # 2^61 - 31, = 1 mod 4
def _ri():
    for g in range(2, 100):
        r = pow(g, (PRIME - 1) // 4, PRIME)
        if r * r % PRIME == PRIME - 1: return r
RI = _ri()
class Field:
    def __init__(self, salt): self.salt, self.memo = salt, {}
    def h(self, key):
        import hashlib
        return int.from_bytes(hashlib.blake2b(repr((self.salt, key)).encode(), digest_size=16).digest(), 'big') % PRIME
    def __call__(self, t):
        r = self.memo.get(t)
        if r is None: r = self.memo[t] = self.ev(t)
        return r
    def inv(self, x):
        if x == 0: raise NoValue('division by zero')
        return pow(x, PRIME - 2, PRIME)
    def ev(self, t):
        k = t[0]
        if k == 'n': return t[1].numerator % PRIME * self.inv(t[1].denominator % PRIME) % PRIME if t[1].denominator != 1 else t[1].numerator % PRIME
        if k == 'sym': return RI if t == I else self.h(t)
        if k == '+':
            r = 0
            for x in t[1:]: r += self(x)
            return r % PRIME
        if k == '*':
            r = 1
            for x in t[1:]: r = r * self(x) % PRIME
            return r
        if k == 'neg': return -self(t[1]) % PRIME
        if k == '/': return self(t[1]) * self.inv(self(t[2])) % PRIME
        if k == '^':
            e = t[2][1] if isinstance(t[2], tuple) and t[2][0] == 'n' else t[2]
            if not isinstance(e, tuple) and e == int(e):
                b = self(t[1]); e = int(e)
                return pow(b, e, PRIME) if e >= 0 else pow(self.inv(b), -e, PRIME)
        return self.h(tuple(self(x) if isinstance(x, tuple) and x and isinstance(x[0], str) else (tuple(map(repr, x)) if isinstance(x, tuple) else x) for x in t))
def identical(a, b):
    for salt in (1, 2, 3):
        F = Field(salt)
        if F(a) != F(b): return False
    return True

def agree(a, b, dom=None, funcs=(), nan=True, tries=60, proof=True):
    """(True|False|None, witness text)"""
    if a == b: return True, ''
    if proof:
        try:
            if identical(a, b): return True, ''
        except (NoValue, RecursionError, TypeError, AttributeError): pass
        try:
            if same(a, b) is True: return True, ''
        except RecursionError: pass
    try: w = separate(a, b, dom, funcs, tries, nan)
    except NoValue as e: return None, 'not interpretable: %s' % e
    if w is None: return None, 'no proof of equality and no separating valuation'
    env, va, vb = w
    return False, 'e.g. %s: %s, expected %s' % (', '.join('%s=%.4g' % (show(k)[:30], v.real) for k, v in list(env.items())[:6]), 'undefined' if va is None else '%.6g%+.6gi' % (va.real, va.imag), '%.6g%+.6gi' % (vb.real, vb.imag))
