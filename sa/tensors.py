"""Tensors of expressions: building abstract tensor objects and reading results back as {coordinates: term}."""
import itertools
from .value import *
from . import value as V

def prod(xs):
    r = 1
    for x in xs: r *= x
    return r
def coords(dim): return list(itertools.product(*[range(d) for d in dim]))
def mk(dim, elems, symm=None, uniq=None):
    n = prod(dim)
    idx = ('list',) + tuple(num(i) for i in range(n))
    return ('obj', 'AmpGen::Tensor', (('m_dim', ('list',) + tuple(num(d) for d in dim)), ('m_elements', ('list',) + tuple(elems)), ('m_symmetrisedCoordinates', symm or idx), ('m_uniqueElements', uniq or idx)))
def fresh(name, dim): return mk(dim, [sym('%s%s' % (name, ''.join(map(str, c)))) for c in coords(dim)])
def vec(name, n=4): return fresh(name, [n])
def field(o, k):
    for a, b in o[2]:
        if a == k: return b
    raise Undecided('no field %s' % k)
def ints(v):
    if v[0] != 'list': raise Undecided('not a list: %s' % show(v)[:80])
    r = []
    for x in v[1:]:
        k = as_num(x)
        if k is None: raise Undecided('unknown extent %s' % show(x)[:80])
        r.append(int(k))
    return r
def read(o):
    """(dim, {coords: element}) of a tensor value, through its symmetry map"""
    if o[0] != 'obj' or o[1] not in ('AmpGen::Tensor', 'AmpGen::TensorProxy'): raise Undecided('not a tensor: %s' % show(o)[:120])
    if o[1] == 'AmpGen::TensorProxy': o = field(o, 'm_tensor')
    dim = ints(field(o, 'm_dim')); el = field(o, 'm_elements'); sm = ints(field(o, 'm_symmetrisedCoordinates'))
    if el[0] == 'fill' and as_num(el[1]) is not None: el = ('list',) + (el[2],) * int(as_num(el[1]))
    if el[0] != 'list': raise Undecided('elements: %s' % show(el)[:120])
    cs = coords(dim)
    if len(sm) != len(cs): return dim, None
    out = {}
    for i, c in enumerate(cs):
        if sm[i] < 0 or sm[i] >= len(el) - 1: return dim, None
        out[c] = el[1 + sm[i]]
    return dim, out
def index(k, up=False):
    return ('obj', 'AmpGen::Tensor::Index', (('m_isUpper', TRUE if up else FALSE), ('m_ptr', ('addr', (('v', -5000 - k, 'idx%d' % k),)))))
def proxy(T, idx): return ('obj', 'AmpGen::TensorProxy', (('m_indices', ('list',) + tuple(idx)), ('m_tensor', T)))
def metric(k): return 1 if k == 3 else -1
def find(P, q, types=None, n=None, ret=None, member=None):
    r = []
    for f in P.find(q):
        if not f.get('body') or f.get('dep'): continue
        ts = [p['t'].replace('const ', '').replace('&', '').strip().replace('AmpGen::', '') for p in f['p']]
        if n is not None and len(ts) != n: continue
        if types is not None and ts != [t.replace('AmpGen::', '') for t in types]: continue
        r.append(f)
    return r
def ground(v, want):
    """v == want when v is a known number or truth value, else undecided"""
    if v == want: return True
    if v[0] == 'n' and want[0] == 'b': return (v[1] != 0) == want[1]
    if v == V.NULL and want[0] == 'addr' or v[0] == 'addr' and want == V.NULL or v[0] == want[0] == 'addr' and len(v[1]) == len(want[1]) == 1 and v[1][0][0] == want[1][0][0] == 'v': return False
    return False if v[0] in ('n', 'b', 's') else None

# ---- matrices as {(i,j): term}
def mat(o):
    d, e = read(o)
    if len(d) != 2 or e is None: raise Undecided('not a matrix')
    return d, e
def mmul(a, b):
    n, m, k = 1 + max(i for i, _ in a), 1 + max(j for _, j in b), 1 + max(j for _, j in a)
    r = {}
    for i in range(n):
        for j in range(m):
            t = ZERO
            for l in range(k):
                if a[i, l] != ZERO and b[l, j] != ZERO: t = add(t, mul(a[i, l], b[l, j]))
            r[i, j] = t
    return r
def madd(a, b, s=1): return {c: add(a[c], mul(num(s), b[c])) for c in a}
def mscale(x, a): return {c: mul(x, a[c]) for c in a}
def eye(n): return {(i, j): ONE if i == j else ZERO for i in range(n) for j in range(n)}
def dagger(a): return {(j, i): ('app', 'conj', a[i, j]) if a[i, j][0] != 'n' else a[i, j] for i, j in a}
def tr(a):
    t = ZERO
    for (i, j) in sorted(a):
        if i == j: t = add(t, a[i, j])
    return t
def mvec(a, v):
    n, k = 1 + max(i for i, _ in a), 1 + max(j for _, j in a)
    r = []
    for i in range(n):
        t = ZERO
        for l in range(k): t = add(t, mul(a[i, l], v[l]))
        r.append(t)
    return r
def mpairs(a, b, label=''): return [(a[c], b[c], '%s element %s' % (label, list(c))) for c in sorted(a)]
