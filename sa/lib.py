"""Semantics of the standard-library operations the program under analysis uses, in the term domain."""
import re
from fractions import Fraction as Fr
from .value import *
from . import value as V

def streamed(v, t):
    # what `os << v` appends; an integer prints as std::to_string prints it
    if v[0] in ('s', 'cat') or isstr(t): return v
    if is_int(t) and t.replace('const ', '').replace('&', '').strip() not in ('bool', 'char', 'signed char', 'unsigned char'):
        if v[0] == 'n' and v[1].denominator == 1: return ('s', str(v[1]))
        return app('to_string', v)
    return app('text', v)

def base_of(f):
    """container class of a qualified std name: 'std::vector::size' -> ('vector','size')"""
    m = re.match(r'^(?:std|gnu)::(?:\w+::)*?(\w+)::(~?\w+|operator.*)$', f)
    return m.groups() if m else (None, None)

MATH1 = {'sin', 'cos', 'tan', 'exp', 'log', 'sqrt', 'asin', 'acos', 'atan', 'sinh', 'cosh', 'tanh', 'floor', 'ceil', 'round', 'fabs', 'abs',
         'log10', 'log2', 'cbrt', 'exp2', 'expm1', 'log1p', 'erf', 'tgamma', 'lgamma', 'conj', 'norm', 'arg', 'real', 'imag', 'isnan', 'isinf', 'isfinite', 'signbit'}
MATH2 = {'pow', 'atan2', 'fmod', 'hypot', 'fmin', 'fmax', 'min', 'max', 'polar', 'copysign'}
SEQ = {'vector', 'array', 'basic_string', 'string', 'deque', 'initializer_list', 'list', '_Vector_base', 'set', 'map', 'unordered_map', 'multimap', 'basic_string_view'}

def sapp(cur, x):
    if cur[0] == 'ite': return ite(cur[1], sapp(cur[2], x), sapp(cur[3], x))
    return cat(cur, x) if cur[0] in ('s', 'cat', 'app') else cur
def isstr(t): return 'basic_string' in t or t.replace('const ', '').replace('&', '').strip() == 'std::string'

def size_of(v):
    k = v[0]
    if k == 'list': return num(len(v) - 1)
    if k == 'fill': return v[1]
    if k == 'gmap': return num(len(v[1]))
    if k == 'emptymap': return ZERO
    if k == 's': return num(len(v[1]))
    if k == 'upd': return size_of(v[1])
    if k == 'mapover': return size_of(v[1])
    if k == 'map': return V.sub(v[1][2], v[1][1]) if v[1][0] == 'range' else app('size', v)
    if k == 'maplist':
        d = domain_fwd(v[1]); return V.sub(d[2], d[1])
    if k == 'app' and v[1] == 'append': return add(size_of(v[2]), ONE)
    if k == 'app' and v[1] == 'extend': return add(size_of(v[2]), size_of(v[3]))
    if k == 'app' and v[1] == 'sorted': return size_of(v[2])
    if k == 'ite': return ite(v[1], size_of(v[2]), size_of(v[3]))
    if k == 'cat':
        r = ZERO
        for x in v[1:]: r = add(r, size_of(x))
        return r
    return app('size', v)

def append(v, x):
    if v[0] == 'list': return v + (x,)
    if v[0] == 'obj' and not v[2]: return ('list', x)
    return ('app', 'append', v, x)

def lex_less(x, y):
    if x[0] == y[0] and x[0] in ('n', 's'): return ('b', x[1] < y[1])
    if x[0] == 'obj' and y[0] == 'obj' and x[1] == y[1] and sorted(k for k, _ in x[2]) == ['first', 'second'] == sorted(k for k, _ in y[2]):
        for k in ('first', 'second'):
            a, b = dict(x[2])[k], dict(y[2])[k]
            r = lex_less(a, b)
            if r[0] != 'b': return r
            if r[1]: return TRUE
            if a != b:
                q = lex_less(b, a)
                return FALSE if q == TRUE else ('?',)
        return FALSE
    return ('?',)
def pair(a, b): return ('obj', 'pair', (('first', a), ('second', b)))

def objp(m, n, st, fr):
    """(path, value) of the object of a member call / member operator"""
    if n['k'] == 'mcall':
        p = m.objpath(n, st, fr)
    else:
        p = m.lv(n['a'][0], st, fr, soft=True)
        if p is None: p = m.tmp(m.rv(n['a'][0], st, fr), st)
    v = m.rd(st, p)
    if v[0] == 'addr' and n['k'] == 'mcall' and not n.get('arrow') and False: p = v[1]; v = m.rd(st, p)
    return p, v

def rng(m, a, b, st):
    """values in the iterator range [a,b) if concrete, else None"""
    if a[0] in ('it', 'mit') and b[0] in ('it', 'mit') and a[1] == b[1] and a[1][0] == 'addr':
        c = m.rd(st, a[1][1]); g = gitems(c)
        if g is not None:
            ks = [k for k, _ in g]
            pos = lambda x: (ks.index(x[2]) if x[2] in ks else None) if x[0] == 'mit' else as_num(x[2])
            i, j = pos(a), pos(b)
            return None if i is None or j is None else [pair(*g[k]) for k in range(int(i), int(j))]
    if a[0] == 'it' and b[0] == 'it' and a[1] == b[1]:
        c = m.rd(st, a[1][1]) if a[1][0] == 'addr' else a[1]
        i, j = as_num(a[2]), as_num(b[2])
        if i is not None and j is not None: return [proj(c, ('i', num(k))) for k in range(int(i), int(j))]
    return None
def rngsym(m, a, b, st):
    """(element term at index var, domain) for a symbolic iterator range"""
    if a[0] == 'it' and b[0] == 'it' and a[1] == b[1]:
        c = m.rd(st, a[1][1]) if a[1][0] == 'addr' else a[1]
        return c, ('range', a[2], b[2])
    return None, None
def kvar(m):
    m.loopdepth = getattr(m, 'loopdepth', 0) + 1
    return sym('#%d' % m.loopdepth)

def callv(m, f, vals, st):
    return m.call_value(f, list(vals), st)

def fval(m, n, st, fr):
    """evaluate a functor argument"""
    while n['k'] == 'cast' or (n['k'] == 'ctor' and len(n['a']) == 1 and ('function' in n.get('c', '') or n.get('copy') or n.get('move'))):
        n = n['a'][0]
    v = m.rv(n, st, fr)
    return v

def algo(m, name, n, st, fr):
    a = n['a']
    if name in ('all_of', 'any_of', 'none_of', 'count_if', 'find_if', 'for_each', 'count', 'find', 'accumulate', 'transform', 'fill', 'iota', 'copy', 'sort', 'stable_sort', 'reverse',
                'inner_product', 'max_element', 'min_element', 'equal', 'swap', 'replace', 'replace_if', 'remove_if', 'remove', 'generate', 'partial_sum', 'reduce', 'distance', 'advance', 'next', 'prev', 'unique', 'copy_if', 'remove_copy_if', 'remove_copy', 'reverse_copy', 'find_if_not', 'fill_n', 'rotate', 'next_permutation', 'prev_permutation'):
        if name == 'swap' and len(a) == 2:
            p, q = m.lv(a[0], st, fr), m.lv(a[1], st, fr)
            x, y = m.rd(st, p), m.rd(st, q)
            m.wr(st, p, y); m.wr(st, q, x); return VOID
        if name in ('distance',):
            x, y = m.rv(a[0], st, fr), m.rv(a[1], st, fr)
            if x[0] == 'it' and y[0] == 'it' and x[1] == y[1]: return V.sub(y[2], x[2])
            return app('distance', x, y)
        if name in ('next', 'prev'):
            x = m.rv(a[0], st, fr); k = m.rv(a[1], st, fr) if len(a) > 1 else ONE
            if x[0] == 'it': return ('it', x[1], add(x[2], k) if name == 'next' else V.sub(x[2], k))
            return app(name, x, k)
        vals = []
        for x in a:
            vals.append(fval(m, x, st, fr))
        b, e = vals[0], vals[1] if len(vals) > 1 else None
        els = rng(m, b, e, st) if e is not None else None
        if els is None and e is not None and b[0] == 'rit' and e[0] == 'rit' and b[1] == e[1] and b[1][0] == 'addr' and name in ('all_of', 'any_of', 'none_of', 'count_if', 'count', 'find', 'find_if', 'accumulate', 'for_each'):
            i, j = as_num(b[2]), as_num(e[2])
            if i is not None and j is not None:
                c = m.rd(st, b[1][1]); els = [proj(c, ('i', num(k - 1))) for k in range(int(i), int(j), -1)]
        if name in ('all_of', 'any_of', 'none_of', 'count_if'):
            f = vals[2]
            if els is not None:
                rs = [m.truth(callv(m, f, [x], st)) for x in els]
                if name == 'count_if':
                    r = ZERO
                    for x in rs: r = add(r, ite(x, ONE, ZERO))
                    return r
                r = TRUE if name == 'all_of' else FALSE
                for x in rs: r = band(r, x) if name == 'all_of' else bor(r, x)
                return bnot(r) if name == 'none_of' else r
            c, d = rngsym(m, b, e, st)
            if c is None: return None
            k = kvar(m)
            try: r = m.truth(callv(m, f, [proj(c, ('i', k))], st.copy()))
            finally: m.loopdepth -= 1
            if name == 'count_if': return ('sum', d, k, ite(r, ONE, ZERO))
            if name == 'all_of': return bnot(('exists', d, k, bnot(r)))
            ex = ('exists', d, k, r)
            return ex if name == 'any_of' else bnot(ex)
        if name == 'count' and els is not None and len(vals) == 3:
            r = ZERO
            for x in els:
                if x[0] == '_Bit_reference': x = x[1]
                r = add(r, ite(cmp_('==', x, vals[2]), ONE, ZERO))
            return r
        if name == 'for_each':
            f = vals[2]
            if els is not None and b[1][0] == 'addr':
                for i in range(int(as_num(b[2])), int(as_num(e[2]))):
                    call_on_path(m, f, [b[1][1] + (('i', num(i)),)], st)
                return f
            raise Undecided('for_each over symbolic range')
        if name == 'accumulate':
            init, f = vals[2], (vals[3] if len(vals) > 3 else None)
            if els is not None:
                r = init
                for x in els: r = callv(m, f, [r, x], st) if f else add_any(r, x)
                return r
            c, d = rngsym(m, b, e, st)
            if c is None: return None
            k = kvar(m)
            try:
                cs = ('carry', k[1], 0)
                r = callv(m, f, [cs, proj(c, ('i', k))], st.copy()) if f else add_any(cs, proj(c, ('i', k)))
                root = ('v', -1, 'acc')
                return m.reduceval(r, cs, set(), init, k, d, root, St({root: r}), {root: cs}, [root])
            finally: m.loopdepth -= 1
        if name == 'transform':
            if len(vals) == 4: f, out, srcs = vals[3], vals[2], 1
            else: f, out, srcs = vals[4], vals[3], 2
            els2 = None
            if srcs == 2 and els is not None and vals[2][0] == 'it':
                c2 = m.rd(st, vals[2][1][1]) if vals[2][1][0] == 'addr' else vals[2][1]
                els2 = [proj(c2, ('i', add(vals[2][2], num(i)))) for i in range(len(els))]
            if els is not None:
                for i, x in enumerate(els):
                    v = callv(m, f, [x] + ([els2[i]] if els2 else []), st)
                    if out[0] == 'backins': m.wr(st, out[1], append(m.rd(st, out[1]), v))
                    elif out[0] == 'it' and out[1][0] == 'addr': m.wr(st, out[1][1] + (('i', add(out[2], num(i))),), v)
                    else: raise Undecided('transform output')
                return out
            c, d = rngsym(m, b, e, st)
            if c is None or srcs == 2: return None
            k = kvar(m)
            try: r = callv(m, f, [proj(c, ('i', k))], st.copy())
            finally: m.loopdepth -= 1
            if out[0] == 'backins':
                m.wr(st, out[1], ('app', 'extend', m.rd(st, out[1]), ('maplist', d, k, r))); return out
            if out[0] == 'it' and out[1][0] == 'addr' and out[2] == b[2]:
                p = out[1][1]; m.wr(st, p, ('mapover', m.rd(st, p), d, k, r)); return out
            return None
        if name in ('fill',):
            if els is not None and b[1][0] == 'addr':
                for i in range(int(as_num(b[2])), int(as_num(e[2]))): m.wr(st, b[1][1] + (('i', num(i)),), vals[2])
                return VOID
            c, d = rngsym(m, b, e, st)
            if c is not None and b[1][0] == 'addr':
                k = kvar(m); m.loopdepth -= 1
                m.wr(st, b[1][1], ('mapover', m.rd(st, b[1][1]), d, k, vals[2])); return VOID
            return None
        if name == 'iota':
            if els is not None and b[1][0] == 'addr':
                for j, i in enumerate(range(int(as_num(b[2])), int(as_num(e[2])))): m.wr(st, b[1][1] + (('i', num(i)),), add(vals[2], num(j)))
                return VOID
            c, d = rngsym(m, b, e, st)
            if c is not None and b[1][0] == 'addr':
                k = kvar(m); m.loopdepth -= 1
                m.wr(st, b[1][1], ('mapover', m.rd(st, b[1][1]), d, k, add(vals[2], k))); return VOID
            return None
        if name == 'copy':
            out = vals[2]
            if els is not None:
                for i, x in enumerate(els):
                    if out[0] == 'backins': m.wr(st, out[1], append(m.rd(st, out[1]), x))
                    elif out[0] == 'it' and out[1][0] == 'addr': m.wr(st, out[1][1] + (('i', add(out[2], num(i))),), x)
                    else: raise Undecided('copy output')
                return out
            c, d = rngsym(m, b, e, st)
            if c is not None and out[0] == 'backins' and d[1] == ZERO:
                m.wr(st, out[1], ('app', 'extend', m.rd(st, out[1]), c)); return out
            return None
        if name in ('copy_if', 'remove_copy_if', 'remove_copy', 'reverse_copy') and els is not None and vals[2][0] in ('backins', 'it'):
            out = vals[2]
            if name == 'reverse_copy': keep = list(reversed(els))
            else:
                keep = []
                for x in els:
                    r = eq_any(m, x, vals[3]) if name == 'remove_copy' else m.truth(callv(m, vals[3], [x], st))
                    if r[0] != 'b': raise Undecided('std::%s on an undecided condition' % name)
                    if r[1] == (name == 'copy_if'): keep.append(x)
            for i, x in enumerate(keep):
                if out[0] == 'backins': m.wr(st, out[1], append(m.rd(st, out[1]), x))
                elif out[1][0] == 'addr': m.wr(st, out[1][1] + (('i', add(out[2], num(i))),), x)
                else: raise Undecided('copy output')
            return out if out[0] == 'backins' else ('it', out[1], add(out[2], num(len(keep))))
        if name == 'unique' and len(vals) == 2 and els is not None and b[1][0] == 'addr':
            keep = []
            for x in els:
                r = eq_any(m, keep[-1], x) if keep else FALSE
                if r[0] != 'b': raise Undecided('std::unique on an undecided condition')
                if not r[1]: keep.append(x)
            i0 = int(as_num(b[2]))
            for i, x in enumerate(keep): m.wr(st, b[1][1] + (('i', num(i0 + i)),), x)
            return ('it', b[1], num(i0 + len(keep)))
        if name == 'fill_n' and vals[0][0] == 'it' and vals[0][1][0] == 'addr' and as_num(vals[1]) is not None:
            for i in range(int(as_num(vals[1]))): m.wr(st, vals[0][1][1] + (('i', add(vals[0][2], num(i))),), vals[2])
            return ('it', vals[0][1], add(vals[0][2], vals[1]))
        if name == 'reverse' and els is not None and b[1][0] == 'addr':
            i0 = int(as_num(b[2]))
            for i, x in enumerate(reversed(els)): m.wr(st, b[1][1] + (('i', num(i0 + i)),), x)
            return VOID
        if name in ('find', 'find_if', 'find_if_not'):
            if name == 'find_if_not': pr = lambda x, s: bnot(m.truth(callv(m, vals[2], [x], s)))
            elif name == 'find_if': pr = lambda x, s: m.truth(callv(m, vals[2], [x], s))
            else: pr = lambda x, s: eq_any(m, x, vals[2])
            if els is not None:
                r = e
                i0 = as_num(b[2])
                for i, x in reversed(list(enumerate(els))):
                    r = ite(pr(x, st), (b[0], b[1], num(i0 - i if b[0] == 'rit' else i0 + i)), r)
                return r
            c, d = rngsym(m, b, e, st)
            if c is None: return None
            k = kvar(m)
            try: r = pr(proj(c, ('i', k)), st.copy())
            finally: m.loopdepth -= 1
            return ite(('exists', d, k, r), ('it', b[1], ('first', d, k, r, k)), e)
        if name == 'inner_product' and els is not None and vals[2][0] == 'it' and len(vals) == 4:
            c2 = m.rd(st, vals[2][1][1]) if vals[2][1][0] == 'addr' else vals[2][1]
            r = vals[3]
            for i, x in enumerate(els): r = add(r, mul(x, proj(c2, ('i', add(vals[2][2], num(i))))))
            return r
        if name in ('sort', 'stable_sort') and b[0] == 'it' and b[1][0] == 'addr':
            p = b[1][1]
            if els is not None and len(els) <= 12:
                def less(x, y):
                    r = m.truth(callv(m, vals[2], [x, y], st)) if len(vals) > 2 else lex_less(x, y)
                    if r[0] != 'b': raise KeyError
                    return r[1]
                try:
                    out = []
                    if st.sure and len(vals) > 2 and els and less(els[0], els[0]): raise Fault('the ordering used to sort holds between an element and itself (not a strict weak ordering)')
                    for x in els:
                        i = len(out)
                        while i > 0 and less(x, out[i - 1]): i -= 1
                        out.insert(i, x)
                    i0 = int(as_num(b[2]))
                    for i, x in enumerate(out): m.wr(st, p + (('i', num(i0 + i)),), x)
                    return VOID
                except KeyError: pass
            m.wr(st, p, app('sorted', m.rd(st, p), *vals[2:])); return VOID
        if name in ('replace_if', 'replace') and len(vals) == 4 and els is not None and b[1][0] == 'addr':
            rs = [m.truth(callv(m, vals[2], [x], st)) if name == 'replace_if' else eq_any(m, x, vals[2]) for x in els]
            i0 = int(as_num(b[2]))
            for i, (x, r) in enumerate(zip(els, rs)):
                if r != FALSE: m.wr(st, b[1][1] + (('i', num(i0 + i)),), ite(r, vals[3], x))
            return VOID
        if name in ('remove_if', 'remove') and els is not None and b[1][0] == 'addr':
            rs = [m.truth(callv(m, vals[2], [x], st)) if name == 'remove_if' else eq_any(m, x, vals[2]) for x in els]
            if all(r[0] == 'b' for r in rs):
                i0 = int(as_num(b[2])); k = i0
                for x, r in zip(els, rs):
                    if not r[1]: m.wr(st, b[1][1] + (('i', num(k)),), x); k += 1
                return ('it', b[1], num(k))
        if name == 'reverse' and els is not None and b[1][0] == 'addr':
            i0 = int(as_num(b[2]))
            for i, x in enumerate(reversed(els)): m.wr(st, b[1][1] + (('i', num(i0 + i)),), x)
            return VOID
        if name in ('next_permutation', 'prev_permutation') and len(vals) == 2 and els is not None and b[1][0] == 'addr':
            xs = [as_num(x) for x in els]
            if any(x is None for x in xs): raise Undecided('permutation of unknown elements')
            sg = 1 if name[0] == 'n' else -1
            ks = [x * sg for x in xs]
            i = len(ks) - 2
            while i >= 0 and ks[i] >= ks[i + 1]: i -= 1
            if i < 0: out = list(reversed(els)); r = FALSE
            else:
                j = len(ks) - 1
                while ks[j] <= ks[i]: j -= 1
                out = list(els); out[i], out[j] = out[j], out[i]; out[i + 1:] = reversed(out[i + 1:]); r = TRUE
            i0 = int(as_num(b[2]))
            for k, x in enumerate(out): m.wr(st, b[1][1] + (('i', num(i0 + k)),), x)
            return r
        if name == 'rotate' and len(vals) == 3 and b[1][0] == 'addr':
            els = rng(m, b, vals[2], st)
            if els is not None and vals[1][0] == 'it' and as_num(vals[1][2]) is not None:
                i0 = int(as_num(b[2])); k = int(as_num(vals[1][2])) - i0
                for i, x in enumerate(els[k:] + els[:k]): m.wr(st, b[1][1] + (('i', num(i0 + i)),), x)
                return ('it', b[1], num(i0 + len(els) - k))
        if name in MUTATING and name not in ('unique', 'sort', 'stable_sort', 'remove', 'remove_if', 'replace', 'replace_if', 'reverse', 'rotate'): raise Undecided('std::' + name)
        # opaque, but clobber the container
        if b[0] == 'it' and b[1][0] == 'addr' and name not in ('max_element', 'min_element', 'equal', 'count', 'reduce'):
            m.wr(st, b[1][1], app(name + '#', m.rd(st, b[1][1]), *vals))
        return app('std::' + name, *vals)
    return None

def add_any(a, b):
    if a[0] in ('s', 'cat') or b[0] in ('s', 'cat'): return cat(a, b)
    return add(a, b)
def eq_any(m, a, b):
    if (a == ('none',)) != (b == ('none',)) and 's' in (a[0], b[0]): return FALSE
    if a[0] == 'obj' and b[0] == 'obj' and a[1] == 'pair' and b[1] == 'pair':
        fa, fb = dict(a[2]), dict(b[2])
        return band(cmp_('==', fa['first'], fb['first']), cmp_('==', fa['second'], fb['second']))
    if a[0] == b[0] and a[0] in ('it', 'rit') and a[1] == b[1]: return cmp_('==', a[2], b[2])
    if a[0] == 'list' and b[0] == 'list' and a != b:
        if len(a) != len(b): return FALSE
        r = TRUE
        for x, y in zip(a[1:], b[1:]):
            r = band(r, eq_any(m, x, y))
            if r == FALSE: break
        return r
    if {a[0], b[0]} == {'it', 'mit'} and a[1] == b[1]: return FALSE
    if a[0] == 'mit' and b[0] == 'mit' and a[1] == b[1] and gkey(a[2]) and gkey(b[2]): return ('b', a[2] == b[2])
    if a[0] == 'ite' and (b[0] == 'it' or a[2][0] == 'it'): return ite(a[1], eq_any(m, a[2], b), eq_any(m, a[3], b))
    if b[0] == 'ite' and (a[0] == 'it'): return ite(b[1], eq_any(m, a, b[2]), eq_any(m, a, b[3]))
    if a[0] == 'obj' and b[0] == 'obj' and a[1] == b[1]:
        r = user_op(m, '==', a, b)
        if r is not None: return r
    return cmp_('==', a, b)

def user_op(m, op, a, b):
    """the comparison defined by the class of a, inlined"""
    for q, n, mem in ((a[1] + '::operator' + op, 1, True), (a[1].rsplit('::', 1)[0] + '::operator' + op, 2, False)):
        fs = [f for f in m.P.find(q) if f.get('body') and not f.get('dep') and len(f['p']) == n]
        if not mem: fs = [f for f in fs if all(p['t'].replace('const ', '').replace('&', '').strip() in (a[1], a[1].split('::')[-1]) for p in f['p'])]
        if len(fs) != 1: continue
        fn = fs[0]; f2 = Frame(); st = St({})
        vals = [b] if mem else [a, b]
        if mem: root = m.fresh('this'); st.s[root] = a; f2.m['this'] = (root,)
        for p, v in zip(fn['p'], vals):
            root = m.fresh(p['n']); st.s[root] = v; f2.m[p['id']] = (root,)
        return m.truth(m.run(fn['body'], st, f2))
    return None

def call_on_path(m, f, paths, st):
    if f[0] != 'clo': raise Undecided('call on path')
    clo = m.closures[f[1]]
    node = clo.node
    ps, body = node['p'], node['b']
    if node.get('gen'):
        c = m.P.lambdas.get(node['id'], [])
        if not c: raise Undecided('generic lambda')
        ps, body = c[0]['p'], c[0]['body']
    f2 = Frame(clo.frame)
    for p, q in zip(ps, paths):
        if p['t'].endswith('&'): f2.m[p['id']] = q
        else:
            root = m.fresh(p['n']); st.s[root] = m.rd(st, q); f2.m[p['id']] = (root,)
    f2.m['retref'] = False
    return m.run(body, st, f2)

def call(m, f, n, st, fr):
    a = n['a']
    # ---------------- member calls on std classes
    cls, meth = base_of(f)
    std = f.startswith('std::') or f.startswith('gnu::')
    if not std:
        if f == 'modf' and len(a) == 2 and n['k'] == 'call': return modf(m, a, st, fr)
        if f in MATH1 and len(a) == 1 and n['k'] == 'call':
            return math1(m, f, m.rv(a[0], st, fr))
        if f in MATH2 and len(a) == 2 and n['k'] == 'call':
            return math2(m, f, m.rv(a[0], st, fr), m.rv(a[1], st, fr))
        if f in ('strtod', 'strtol', 'strtoul', 'strtof') and len(a) in (2, 3):
            v = m.rv(a[0], st, fr)
            base = m.rv(a[2], st, fr) if len(a) == 3 else num(10)
            if v[0] == 's' and base[0] == 'n' and base[1] in range(2, 37) and (base[1] != 16 or not re.match(r'\s*[-+]?0[xX]', v[1])):
                B = int(base[1]); digs = '0123456789abcdefghijklmnopqrstuvwxyz'[:B]
                mm = re.match(r'\s*[-+]?[%s]+' % (digs + digs.upper()) if f in ('strtol', 'strtoul') else r'\s*[-+]?(\d+\.?\d*([eE][-+]?\d+)?|\.\d+([eE][-+]?\d+)?)', v[1])
                hexa = re.match(r'\s*[-+]?(0[xX]|inf|nan)', v[1], re.I) and f in ('strtod', 'strtof')
                if not hexa:
                    e = m.rv(a[1], st, fr)
                    if e[0] == 'addr': m.wr(st, e[1], ('addr', m.tmp(v, st) + (('i', num(mm.end() if mm else 0)),)))
                    if mm is None: return ZERO
                    r = Fr(int(mm.group(0).strip(), B)) if len(a) == 3 else Fr(mm.group(0).strip())
                    if f == 'strtoul' and r < 0: return None
                    return ('n', r)
            return None
        if f in ('strlen', 'std::strlen', '__builtin_strlen') and len(a) == 1:
            v = m.rv(a[0], st, fr)
            if v[0] == 's': return num(v[1].index('\0') if '\0' in v[1] else len(v[1]))
            return None
        if f in CTYPE and len(a) == 1:
            r = ctype(f, m.rv(a[0], st, fr))
            if r is not None: return r
        if f.startswith('__builtin_'):
            g = f[10:]
            if g in MATH1 and len(a) == 1: return math1(m, g, m.rv(a[0], st, fr))
            if g == 'expect': return m.rv(a[0], st, fr)
        return None
    if cls in SEQ or (cls and cls.startswith('_Rb_tree')) or cls in ('__normal_iterator', '_Node_iterator', 'reverse_iterator', '__shared_ptr_access', '__shared_ptr', 'shared_ptr', 'unique_ptr', 'pair', 'complex', 'function', 'integral_constant', '_Bit_reference', 'back_insert_iterator', 'tuple', 'basic_ostream', 'basic_stringstream', 'basic_ostringstream', 'basic_ios', '__cxx11', 'numeric_limits', 'reference_wrapper', 'stack', 'queue', 'optional'):
        r = member(m, cls, meth, f, n, st, fr)
        if r is not None: return r
    name = f[5:] if f.startswith(('std::', 'gnu::')) else f
    if name.startswith('_V2::'): name = name[5:]
    if n['k'] != 'call': return None
    if name == 'move' and len(a) == 3: name = 'copy'; n = dict(n)
    if name in ('move', 'forward', 'as_const', 'ref', 'cref'):
        if len(a) == 1:
            p = m.lv(a[0], st, fr, soft=True)
            if p is not None: return ('lref', p)
            return m.rv(a[0], st, fr)
    if name in CTYPE and len(a) >= 1:
        r = ctype(name, m.rv(a[0], st, fr))
        if r is not None: return r
    if name == 'getline' and len(a) in (2, 3):
        p, q = m.lv(a[0], st, fr, soft=True), m.lv(a[1], st, fr, soft=True)
        d = num(10) if len(a) == 2 else m.rv(a[2], st, fr)
        if p is not None and q is not None and p[0][0] != 'g':
            cur = m.rd(st, p)
            if cur[0] == 's' and d[0] == 'n':
                if not cur[1]: m.wr(st, q, S('')); return FALSE
                h, _, tl = cur[1].partition(chr(int(d[1])))
                m.wr(st, q, S(h)); m.wr(st, p, S(tl)); return TRUE
        return None
    if name in MATH1 and len(a) == 1: return math1(m, name, m.rv(a[0], st, fr))
    if name in ('min', 'max') and len(a) == 1:
        v = m.rv(a[0], st, fr)
        if v[0] == 'list' and len(v) > 1:
            r = v[1]
            for x in v[2:]: r = math2(m, name, r, x)
            return r
        return None
    if name in MATH2 and len(a) == 2: return math2(m, name, m.rv(a[0], st, fr), m.rv(a[1], st, fr))
    if name in ('begin', 'end', 'cbegin', 'cend', 'size', 'rbegin', 'rend') and len(a) == 1:
        p = m.lv(a[0], st, fr, soft=True)
        if p is None: p = m.tmp(m.rv(a[0], st, fr), st)
        v = m.rd(st, p)
        s = size_of(v)
        mm = re.search(r'\[(\d+)\]', a[0].get('t', ''))
        if mm: s = num(int(mm.group(1)))
        if name == 'size': return s
        if name in ('begin', 'cbegin'): return ('it', ('addr', p), ZERO)
        if name in ('end', 'cend'): return ('it', ('addr', p), s)
        if name == 'rbegin': return ('rit', ('addr', p), s)
        if name == 'rend': return ('rit', ('addr', p), ZERO)
        return None
    if name == 'modf' and len(a) == 2: return modf(m, a, st, fr)
    if name in ('stoi', 'stol', 'stoul', 'stod', 'stof') and len(a) >= 1:
        v = m.rv(a[0], st, fr)
        if v[0] == 's' and all(x.get('k') == 'defarg' or x['k'] in ('null', 'nullptr', 'int', 'num', 'lit', 'cast') for x in a[1:]):
            mm = re.match(r'\s*[-+]?\d+' if name in ('stoi', 'stol', 'stoul') else r'\s*[-+]?(\d+\.?\d*([eE][-+]?\d+)?|\.\d+([eE][-+]?\d+)?)', v[1])
            if mm: return ('n', Fr(mm.group(0).strip()))
            raise (V.Fault if st.sure else Undecided)('std::%s of "%s", which is no number' % (name, v[1]))
    if name == 'make_pair': return pair(m.rv(a[0], st, fr), m.rv(a[1], st, fr))
    if name in ('make_tuple', 'tie'): return ('list',) + tuple(m.rv(x, st, fr) for x in a)
    if name == 'get' and len(a) == 1:
        ta = n.get('ta')
        i = None
        if ta:
            try: i = int(str(ta[0]).rstrip('UL'))
            except Exception: pass
        if i is not None:
            v = m.rv(a[0], st, fr)
            if v[0] == 'obj' and v[1] == 'pair' or re.match(r'(const )?std::pair\b', a[0].get('t', '')):
                p = m.lv(a[0], st, fr, soft=True)
                el = ('f', 'first' if i == 0 else 'second')
                return ('lref', p + (el,)) if p is not None else proj(v, el)
            p = m.lv(a[0], st, fr, soft=True)
            if p is not None: return ('lref', p + (('i', num(i)),))
            return proj(v, ('i', num(i)))
    if name in ('make_shared', 'make_unique'):
        return make_obj(m, n, st, fr)
    if name in ('dynamic_pointer_cast', 'static_pointer_cast'):
        v = m.rv(a[0], st, fr)
        return v if name.startswith('static') else ('dyncast', n.get('t', ''), v)
    if name == 'to_string':
        v = m.rv(a[0], st, fr)
        if v[0] == 'n' and v[1].denominator == 1 and is_int((n.get('pt') or [''])[0]): return ('s', str(v[1]))
        return app('to_string', v)
    if name == 'back_inserter':
        return ('backins', m.lv(a[0], st, fr))
    if name == 'operator""i': return mul(I, m.rv(a[0], st, fr))
    if name.startswith('operator') and 'op' in n: return std_op(m, f, n, st, fr)
    r = algo(m, name, n, st, fr)
    if r is None and name in MUTATING: raise Undecided('std::%s' % name)
    return r
MUTATING = ('transform', 'copy', 'copy_if', 'copy_n', 'sort', 'stable_sort', 'partial_sort', 'nth_element', 'reverse', 'rotate', 'fill', 'fill_n', 'generate', 'generate_n', 'iota', 'replace', 'replace_if', 'remove', 'remove_if', 'unique', 'partial_sum', 'shuffle', 'next_permutation', 'prev_permutation', 'set_union', 'set_intersection', 'set_difference', 'merge', 'partition', 'stable_partition', 'swap_ranges', 'iter_swap', 'exchange', 'for_each_n', 'remove_copy', 'remove_copy_if', 'replace_copy', 'replace_copy_if', 'reverse_copy', 'rotate_copy', 'unique_copy', 'partition_copy', 'partial_sort_copy', 'set_symmetric_difference', 'inclusive_scan', 'exclusive_scan', 'transform_inclusive_scan', 'transform_exclusive_scan', 'adjacent_difference', 'copy_backward', 'move_backward', 'uninitialized_copy', 'uninitialized_fill', 'inplace_merge', 'push_heap', 'pop_heap', 'make_heap', 'sort_heap')

CTYPE = {'tolower': str.lower, 'toupper': str.upper, 'islower': str.islower, 'isupper': str.isupper, 'isspace': lambda c: c in ' \t\n\v\f\r', 'isdigit': str.isdigit, 'isblank': lambda c: c in ' \t', 'isalpha': str.isalpha, 'isalnum': str.isalnum,
         'ispunct': lambda c: 32 < ord(c) < 127 and not c.isalnum(), 'isprint': lambda c: 32 <= ord(c) < 127}
def ctype(f, x):
    if x[0] != 'n' or x[1].denominator != 1 or not 0 <= x[1] < 128: return None
    r = CTYPE[f](chr(int(x[1])))
    return num(ord(r)) if f in ('tolower', 'toupper') else num(1 if r else 0)

def modf(m, a, st, fr):
    v, q = m.rv(a[0], st, fr), m.rv(a[1], st, fr)
    if v[0] != 'n' or q[0] != 'addr': return None
    w = int(v[1]); m.wr(st, q[1], num(w)); return ('n', v[1] - w)
def math1(m, f, x):
    if f == 'fabs': f = 'abs'
    if x[0] == 'n':
        v = x[1]
        if f == 'abs': return ('n', abs(v))
        if f == 'real': return x
        if f == 'imag': return ZERO
        if f == 'conj': return x
        if f == 'norm': return ('n', v * v)
        import math
        if f == 'floor': return ('n', Fr(math.floor(v)))
        if f == 'ceil': return ('n', Fr(math.ceil(v)))
        if f == 'round': return ('n', Fr(math.floor(abs(v) + Fr(1, 2))) * (1 if v >= 0 else -1))
        if f == 'sqrt' and v >= 0:
            r = math.isqrt(v.numerator), math.isqrt(v.denominator)
            if r[0] ** 2 == v.numerator and r[1] ** 2 == v.denominator: return ('n', Fr(*r))
        if v == 0 and f in ('sin', 'tan', 'asin', 'atan', 'sinh', 'tanh'): return ZERO
        if v == 0 and f in ('cos', 'exp', 'cosh'): return ONE
        if v == 1 and f == 'log': return ZERO
    return app(f, x)
def math2(m, f, x, y):
    if f == 'pow':
        if y[0] == 'n' and y[1].denominator == 1 and abs(y[1]) <= 12:
            if x[0] == 'n' and (x[1] != 0 or y[1] >= 0): return ('n', x[1] ** int(y[1]))
            return ('^', x, y)
        if y == ('n', Fr(1, 2)): return app('sqrt', x)
    if f in ('min', 'max', 'fmin', 'fmax'):
        if x[0] == 'n' and y[0] == 'n': return ('n', min(x[1], y[1]) if 'min' in f else max(x[1], y[1]))
        return ite(cmp_('<', y, x), y, x) if 'min' in f else ite(cmp_('<', x, y), y, x)
    return app(f, x, y)

def make_obj(m, n, st, fr):
    t = n.get('t', '')
    mm = re.match(r'(?:std::)?(?:shared_ptr|unique_ptr)<(?:typename enable_if<[^>]*>::type, )?(.*)>$', t)
    ta = n.get('ta')
    T = (str(ta[0]) if ta else (mm.group(1) if mm else '?'))
    # locate the constructor among T's constructors by argument count
    short = strip_targs(T).split('::')[-1]
    ty = lambda s: s.replace('const ', '').replace('&', '').strip()
    if len(n['a']) == 1 and ty(n['a'][0].get('t', '')) == ty(T):      # copy / move construction
        own = [x for x in m.P.byq.get(strip_targs(T) + '::' + short, []) if x.get('fk') == 'ctor' and x.get('body') and not x.get('dflt') and len(x['p']) == 1 and ty(x['p'][0]['t']) == ty(T)]
        if not own:
            m.n += 1; root = ('mem', ('new', T, m.n)); st.s[root] = m.rv(n['a'][0], st, fr)
            return ('addr', (root,))
    cands = [x for q in (strip_targs(T) + '::' + short, T + '::' + short) for x in m.P.byq.get(q, []) if x.get('fk') == 'ctor' and not x.get('dep')]
    cands = [x for x in cands if len(x['p']) >= len(n['a']) and all('d' in p for p in x['p'][len(n['a']):])]
    if len(cands) > 1:
        at = [x.get('t', '').replace('const ', '').replace('&', '').strip() for x in n['a']]
        best = [x for x in cands if [p['t'].replace('const ', '').replace('&', '').strip() for p in x['p'][:len(at)]] == at]
        if best: cands = best
    m.n += 1
    if len({c['u'] for c in cands}) == 1:
        v = m.construct(cands[0], T, n['a'], st, fr)
    elif not n['a']: v = ('obj', T, ())
    else:
        vals = [m.rv(x, st, fr) for x in n['a']]
        v = vals[0] if len(vals) == 1 and strip_targs(n['a'][0].get('t', '')).replace('const ', '') == strip_targs(T) else ('app', 'ctor:' + strip_targs(T)) + tuple(vals)
    root = ('mem', ('new', T, m.n)); st.s[root] = v
    return ('addr', (root,))

def std_op(m, f, n, st, fr):
    op, a = n['op'], n['a']
    t = n.get('t', '')
    if op == '<<':
        # stream output: accumulate the text
        p = m.lv(a[0], st, fr, soft=True)
        if p is not None and p[0][0] == 'g': return ('lref', p)
        v = m.rv(a[1], st, fr)
        if v[0] == 'fn': v = S('\n') if strip_targs(v[2]).split('::')[-1] == 'endl' else S('')
        if p is not None:
            cur = m.rd(st, p)
            m.wr(st, p, sapp(cur, streamed(v, a[1].get('t', ''))))
            return ('lref', p)
        return m.rv(a[0], st, fr)
    if len(a) == 1:
        v = m.rv(a[0], st, fr)
        if op == '-': return neg(v)
        if op == '+': return v
        return None
    ty = a[0].get('t', '') + a[1].get('t', '')
    x, y = m.rv(a[0], st, fr), m.rv(a[1], st, fr)
    if op == '+':
        if 'basic_string' in ty or 'std::string' in ty or 'char' in t:
            cx, cy = chr_of(x, a[0]), chr_of(y, a[1])
            return cat(S(cx) if cx is not None else x, S(cy) if cy is not None else y)
        if x[0] == 'it': return ('it', x[1], add(x[2], y))
        if y[0] == 'it': return ('it', y[1], add(y[2], x))
        return add(x, y)
    if op in ('-', '*', '/') and ('complex' in ty): return {'-': V.sub, '*': mul, '/': div}[op](x, y)
    if op in ('-',) and x[0] == 'it':
        if y[0] == 'it' and x[1] == y[1]: return V.sub(x[2], y[2])
        if y[0] != 'it': return ('it', x[1], V.sub(x[2], y))
    if op == '==': return eq_any(m, x, y)
    if op == '!=': return bnot(eq_any(m, x, y))
    if op in ('<', '>', '<=', '>='):
        if x[0] == 'it' and y[0] == 'it' and x[1] == y[1]: return cmp_(op, x[2], y[2])
        if x[0] == 's' and y[0] == 's': return ('b', {'<': x[1] < y[1], '>': x[1] > y[1], '<=': x[1] <= y[1], '>=': x[1] >= y[1]}[op])
        return cmp_(op, x, y)
    if op == '-' : return V.sub(x, y)
    if op in ('&', '|'): return m.arith(op, x, y, t)
    return None

def member(m, cls, meth, f, n, st, fr):
    a = n['a']
    mop = n['k'] == 'call'
    args = a[1:] if mop else a
    if cls in ('complex',):
        p, v = objp(m, n, st, fr)
        if meth == 'real' and not args: return math1(m, 'real', v)
        if meth == 'imag' and not args: return math1(m, 'imag', v)
        if meth in ('operator+=', 'operator-=', 'operator*=', 'operator/='):
            y = m.rv(args[0], st, fr)
            r = {'+': add, '-': V.sub, '*': mul, '/': div}[meth[8]](v, y)
            m.wr(st, p, r); return ('lref', p)
        if meth == 'operator=': m.wr(st, p, m.rv(args[0], st, fr)); return ('lref', p)
        return None
    if cls == 'integral_constant':
        mm = re.search(r'integral_constant<bool, (true|false)>', n.get('f', '') + n.get('ot', ''))
        if mm: return ('b', mm.group(1) == 'true')
        return None
    if cls in ('__shared_ptr_access', '__shared_ptr', 'shared_ptr', 'unique_ptr'):
        p, v = objp(m, n, st, fr)
        if meth in ('operator->', 'get'): return v
        if meth == 'operator*': return ('lref', m.deref(v, st))
        if meth == 'operator bool': return bnot(cmp_('==', v, NULL))
        if meth == 'operator=': m.wr(st, p, m.rv(args[0], st, fr)); return ('lref', p)
        if meth == 'reset' and not args: m.wr(st, p, NULL); return VOID
        return None
    if cls in ('optional', '_Optional_base_impl', '_Optional_payload_base') and meth in ('operator bool', 'has_value', 'operator*', 'value', 'operator->'):
        p, v = objp(m, n, st, fr)
        if meth in ('operator bool', 'has_value'):
            if v == ('none',): return FALSE
            return TRUE if v[0] in ('s', 'n', 'cat', 'b', 'list') else bnot(cmp_('==', v, ('none',)))
        return v if p is None else ('lref', p)
    if cls == 'reference_wrapper':
        p, v = objp(m, n, st, fr)
        return ('lref', p)
    if cls == 'function':
        if meth == 'operator()':
            c = m.rv(a[0], st, fr)
            if c[0] in ('clo', 'fn'): return m.call_closure(c, args, st, fr, n) if c[0] == 'clo' else m.call_value(c, [m.rv(x, st, fr) for x in args], st)
            return ('app', 'indirect', c) + tuple(m.rv(x, st, fr) for x in args)
        if meth == 'operator=':
            p, v = objp(m, n, st, fr); m.wr(st, p, fval(m, args[0], st, fr)); return ('lref', p)
        return None
    if cls == 'numeric_limits':
        if meth == 'epsilon' and n.get('t') == 'double': return num(Fr(1, 2**52))
        return app('numeric_limits::' + meth, ('s', n.get('t', '')))
    if cls in ('__normal_iterator', 'reverse_iterator', '_Node_iterator') or cls.startswith('_Rb_tree'):
        p, v = objp(m, n, st, fr)
        if meth in ('operator*',):
            return ('lref', m.deref(v, st))
        if meth == 'operator->':
            return ('addr', m.deref(v, st))
        if meth == 'operator++' and v[0] == 'mit':
            mp = m.rd(st, v[1][1])
            if gitems(mp) is None: return None
            ks = [k for k, _ in gitems(mp)]
            if v[2] not in ks: return None
            i = ks.index(v[2]) + 1
            nv = ('mit', v[1], ks[i]) if i < len(ks) else ('it', v[1], num(len(ks)))
            m.wr(st, p, nv)
            return v if args else nv
        if meth in ('operator++', 'operator--') and v[0] == 'rit':
            nv = ('rit', v[1], V.sub(v[2], ONE) if meth == 'operator++' else add(v[2], ONE))
            m.wr(st, p, nv)
            return v if args else nv
        if meth == 'base' and v[0] == 'rit': return ('it', v[1], v[2])
        if meth in ('operator+', 'operator-') and v[0] == 'rit':
            return ('rit', v[1], V.sub(v[2], m.rv(args[0], st, fr)) if meth == 'operator+' else add(v[2], m.rv(args[0], st, fr)))
        if meth in ('operator++', 'operator--'):
            if v[0] != 'it': return None
            nv = ('it', v[1], add(v[2], ONE) if meth == 'operator++' else V.sub(v[2], ONE))
            m.wr(st, p, nv)
            return v if args else nv
        if meth in ('operator+', 'operator-') and v[0] == 'it':
            y = m.rv(args[0], st, fr)
            if y[0] == 'it': return V.sub(v[2], y[2])
            return ('it', v[1], add(v[2], y) if meth == 'operator+' else V.sub(v[2], y))
        if meth in ('operator+=', 'operator-=') and v[0] == 'it':
            y = m.rv(args[0], st, fr)
            m.wr(st, p, ('it', v[1], add(v[2], y) if meth == 'operator+=' else V.sub(v[2], y))); return ('lref', p)
        if meth == 'operator=': m.wr(st, p, m.rv(args[0], st, fr)); return ('lref', p)
        return None
    if cls == '_Bit_reference':
        p, v = objp(m, n, st, fr)
        if meth == 'operator bool': return m.truth(v)
        if meth == 'operator=':
            x = m.rv(args[0], st, fr); m.wr(st, p, m.truth(x)); return ('lref', p)
        return None
    if cls == 'pair':
        if meth == 'operator=':
            p, v = objp(m, n, st, fr); m.wr(st, p, m.rv(args[0], st, fr)); return ('lref', p)
        return None
    if cls in ('basic_ostream', 'basic_stringstream', 'basic_ostringstream', '__cxx11', 'basic_ios'):
        p, v = objp(m, n, st, fr)
        if meth == 'operator<<':
            if p[0][0] == 'g': return ('lref', p)
            x = m.rv(args[0], st, fr)
            if x[0] == 'fn': x = S('\n') if strip_targs(x[2]).split('::')[-1] == 'endl' else S('')
            m.wr(st, p, sapp(v, streamed(x, args[0].get('t', ''))))
            return ('lref', p)
        if meth == 'str' and not args: return v
        if meth == 'operator bool' and v[0] == 'b': return v
        return None
    ismap = cls in ('map', 'unordered_map', 'multimap', 'set')
    p, v = objp(m, n, st, fr)
    A = lambda i: m.rv(args[i], st, fr)
    if meth in ('size', 'length'):
        mm = re.search(r'std::array<.*,\s*(\d+)>\s*(?:&|$)', n.get('ot', ''))
        if mm: return num(int(mm.group(1)))
        return size_of(v)
    if meth == 'empty': return cmp_('==', size_of(v), ZERO)
    if meth in ('begin', 'cbegin') and ismap and gitems(v) is not None:
        return ('mit', ('addr', p), gitems(v)[0][0]) if gitems(v) else ('it', ('addr', p), ZERO)
    if meth in ('begin', 'cbegin', 'data', 'c_str'):
        if meth in ('c_str',): return v
        return ('it', ('addr', p), ZERO)
    if meth in ('rbegin', 'crbegin', 'rend', 'crend') and not ismap:
        return ('rit', ('addr', p), size_of(v) if meth.endswith('begin') else ZERO)
    if meth in ('end', 'cend'):
        mm = re.search(r'std::array<.*,\s*(\d+)>\s*(?:&|$)', n.get('ot', ''))
        return ('it', ('addr', p), num(int(mm.group(1))) if mm else size_of(v))
    if meth in ('operator[]', 'at'): return ('lref', p + (('i', A(0)),))
    if meth == 'front': return ('lref', p + (('i', ZERO),))
    if meth == 'back': return ('lref', p + (('i', V.sub(size_of(v), ONE)),))
    if meth == 'operator=' :
        m.wr(st, p, A(0)); return ('lref', p)
    if cls in ('basic_string', 'string'):
        if meth in ('operator+=', 'append', 'push_back') and len(args) == 1:
            x = A(0)
            if x[0] == 'n' and (meth == 'push_back' or chr_of(x, args[0]) is not None or 'char' in str((n.get('pt') or [''])[0]) and '*' not in str((n.get('pt') or [''])[0])) and 0 <= x[1] < 256: x = S(chr(int(x[1])))
            m.wr(st, p, cat(v, x)); return ('lref', p)
        if meth == 'clear': m.wr(st, p, S('')); return VOID
        vals = [m.rv(x, st, fr) for x in args]
        r = strmeth(m, meth, v, vals, p, st, args)
        if r is not None: return r
        if not n.get('cm'):
            m.wr(st, p, app('str::' + meth + '#', v, *vals)); return ('lref', p)
        return app('str::' + meth, v, *vals)
    if not ismap:
        if meth == 'push_back': m.wr(st, p, append(v, A(0))); return VOID
        if cls == 'queue' and meth in ('push', 'emplace') and len(args) == 1: m.wr(st, p, append(v, A(0))); return VOID
        if (cls == 'queue' and meth == 'pop' or meth == 'pop_front') and v[0] == 'list' and len(v) > 1: m.wr(st, p, ('list',) + v[2:]); return VOID
        if meth in ('push_front', 'emplace_front') and len(args) == 1 and v[0] == 'list': m.wr(st, p, ('list', A(0)) + v[1:]); return VOID
        if meth == 'emplace_back':
            T = re.match(r'(?:std::)?(?:vector|deque)<(.*?)(?:, std::allocator.*)?>$', n.get('ot', '').replace('const ', '').replace('&', '').strip())
            vals = [m.rv(x, st, fr) for x in args]
            T = T.group(1) if T else ''
            if len(vals) == 2 and 'pair<' in T[:12]: x = pair(*vals)
            elif len(vals) == 1 and (strip_targs(args[0].get('t', '')).replace('const ', '') == strip_targs(T) or is_float(T) or is_int(T) or 'basic_string' in T or 'Expression' in T): x = vals[0]
            else:
                short = strip_targs(T).split('::')[-1]
                h = m.ov.get('ctor:' + strip_targs(T))
                if h is None and strip_targs(T) in ('std::basic_string', 'std::string'): h = lambda m, n, st, fr: ctor(m, 'std::string', n, st, fr)
                x = h(m, {'k': 'ctor', 'a': args, 't': T, 'c': T}, st, fr) if h else None
                if x is not None:
                    m.wr(st, p, append(v, x)); return ('lref', p + (('i', size_of(v)),))
                cands = [c for c in m.P.byq.get(strip_targs(T) + '::' + short, []) if c.get('fk') == 'ctor' and not c.get('dep') and len(c['p']) >= len(args) and all('d' in q for q in c['p'][len(args):])]
                if len(cands) == 1: x = m.construct(cands[0], T, args, st, fr)
                else: x = ('app', 'ctor:' + strip_targs(T)) + tuple(vals)
            m.wr(st, p, append(v, x)); return ('lref', p + (('i', size_of(v)),))
        if meth == 'clear': m.wr(st, p, ('list',)); return VOID
        if meth == 'reserve' or meth == 'shrink_to_fit': return VOID
        if meth == 'pop_back':
            if v[0] == 'list' and len(v) > 1: m.wr(st, p, v[:-1]); return VOID
            if v[0] == 'app' and v[1] == 'append': m.wr(st, p, v[2]); return VOID
        if meth in ('resize', 'assign') and args:
            k = as_num(A(0)); x = A(1) if len(args) > 1 else default_of(m, n.get('ot', '').replace('&', '').strip(), st)
            if x[0] == 'obj' and len(args) < 2 and not x[2]: x = ZERO if not x[1] else x
            if meth == 'resize' and k is not None and v[0] in ('list', 'obj') and k <= 400:
                cur = list(v[1:]) if v[0] == 'list' else []
                cur = cur[:int(k)] + [x] * (int(k) - len(cur)); m.wr(st, p, ('list',) + tuple(cur)); return VOID
            if meth == 'assign' and len(args) == 2:
                if k is not None and k <= 400: m.wr(st, p, ('list',) + (x,) * int(k)); return VOID
                m.wr(st, p, ('fill', A(0), x)); return VOID
            m.wr(st, p, app('resize', v, A(0), x)); return VOID
        if meth == 'fill':
            x = A(0)
            if v[0] == 'list': m.wr(st, p, ('list',) + (x,) * (len(v) - 1)); return VOID
            mm = re.search(r'std::array<.*,\s*(\d+)>\s*(?:&|$)', n.get('ot', ''))
            if mm: m.wr(st, p, ('list',) + (x,) * int(mm.group(1))); return VOID
        if meth == 'erase' and args:
            its = [A(i) for i in range(len(args))]
            v = m.rd(st, p)
            if v[0] == 'list' and all(x[0] == 'it' and x[1] == ('addr', p) and as_num(x[2]) is not None for x in its):
                i0 = int(as_num(its[0][2])); i1 = int(as_num(its[1][2])) if len(its) > 1 else i0 + 1
                m.wr(st, p, v[:1 + i0] + v[1 + i1:]); return its[0]
        if meth == 'insert' and len(args) == 3:
            w, b, e = A(0), A(1), A(2)
            if w[0] == 'it' and w[1] == ('addr', p) and w[2] == size_of(v):
                c, d = rngsym(m, b, e, st)
                if c is not None and d[1] == ZERO and d[2] == size_of(c):
                    if c[0] == 'list' and v[0] == 'list': m.wr(st, p, v + c[1:])
                    else: m.wr(st, p, app('extend', v, c))
                    return w
    else:
        if meth == 'clear': m.wr(st, p, ('emptymap',)); return VOID
        gi = gitems(v)
        if gi is not None:
            ks = [k for k, _ in gi]
            if meth in ('count', 'contains', 'find'):
                k = A(0)
                if gkey(k): return (ONE if k in ks else ZERO) if meth == 'count' else ('b', k in ks) if meth == 'contains' else (('mit', ('addr', p), k) if k in ks else ('it', ('addr', p), num(len(ks))))
            if meth in ('insert', 'emplace') and cls == 'set' and len(args) == 1:
                k = A(0)
                if gkey(k):
                    if k not in ks: m.wr(st, p + (('i', k),), ('setmark',))
                    return pair(('mit', ('addr', p), k), ('b', k not in ks))
            if meth in ('insert', 'emplace', 'try_emplace') and cls != 'multimap':
                k, x = (proj(A(0), ('f', 'first')), proj(A(0), ('f', 'second'))) if len(args) == 1 else (A(0), A(1))
                if gkey(k):
                    if k not in ks: m.wr(st, p + (('i', k),), x)
                    return pair(('mit', ('addr', p), k), ('b', k not in ks))
            if meth == 'erase' and len(args) == 1:
                k = A(0)
                if k[0] == 'mit' and k[1] == ('addr', p): k = k[2]
                if gkey(k):
                    m.wr(st, p, ('gmap', tuple((a, b) for a, b in gi if a != k)) if k in ks else v)
                    return ONE if k in ks else ZERO
        if meth in ('count', 'contains'): return ite(app('contains', v, A(0)), ONE, ZERO)
        if meth == 'find':
            k = A(0)
            return ite(app('contains', v, k), ('mit', ('addr', p), k), ('it', ('addr', p), size_of(v)))
    return None

def chr_of(x, a):
    if x[0] == 's': return x[1]
    if x[0] == 'n' and a.get('t', '').replace('const ', '').replace('&', '').strip() == 'char': return chr(int(x[1]))
    return None
def strmeth(m, meth, v, vals, p, st, args):
    """std::string methods on fully known strings"""
    if v[0] != 's': return None
    s = v[1]
    nums = [int(as_num(x)) if as_num(x) is not None and x[0] == 'n' else None for x in vals]
    c0 = chr_of(vals[0], args[0]) if vals else None
    def pos(i, d):
        if len(vals) <= i: return d
        return nums[i]
    def r(i): return NPOS if i is None or i < 0 else num(i)
    if meth in ('find', 'rfind', 'find_first_of', 'find_last_of', 'find_first_not_of', 'find_last_not_of') and c0 is not None and len(vals) <= 2:
        back = meth in ('rfind', 'find_last_of', 'find_last_not_of')
        k = pos(1, len(s) if back else 0)
        if k is None: return None
        if meth == 'find': return r(s.find(c0, k) if k <= len(s) else -1)
        if meth == 'rfind': return r(s.rfind(c0, 0, k + len(c0)))
        neg = 'not' in meth
        ix = range(min(k, len(s) - 1), -1, -1) if back else range(k, len(s))
        for i in ix:
            if (s[i] in c0) != neg: return num(i)
        return NPOS
    if meth == 'substr' and all(x is not None for x in nums):
        i = nums[0] if nums else 0
        if i > len(s): return BOTTOM
        return S(s[i:] if len(nums) < 2 else s[i:i + nums[1]])
    if meth == 'compare' and len(vals) == 1 and c0 is not None: return num((s > c0) - (s < c0))
    if meth == 'compare' and len(vals) in (3, 5) and vals[2][0] == 's' and nums[0] is not None and nums[1] is not None and (len(vals) == 3 or nums[3] is not None and nums[4] is not None) and 0 <= nums[0] <= len(s):
        cut = lambda t, i, k: t[i:] if k < 0 or k > len(t) else t[i:i + k]
        x, y = cut(s, nums[0], nums[1]), vals[2][1] if len(vals) == 3 else cut(vals[2][1], nums[3], nums[4])
        return num((x > y) - (x < y))
    if meth in ('starts_with', 'ends_with') and c0 is not None: return ('b', s.startswith(c0) if meth == 'starts_with' else s.endswith(c0))
    if meth == 'empty': return ('b', not s)
    if meth == 'pop_back': m.wr(st, p, S(s[:-1])); return VOID
    if meth == 'erase' and vals and all(x is not None for x in nums):
        i = nums[0]; k = nums[1] if len(nums) > 1 else len(s)
        m.wr(st, p, S(s[:i] + s[i + k:])); return ('lref', p)
    if meth == 'erase' and all(x[0] == 'it' and as_num(x[2]) is not None for x in vals):
        i = int(as_num(vals[0][2])); k = int(as_num(vals[1][2])) if len(vals) > 1 else i + 1
        m.wr(st, p, S(s[:i] + s[k:])); return vals[0]
    if meth == 'replace' and len(vals) == 3 and nums[0] is not None and nums[1] is not None and vals[2][0] == 's':
        m.wr(st, p, S(s[:nums[0]] + vals[2][1] + s[nums[0] + nums[1]:])); return ('lref', p)
    if meth == 'insert' and len(vals) == 2 and nums[0] is not None and vals[1][0] == 's':
        m.wr(st, p, S(s[:nums[0]] + vals[1][1] + s[nums[0]:])); return ('lref', p)
    if meth == 'resize' and nums and nums[0] is not None: m.wr(st, p, S(s[:nums[0]].ljust(nums[0], chr(0)))); return VOID
    return None

def ctor(m, c, n, st, fr):
    a = n['a']
    if c in ('std::complex',):
        if not a: return ZERO
        x = m.rv(a[0], st, fr)
        if len(a) == 1: return x
        return add(x, mul(I, m.rv(a[1], st, fr)))
    if c == 'std::pair':
        if len(a) == 2: return pair(m.rv(a[0], st, fr), m.rv(a[1], st, fr))
        if len(a) == 1: return m.rv(a[0], st, fr)
        return pair(ZERO, ZERO)
    if c == 'std::tuple': return ('list',) + tuple(m.rv(x, st, fr) for x in a)
    if c == 'std::basic_string' or c == 'std::string':
        if not a: return S('')
        if 'allocator' in a[-1].get('t', '') or a[-1]['k'] == 'ctor' and 'allocator' in a[-1]['c']: a = a[:-1]
        if not a: return S('')
        if len(a) == 1:
            return m.rv(a[0], st, fr)
        vals = [m.rv(x, st, fr) for x in a]
        if len(vals) == 2 and vals[0][0] == 'n' and vals[1][0] == 'n': return S(chr(int(vals[1][1])) * int(vals[0][1]))
        if len(vals) == 2 and vals[0][0] == vals[1][0] == 'it' and vals[0][1] == vals[1][1] and vals[0][2][0] == vals[1][2][0] == 'n' and vals[0][1][0] == 'addr':
            w = m.rd(st, vals[0][1][1]); i, j = int(vals[0][2][1]), int(vals[1][2][1])
            if w[0] == 's' and 0 <= i <= j <= len(w[1]): return S(w[1][i:j])
        if vals[0][0] == 's' and len(vals) in (2, 3) and all(x[0] == 'n' for x in vals[1:]):
            w = vals[0][1]; i = int(vals[1][1])
            if 'char *' in a[0].get('t', ''):
                if len(vals) == 2 and 0 <= i <= len(w): return S(w[:i])
            elif 0 <= i <= len(w): return S(w[i:] if len(vals) == 2 else w[i:i + int(vals[2][1])])
        return app('str', *vals)
    if c in ('std::basic_stringstream', 'std::basic_ostringstream'):
        return S('') if not a or 'openmode' in a[0].get('t', '').lower() or 'Ios' in a[0].get('t', '') or is_int(a[0].get('t', '')) else m.rv(a[0], st, fr)
    if c in ('std::vector', 'std::deque'):
        aa = [x for x in a if not ('allocator' in x.get('t', ''))]
        if not aa: return ('list',)
        pt = n.get('pt') or []
        v0 = m.rv(aa[0], st, fr)
        if 'initializer_list' in aa[0].get('t', '') or n.get('li'): return v0
        if len(aa) == 1 and is_int(aa[0].get('t', '')):
            k = as_num(v0)
            z = default_of(m, n['t'], st)
            if k is not None and k <= 400: return ('list',) + (z,) * int(k)
            return ('fill', v0, z)
        if len(aa) == 2:
            v1 = m.rv(aa[1], st, fr)
            if v0[0] == 'addr' and v1[0] in ('addr', 'ptradd'):
                p0, i0 = (v0[1][:-1], v0[1][-1][1]) if len(v0[1]) > 1 and v0[1][-1][0] == 'i' else (v0[1], ZERO)
                p1, i1 = (v1[1], v1[2]) if v1[0] == 'ptradd' else (v1[1][:-1], v1[1][-1][1]) if len(v1[1]) > 1 and v1[1][-1][0] == 'i' else (v1[1], ZERO)
                if p0 == p1 and as_num(i0) is not None and as_num(i1) is not None and 0 <= as_num(i1) - as_num(i0) <= 400: return ('list',) + tuple(m.rd(st, p0 + (('i', num(k)),)) for k in range(int(as_num(i0)), int(as_num(i1))))
            if v0[0] == 'it':
                els = rng(m, v0, v1, st)
                if els is not None: return ('list',) + tuple(els)
                cc, d = rngsym(m, v0, v1, st)
                if cc is not None and d[1] == ZERO and d[2] == size_of(cc): return cc
                return app('slice', v0, v1)
            if is_int(aa[0].get('t', '')):
                k = as_num(v0)
                if k is not None and k <= 400: return ('list',) + (v1,) * int(k)
                return ('fill', v0, v1)
        if len(aa) == 1: return v0
        return None
    if c == 'std::initializer_list' and len(a) == 1: return m.rv(a[0], st, fr)
    if c == 'std::array':
        if len(a) == 1: return m.rv(a[0], st, fr)
        mm = re.search(r'std::array<(.*),\s*(\d+)>$', n['t'].replace('const ', ''))
        if mm and not a: return ('list',) + tuple(('uninit', 'array') for _ in range(int(mm.group(2))))
        return None
    if c in ('std::map', 'std::unordered_map', 'std::set'):
        if not a: return ('emptymap',)
        v = m.rv(a[0], st, fr)
        return v
    if c in ('std::shared_ptr', 'std::unique_ptr'):
        if not a: return NULL
        return m.rv(a[0], st, fr)
    if c in ('std::function',):
        if not a: return NULL
        return fval(m, a[0], st, fr)
    if c in ('gnu::__normal_iterator', 'std::_Rb_tree_const_iterator', 'std::_Rb_tree_iterator', 'std::reference_wrapper', 'std::allocator', 'std::optional'):
        if c == 'std::optional' and (not a or 'nullopt' in a[0].get('t', '')): return ('none',)
        return m.rv(a[0], st, fr) if a else VOID
    if c == 'std::is_reference' or c.startswith('std::is_'):
        return ('obj', c, ())
    return None

def default_value(T):
    T = T.replace('const ', '').replace('&', '').strip()
    if is_float(T) or is_int(T) or 'complex' in T or T in ('Expression', 'AmpGen::Expression'): return ZERO
    if T == 'bool': return FALSE
    if 'basic_string' in T or T == 'std::string': return S('')
    if T.startswith('std::vector') or T.startswith('std::deque'): return ('list',)
    if T.startswith('std::map') or T.startswith('std::set') or T.startswith('std::unordered_map'): return ('emptymap',)
    if T.endswith('*') or 'shared_ptr' in T or 'unique_ptr' in T: return NULL
    return ('obj', T, ())

def default_of(m, t, st):
    mm = re.match(r'(?:const )?(?:std::)?(?:vector|deque)<(.*?)(?:, std::allocator.*)?>$', t)
    T = mm.group(1) if mm else ''
    if is_float(T) or is_int(T) or 'complex' in T or T in ('Expression', 'AmpGen::Expression'): return ZERO
    if 'basic_string' in T or T == 'std::string': return S('')
    if T.startswith('std::vector'): return ('list',)
    if T == 'bool': return FALSE
    return default_obj(m, T, st)

def default_obj(m, T, st):
    cs = [f for f in m.P.find(T + '::' + T.split('::')[-1]) if f.get('fk') == 'ctor' and f.get('body') and not f['p']]
    if len(cs) == 1: return m.construct(cs[0], T, [], st, V.Frame())
    rec = m.P.records.get(T)
    if rec and not [f for f in m.P.find(T + '::' + T.split('::')[-1]) if f.get('fk') == 'ctor' and not f['p']]:
        return ('obj', T, tuple(sorted((f['n'], m.rv(f['init'], st, V.Frame())) for f in rec['fields'] if 'init' in f)))
    return ('obj', T, ())
