"""Text and combinatorics.  Each of the helpers that names, options and decay descriptors are taken apart with is abstracted on every text up to a bound over an alphabet that
distinguishes delimiters, brackets, wildcards, blanks and ordinary characters, and must equal its definition."""
from ..value import *
from .. import extract, den
from ..run import where
import itertools, time, re
ASSUMPTIONS = ['characters other than the delimiters, brackets, blanks and wildcards of the call are only compared with each other', 'strto* and getenv follow their documentation']
SRC = ['src/Utilities.cpp']
TU = [extract.VERIF + '/tools/tus/util%s.cpp' % x for x in ('', '_fmt', '_tuple', '_file', '_def')]
NS = 'AmpGen::'
class Bad(Exception): pass
def texts(alpha, n):
    for k in range(n + 1):
        for t in itertools.product(alpha, repeat=k): yield ''.join(t)
def sl(l): return ('list',) + tuple(S(x) for x in l)
def nl(l): return ('list',) + tuple(num(x) for x in l)
def cl(s): return ('list',) + tuple(num(ord(c)) for c in s)
def matches(t, pat, w='*'): return re.fullmatch('.*'.join(re.escape(x) for x in pat.split(w)), t, re.S) is not None
def distance(a, b):
    d = list(range(len(b) + 1))
    for i in range(1, len(a) + 1):
        p, d = d, [i] + [0] * len(b)
        for j in range(1, len(b) + 1): d[j] = min(p[j] + 1, d[j - 1] + 1, p[j - 1] + (a[i - 1] != b[j - 1]))
    return d[-1]
def items(t, o='{', c='}', sep=','):
    if o not in t and c not in t: return [t]
    depth = 0; out = [t[:t.index(o)]] if o in t else None; cur = None; done = False
    for i, x in enumerate(t):
        if x == o:
            depth += 1
            if depth == 1:
                if done: return None
                cur = ''; continue
        elif x == c:
            depth -= 1
            if depth < 0: return []
            if depth == 0: out.append(cur); done = True; cur = None; continue
        elif x == sep and depth == 1: out.append(cur); cur = ''; continue
        if depth: cur += x
        elif x == sep: return None
    return [] if depth else out
def fnv(s):
    h = 2166136261
    for c in s: h = ((h ^ ord(c)) * 16777619) & 0xffffffff
    return h
def check(ctx):
    P = extract.load(SRC, extra_tus=TU)
    def getenv(m, n, st, fr):
        v = m.rv(n['a'][0], st, fr)
        if v[0] != 's': raise Undecided('name of a variable: %s' % show(v)[:60])
        e = {'A': 'xy', 'VAR': 'v/w'}.get(v[1])
        return ('null',) if e is None else S(e)
    ov = den.overrides({'getenv': getenv, 'std::getenv': getenv})
    M = Machine(P, ov, limit=200, max_unroll=400, budget=3000000, depth=60, hooks={'static_init': True, 'recur': 12})
    deep = ctx.tier == 'thorough'
    def fn(q, test=None, ns=NS):
        r = [f for f in P.find(ns + q) if f.get('body') is not None and (test is None or test(f))]
        return r[0] if r else None
    def pt(f): return [p['t'] for p in f['p']]
    def call(f, *args, arg=None):
        M.budget = 3000000; M.deadline = time.time() + 60
        r = M.function(f, list(args))
        return r['ret'] if arg is None else r['args'][arg]
    def norm(v):
        if v is None: raise Undecided('no value')
        if v == ('emptymap',): return {}
        if v[0] == 's': return v[1]
        if v[0] == 'n': return v[1]
        if v in (TRUE, FALSE): return v == TRUE
        if v[0] == 'list': return [norm(x) for x in v[1:]]
        if v[0] == 'obj' and v[1] == 'pair': return tuple(norm(x) for _, x in v[2])
        if v[0] == 'obj' and len(v[2]) == 2 and v[2][0][0] == 'first': return tuple(norm(x) for _, x in v[2])
        raise Undecided('value %s' % show(v)[:80])
    def asked(f):
        """the function of the package a driver asks"""
        if not f['q'].startswith('vpu::'): return f
        todo = [f['body']]
        while todo:
            x = todo.pop()
            if isinstance(x, list): todo += x
            elif isinstance(x, dict):
                if x.get('k') == 'call' and str(x.get('f', '')).startswith(NS):
                    g = [y for y in P.find(x['f']) if y.get('body') is not None]
                    if g: return g[0]
                todo += list(x.values())
        return f
    def deed(name, f, cases):
        if f is None: ctx.unknown(name, 'src/Utilities.cpp', 'not found'); return
        ctx.saw('functions', f['q'])
        n = skipped = 0; why = None; drv = f; f = asked(f)
        for args, want, *rest in cases:
            try:
                got = norm(call(drv, *args, arg=rest[0] if rest else None))
                if isinstance(want, bool) and not isinstance(got, bool): got = bool(got)
            except Fault as e: ctx.decide(name, False, where(f), 'for (%s) %s' % (', '.join(show(a) for a in args), e)); return
            except Undecided as e:
                skipped += 1; why = e
                if skipped > 20: break
                continue
            n += 1
            if callable(want) and want(got) or not callable(want) and got == want: continue
            ctx.decide(name, False, where(f), 'for (%s) it gives %r%s' % (', '.join(show(a) for a in args), got, '' if callable(want) else ' instead of %r' % (want,))); return
        if n == 0 or skipped: ctx.unknown(name, where(f), '%s cases not understood: %s' % (skipped, why)) if not n else (ctx.decide(name, True, where(f), '%d texts' % n), ctx.unknown(name + ' (rest)', where(f), '%d: %s' % (skipped, why)))
        else: ctx.decide(name, True, where(f), '%d texts' % n)
    N = 5 if deep else 4
    def pieces(t, d, ign):
        p = t.split(d)
        if p[-1] == '': p.pop()
        return [x for x in p if not ign or x not in (' ', '', '\n', '\t')]
    sp1 = fn('split', lambda f: 'vector' not in pt(f)[1]); sp2 = fn('split', lambda f: 'vector' in pt(f)[1])
    deed('split separates at the delimiter', sp1, (((S(t), num(ord(',')), TRUE if i else FALSE), pieces(t, ',', i)) for t in texts('a, \t', N) for i in (True, False)))
    def toks(t, ds, keep):
        out = []; cur = ''
        for c in t:
            if c in ds:
                if cur: out.append(cur)
                if keep: out.append(c)
                cur = ''
            else: cur += c
        return out + ([cur] if cur else [])
    deed('split separates at each of several delimiters', sp2, (((S(t), cl(ds), TRUE if k else FALSE), toks(t, ds, k)) for t in texts('ab, ', N) for ds in (', ', ',', '') for k in (True, False)))
    def found(t, p): return [i for i in range(len(t)) if t.startswith(p, i)]
    deed('findAll finds every occurrence', fn('findAll'), (((S(t), S(p)), found(t, p)) for t in texts('ab', N) for p in ('a', 'ab', 'aa', 'c')))
    deed('find_next_of finds the first occurrence of any pattern', fn('find_next_of'),
         (((S(t), sl(ps), num(b)), (lambda h: (lambda g: g == h) if h is not None else (lambda g: g < 0 or g >= 2 ** 32 - 1))(min([i for p in ps for i in found(t, p) if i >= b], default=None)))
          for t in texts('ab', N) for ps in (['a'], ['ab', 'ba'], ['b', 'aa'], []) for b in (0, 1, 2) if b <= len(t)))
    rp = fn('replaceAll', lambda f: len(f['p']) == 3); rps = fn('replaceAll', lambda f: len(f['p']) == 2)
    deed('replaceAll replaces every occurrence once', rp, (((S(t), S(a), S(b)), t if a == '' else t.replace(a, b)) for t in texts('ab', N) for a, b in (('a', 'c'), ('a', 'aa'), ('ab', 'b'), ('ab', ''), ('b', 'ab'), ('aa', 'a'), ('', 'c'), ('c', 'd'), ('a', 'a'))))
    def pair(a, b): return ('obj', 'pair', (('first', S(a)), ('second', S(b))))
    def chain(t, rules):
        for a, b in rules: t = t.replace(a, b)
        return t
    deed('replaceAll applies a list of rules in order', rps, (((S(t), ('list',) + tuple(pair(*r) for r in rules)), chain(t, rules)) for t in texts('ab', N) for rules in ([('a', 'b'), ('b', 'c')], [('ab', 'c'), ('c', 'ab')], [])))
    deed('swapChars exchanges two characters', fn('swapChars'), (((S(t), num(ord('a')), num(ord('b'))), t.translate({97: 98, 98: 97}), 0) for t in texts('abc', N)))
    deed('getItems splits a tree at its outermost level', fn('getItems'), (((S(t), sl(['{', '}']), S(',')), w) for t in texts('a{},', N + 2) for w in (items(t),) if w is not None))
    deed('getItems splits nested trees', fn('getItems'), (((S(t), sl([o, c]), S(s)), items(t, o, c, s)) for o, c, s in (('{', '}', ','), ('[', ']', ';')) for t in ('D{a,b}', 'D{R{a,b},c}', 'D{c,R{a,b}}', 'D{R{a,b},Q{c,d}}', 'D{R{X{a,b},c},d}', 'D{R{a,b},c,d}', 'D{R{a,b}', 'D{R{a,b}}}')
                                                              for t in (t.replace('{', o).replace('}', c).replace(',', s),)))
    deed('editDistance is the Levenshtein distance', fn('editDistance'), (((S(a), S(b)), distance(a, b)) for a in texts('ab', 3) for b in texts('abc', 3)))
    for q, g in (('trim', lambda t: t.strip()), ('ltrim', lambda t: t.lstrip()), ('rtrim', lambda t: t.rstrip())):
        deed('%s removes blanks from the ends only' % q, fn(q), (((S(t),), g(t)) for t in texts('ab \t', N)))
    deed('wildcards match any text in their place', fn('stringMatchesWildcard'), (((S(t), S(p), num(ord('*'))), matches(t, p)) for p in texts('ab*', 4 if deep else 3) for t in texts('ab', 4 if deep else 3)))
    deed('wildcards match at any position', fn('stringMatchesWildcard'), (((S(t), S(p), num(ord('?'))), matches(t, p, '?')) for p in ('a?b?', 'a?b?a', '?a?b', '?ab', 'a??b', 'ab?ab') for t in texts('ab', 5)))
    def expanded(t):
        while '$' in t:
            x = re.search(r'\$\{([^}]*)\}|\$([^./]*)', t); nm = x.group(1) if x.group(1) is not None else x.group(2)
            if nm not in ('A', 'VAR'): break
            t = t[:x.start()] + {'A': 'xy', 'VAR': 'v/w'}[nm] + t[x.end():]
        return t
    deed('expandGlobals substitutes environment variables', fn('expandGlobals'), (((S(t),), expanded(t)) for t in ('', 'a/b', '$A', '$A/b', 'x/$A/b', '${A}', '${A}b', 'x${A}/b', '$A.root', '$VAR/$A', '${VAR}${A}', '$B/c', 'x/$B', '${B}x', '$A/$B')))
    deed('FNV1a_hash is the FNV-1a hash', fn('FNV1a_hash'), (((S(t),), (lambda g, w=fnv(t): g % 2 ** 32 == w)) for t in ['', 'a', 'b', 'foobar', 'eval', 'D0{K-,pi+}'] + list(texts('ab', 3))))
    ncr = fn('nCr')
    deed('nCr lists every choice once', ncr, (((num(n), num(r)), (lambda g, w=sorted(itertools.combinations(range(n), r)): sorted(tuple(x) for x in g) == w)) for n in range(5) for r in range(n + 1)))
    ac = fn('all_combinations')
    deed('all_combinations is the cartesian product', ac, (((('list',) + tuple(nl(x) for x in e),), (lambda g, w=sorted(itertools.product(*e)): sorted(tuple(x) for x in g) == w)) for e in ([[1]], [[1, 2]], [[1, 2], [3]], [[1, 2], [3, 4, 5]], [[1, 2], [3, 4], [5, 6, 7]], [[1], [], [2]], [[-1, 0, 1], [-1, 1]])))
    jo = fn('vectorToString', lambda f: len(f['p']) == 3) if fn('trim') else None
    deed('vectorToString joins with the delimiter', jo, (((sl(v), S(d), ('fn', (fn('trim') or {}).get('u'), NS + 'trim')), d.join(v)) for v in ([], ['a'], ['a', 'b'], ['a', '', 'b'], ['x', 'y', 'z']) for d in ('', ',', ', ')))
    ps = fn('parallel_sort', lambda f: len(f['p']) == 4)
    def sorts(f):
        def asy(m, n, st, fr):
            c = m.rv(n['a'][0], st, fr); vals = [m.rv(a, st, fr) for a in n['a'][1:]]
            if c[0] != 'fn': raise Undecided('asynchronous call of %s' % show(c)[:60])
            pend.append((c, vals)); return ('obj', 'future', (('n', num(len(pend) - 1)),))
        def wait(m, n, st, fr):
            o = m.rd(st, m.objpath(n, st, fr))
            if o[0] != 'obj' or o[1] != 'future': raise Undecided('wait on %s' % show(o)[:40])
            i = int(dict(o[2])['n'][1])
            if pend[i] is not None: c, v = pend[i]; pend[i] = None; m.call_value(c, v, st)
            return VOID
        def merge(m, n, st, fr):
            b, mid, e = [m.rv(a, st, fr) for a in n['a'][:3]]
            if not (b[0] == mid[0] == e[0] == 'it' and b[1] == e[1]): raise Undecided('merge of %s' % show(b)[:60])
            open_ = [v for q in pend if q for v in [q[1]] if not (v[0][0] == v[1][0] == 'it' and (v[1][2][1] <= b[2][1] or v[0][2][1] >= e[2][1]))]
            if open_ and not alive: raise Undecided('whether the other part is finished')
            if open_: raise Bad('it merges while a part it started is still being sorted')
            i, j, k = int(b[2][1]), int(mid[2][1]), int(e[2][1]); xs = [norm(m.rd(st, b[1][1] + (('i', num(x)),))) for x in range(i, k)]
            l, r = xs[:j - i], xs[j - i:]
            if l != sorted(l) or r != sorted(r): raise Bad('it merges %s with %s' % (list(map(int, l)), list(map(int, r))))
            for x, v in zip(range(i, k), sorted(xs)): m.wr(st, b[1][1] + (('i', num(x)),), num(v))
            return VOID
        def nodes(x):
            if isinstance(x, dict):
                yield x
                for v in x.values(): yield from nodes(v)
            elif isinstance(x, list):
                for v in x: yield from nodes(v)
        # the future is still alive (and so need not be finished) when the parts are merged
        alive = any(b.get('k') == 'block' and any(s_.get('k') == 'decl' and any('future' in v.get('t', '') for v in s_['v']) and any(x.get('f', '').endswith('inplace_merge') for y in b['b'][i:] for x in nodes(y))
                    for i, s_ in enumerate(b['b'])) for b in nodes(f['body']))
        mm = Machine(P, dict(ov, **{'std::async': asy, 'std::inplace_merge': merge, 'std::future::wait': wait, 'std::future::get': wait, 'std::__basic_future::wait': wait}), limit=200, max_unroll=100, budget=3000000, depth=60, hooks={'static_init': True, 'recur': 12})
        k = 0
        for n in range(7 if deep else 6):
            for perm in itertools.permutations(range(n)):
                if n > 3 and perm[0] != n - 1 and not deep: continue
                for g in (0, 1, 2, 3, 10):
                    pend = []; root = ('v', 900000, 'xs'); mm.budget = 3000000; mm.deadline = time.time() + 60
                    r = mm.function(f, [('it', ('addr', (root,)), ZERO), ('it', ('addr', (root,)), num(n)), ('obj', 'std::less<int>', ()), num(g)], mem={root: nl(perm)})
                    out = norm(dict(r['st'].s)[root]); k += 1
                    if any(pend): raise Undecided('whether the other part is finished')
                    if out != sorted(perm): return False, '%s with grain size %d gives %s' % (list(perm), g, list(map(int, out)))
        return True, '%d sequences' % k
    if ps is None: ctx.unknown('parallel_sort sorts for any grain size', 'AmpGen/Utilities.h', 'not found')
    else:
        try: ok, why = sorts(ps); ctx.decide('parallel_sort sorts for any grain size', ok, where(ps), why)
        except Bad as e: ctx.decide('parallel_sort sorts for any grain size', False, where(ps), str(e))
        except Undecided as e: ctx.unknown('parallel_sort sorts for any grain size', where(ps), e)
    # ---- templates and default arguments, through drivers that ask for one definite thing each
    V = 'vpu::'
    deed('split drops empty pieces unless told otherwise', fn('split1', ns=V), (((S(t),), pieces(t, ',', True)) for t in texts('a, ', N)))
    deed('split drops the delimiters unless told otherwise', fn('split2', ns=V), (((S(t), cl(', ')), toks(t, ', ', False)) for t in texts('ab, ', 3)))
    deed('find_next_of starts at the beginning unless told otherwise', fn('next', ns=V), (((S(t), sl(ps)), h) for t in texts('ab', N) for ps in (['a'], ['ab', 'ba']) for h in (min([i for p in ps for i in found(t, p)], default=None),) if h is not None))
    deed('getItems understands {,} unless told otherwise', fn('items', ns=V), (((S(t),), items(t)) for t in ('D{a,b}', 'D{R{a,b},c}', 'D{c,R{a,b}}', 'D{R{a,b},Q{c,d}}')))
    deed('parallel_accumulate adds each entry once', fn('squares', ns=V), (((nl(v), num(i)), i + sum(x * x for x in v)) for v in ([], [3], [2, 3], [1, 2, 4, 8, 16]) for i in (0, 5)))
    for q, w in (('visit', lambda t: t), ('cvisit', lambda t: t), ('counted', lambda t: [y for i, x in enumerate(t) for y in (x, i)])):
        deed('every entry of a tuple is visited once, in order (%s)' % q, fn(q, ns=V), (((num(a), num(b), num(c)), w([a, b, c])) for a, b, c in ((7, 8, 9), (3, 3, 1))))
    # formatted text: the C formatter is modelled, the buffer handling around it is the code's own
    def snprintf(m, n, st, fr):
        dst, size, form = m.rv(n['a'][0], st, fr), m.rv(n['a'][1], st, fr), m.rv(n['a'][2], st, fr)
        vals = [m.rv(a, st, fr) for a in n['a'][3:]]
        if form[0] != 's' or size[0] != 'n' or any(v[0] not in 'ns' for v in vals): raise Undecided('formatting with %s' % show(form)[:60])
        try: t = re.sub(r'(?<=[diouxXeEfFgG])', '', form[1]) % tuple(float(v[1]) if v[0] == 'n' and v[1].denominator != 1 else int(v[1]) if v[0] == 'n' else v[1] for v in vals)
        except (ValueError, TypeError) as e: raise Undecided('format "%s": %s' % (form[1], e))
        k = int(size[1])
        if k > 0:
            if dst[0] != 'addr': raise Undecided('formatting into %s' % show(dst)[:60])
            p = dst[1]
            if not p or p[-1][0] != 'i' or p[-1][1][0] != 'n': raise Undecided('formatting into %s' % show(dst)[:60])
            off = int(p[-1][1][1]); buf = m.rd(st, p[:-1]); txt = t[:k - 1] + '\0'
            if buf[0] != 's': raise Undecided('formatting into %s' % show(buf)[:60])
            if off + len(txt) > len(buf[1]) + 1 or off + len(txt) == len(buf[1]) + 1 and False: raise Fault('%d characters written into room for %d' % (len(txt), len(buf[1]) - off + 1))
            m.wr(st, p[:-1], S((buf[1][:off] + txt + buf[1][off + len(txt):])[:len(buf[1])]))
        return num(len(t))
    keep = M
    M = Machine(P, dict(ov, **{'snprintf': snprintf, 'std::snprintf': snprintf}), limit=200, max_unroll=400, budget=3000000, depth=60, hooks={'static_init': True, 'recur': 12})
    def form(T): return fn('mysprintf', lambda f: len(f['p']) == 2 and f['p'][1]['t'].replace(' ', '').rstrip('&').replace('const', '') == T)
    deed('formatted numbers are complete', form('double'), (((S(f), num(v)), f % float(v)) for f in ('%.17g', '(%.17g)', '%0.2f', '%-12lf'.replace('l', ''), '% 2.4e', '%.0f') for v in (Fr(1, 2), Fr(-3, 8), Fr(12345678901, 8), Fr(1, 1024))))
    deed('formatted integers are complete', form('int'), (((S(f), num(v)), f % v) for f in ('%d', '%-3d|', '%05d') for v in (0, 7, -12, 123456789)))
    deed('formatted names are complete', form('char*'), (((S(f), S(v)), f % v) for f in ('%s', '%-50s', '[%s]') for v in ('', 'a', 'D0{K-,pi+}', 'x' * 60)))
    # files: every line reaches the reader once, without the carriage return
    class Stream:
        def __init__(self, text): self.text = text; self.pos = 0; self.eof = False; self.fail = False
    cur = [None]
    def stream(m, n, st, fr): cur[0] = Stream(content[0]); return ('obj', 'stream', ())
    def getline(m, n, st, fr):
        p = m.lv(n['a'][0], st, fr); s_ = cur[0]
        if s_ is None or m.rd(st, p)[:2] != ('obj', 'stream'): return None
        if len(n['a']) > 2 and m.rv(n['a'][2], st, fr) != num(10): raise Undecided('other line ends')
        q = m.lv(n['a'][1], st, fr)
        if s_.eof or s_.fail: s_.fail = True; return FALSE
        i = s_.text.find('\n', s_.pos)
        if i < 0:
            t = s_.text[s_.pos:]; s_.pos = len(s_.text); s_.eof = True
            if not t: s_.fail = True
        else: t = s_.text[s_.pos:i]; s_.pos = i + 1
        m.wr(st, q, S(t)); return FALSE if s_.fail else TRUE
    def flag(g): return lambda m, n, st, fr: TRUE if g(cur[0]) else FALSE
    fo = {'std::getline': getline}
    for c in ('ifstream', 'basic_ifstream', 'fstream', 'basic_fstream'):
        fo['ctor:std::' + c] = stream; fo['std::%s::is_open' % c] = flag(lambda s_: True); fo['std::%s::close' % c] = lambda m, n, st, fr: VOID
    for c in ('ios', 'basic_ios', 'basic_istream', 'istream'):
        for k, g in (('good', lambda s_: not s_.eof and not s_.fail), ('eof', lambda s_: s_.eof), ('fail', lambda s_: s_.fail), ('bad', lambda s_: False), ('operator bool', lambda s_: not s_.fail), ('operator!', lambda s_: s_.fail)):
            fo['std::%s::%s' % (c, k)] = flag(g)
    M = Machine(P, dict(ov, **fo), limit=200, max_unroll=400, budget=3000000, depth=60, hooks={'static_init': True, 'recur': 12, 'nofork': True})
    content = ['']
    texts_ = ['a\nb', 'a\nb\n', 'a\r\nb\r\n', '# c\na', 'a\n# c\n\nb c\n', '\r\na\r\n#x\r\n', 'a', '', '\n\n', ' # a\n', 'a # b']
    def said(all_):
        for t in texts_:
            content[0] = t
            ls = [l.replace('\r', '') for l in t.split('\n')]
            if all_ and (not t or t[-1] == '\n'): continue
            yield (S('f'),), (ls if all_ else [l for l in ls if l and l[0] != '#'])
    deed('files are read line by line without comments and carriage returns', fn('lines', ns=V), said(False))
    deed('files are read completely when nothing is ignored', fn('all_lines', ns=V), said(True))
    deed('vectorFromFile returns the lines of a file', fn('fromFile', ns=V), said(False))
    M = keep
    # ---- text to values
    def cast(T): return fn('lexical_cast', lambda f: f.get('r', f.get('t', '')).replace('std::__cxx11::', 'std::').startswith(T) if (f.get('r') or f.get('t')) else False)
    casts = [f for f in P.find(NS + 'lexical_cast') if f.get('body') is not None]
    words = ['0', '1', '12', '-3', '4x', 'x', '1 2', '1.5', '-2.25', '1e3', '1.5e-2', '1e', 'true', 'false', '2', 'True', '1.']
    for f in casts:
        t = str(f.get('rt') or f.get('r') or f.get('ret') or f.get('t') or '')
        kind = 'string' if 'string' in t else 'bool' if 'bool' in t else 'float' if 'double' in t or 'float' in t else 'unsigned' if 'unsigned' in t else 'int' if 'int' in t or 'long' in t else None
        if kind is None: continue
        name = 'text to %s' % t.split('(')[0].strip()
        ctx.saw('functions', f['q']); bad = None; n = 0; un = None
        for w in words:
            if kind == 'string': val, ok = w, True
            elif kind == 'bool': val, ok = w in ('1', 'true'), w in ('1', 'true', '0', 'false')
            else:
                x = re.fullmatch(r'-?(\d+\.?\d*([eE][-+]?\d+)?)' if kind == 'float' else r'-?\d+', w); ok = x is not None; val = Fr(w.rstrip('.')) if ok else None
                if kind == 'unsigned' and w[0] == '-': continue
            for before in (TRUE, FALSE):
                try:
                    M.budget = 3000000; M.deadline = time.time() + 60
                    r = M.function(f, [S(w), before]); got, stt = norm(r['ret']), norm(r['args'][1])
                except Undecided as e: un = e; continue
                n += 1
                if bool(stt) != (ok and before == TRUE) and not (kind == 'bool' and False): bad = '"%s" gives status %s (before: %s)' % (w, bool(stt), show(before)); break
                if ok and got != val: bad = '"%s" gives %s' % (w, got); break
            if bad: break
        if bad: ctx.decide(name, False, where(f), bad)
        elif un is not None: ctx.unknown(name, where(f), un)
        else: ctx.decide(name, True, where(f), '%d words' % n)
