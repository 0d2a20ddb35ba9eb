"""Options.  The tokeniser of option lines is abstracted on every line up to a bound, the command line and options files on every arrangement of keys, values and blocks, and named parameters on
every combination of default and line: what is found under a name is what was written for it last."""
from ..value import *
from .. import extract, den
from ..run import where
from ..tensors import field
import itertools, time
ASSUMPTIONS = ['one letter stands for all ordinary characters of a line', 'an options file is the sequence of its lines without those processFile skips', 'lexical_cast is decided by U01']
SRC = ['src/OptionsParser.cpp', 'src/NamedParameter.cpp', 'src/Utilities.cpp']
NS = 'AmpGen::'
OPQ = NS + 'OptionsParser'
def tokens(line):
    """(tokens, change of the brace depth) or None for unbalanced quotes"""
    out = []; cur = ''; quoted = False; depth = 0
    for c in line:
        if not quoted and c == '#': break
        if c == '"':
            if cur: out.append(cur)
            cur = ''; quoted = not quoted; continue
        if not quoted and c in ' \t':
            if cur: out.append(cur)
            cur = ''; continue
        if not quoted: depth += (c == '{') - (c == '}')
        cur += c
    if quoted: return None
    return out + ([cur] if cur else []), depth
def check(ctx):
    P = extract.load(SRC, extra_tus=[extract.VERIF + '/tools/tus/named.cpp'])
    deep = ctx.tier == 'thorough'
    def fn(q, test=None):
        r = [f for f in P.find(q) if f.get('body') is not None and (test is None or test(f))]
        return r[0] if r else None
    def pt(f): return [p['t'] for p in f['p']]
    def need(f, what):
        if f is None: raise Undecided('%s not found' % what)
        return f
    imported = []; files = {}
    def imp(m, n, st, fr):
        v = m.rv(n['a'][0], st, fr)
        if v[0] != 's': raise Undecided('name of a file: %s' % show(v)[:60])
        imported.append(v[1]); return VOID
    def pfile(m, n, st, fr):
        v = m.rv(n['a'][0], st, fr)
        if v[0] != 's' or v[1] not in files: raise Undecided('file %s' % show(v)[:60])
        f = m.rv(n['a'][1], st, fr)
        for l in files[v[1]]:
            if l == '' or l[0] == '#': continue
            m.call_value(f, [S(l)], st)
        return VOID
    none = lambda m, n, st, fr: VOID
    base = {'AmpGen::printSplash': none, 'AmpGen::fileExists': lambda m, n, st, fr: TRUE, 'AmpGen::processFile': pfile}
    def machine(extra=None): return Machine(P, den.overrides(dict(base, **(extra or {}))), limit=60, max_unroll=80, budget=3000000, depth=60, hooks={'static_init': True, 'recur': 4})
    M = machine(); MI = machine({OPQ + '::import': imp})
    ROOT = ('mem', ('new', OPQ, 910000)); GL = ('g', OPQ + '::gOptionsParser')
    def fresh():
        o = ('obj', OPQ, (('m_allowedArguments', ('list',)), ('m_orderedKeys', ('list',)), ('m_parsedLines', ('emptymap',)), ('m_keywords', ('emptymap',)), ('m_printHelp', FALSE), ('m_quiet', TRUE)))
        return {ROOT: o, GL: ('addr', (ROOT,))}
    def run(f, args, mem, m=None, on=ROOT):
        m = m or M; m.budget = 3000000; m.deadline = time.time() + 60
        r = m.function(need(f, 'function'), list(args), mem[on] if on else None, mem=dict(mem))
        out = dict(r['st'].s)
        if on: out[on] = r['this']
        return r['ret'], out, r
    def strs(v):
        if v is None or v[0] != 'list' or any(x[0] != 's' for x in v[1:]): raise Undecided('tokens %s' % (show(v)[:80] if v else v))
        return [x[1] for x in v[1:]]
    def deed(name, f, g):
        if f is None: ctx.unknown(name, 'src/OptionsParser.cpp', 'not found'); return
        ctx.saw('functions', f['q'])
        try: ok, why = g(f); ctx.decide(name, ok, where(f), why)
        except Undecided as e: ctx.unknown(name, where(f), e)
    mps = fn(OPQ + '::makeParsedStrings')
    def tokenise(f, lines):
        k = 0
        for l in lines:
            w = tokens(l)
            if w is None: continue
            for d0 in (0, 1) if len(l) < 4 else (0,):
                r, _, x = run(f, [S(l), num(d0)], fresh()); got = strs(r); d = x['args'][1]; k += 1
                if got != w[0]: return False, 'the tokens of %r are %s instead of %s' % (l, got, w[0])
                if d[0] != 'n': raise Undecided('depth %s' % show(d)[:60])
                if d[1] != d0 + w[1]: return False, '%r takes the depth of braces from %d to %s' % (l, d0, d[1])
        return True, '%d lines' % k
    def lines(alpha, n):
        for k in range(n + 1):
            for t in itertools.product(alpha, repeat=k): yield ''.join(t)
    deed('lines split at blanks, quotes keep blanks and comments end them', mps, lambda f: tokenise(f, lines('a "#', 6 if deep else 5)))
    deed('braces count outside quotes and comments', mps, lambda f: tokenise(f, lines('a "#{}', 4 if deep else 3)))
    deed('realistic lines', mps, lambda f: tokenise(f, ['D0{K-,pi+}  2 1 0  2 0 0', 'EventType D0 K- pi+', 'x\t1.5 # comment', '  y "a b c" d', 'Formula "x > 3 # not a comment" # comment', 'block { a b', '}', '"{" 1', "a = 'b'"]))
    # ---- histories
    sa = fn(OPQ + '::addArg', lambda f: 'vector' not in pt(f)[0]); gio = fn(OPQ + '::getInputOrdered')
    fnd = fn(OPQ + '::find')
    def lookup(mem, key):
        """the tokens stored under a key, through find()"""
        ret, out, r = run(fnd, [S(key)], mem)
        end = run(fn(OPQ + '::end', lambda f: 'const_iterator' not in f.get('rt', '') and '_const' not in f.get('rt', '')), [], mem)[0]
        if ret == end: return None
        if ret[0] != 'mit': raise Undecided('find gives %s' % show(ret)[:80])
        return strs(getmap(field(mem[ROOT], 'm_parsedLines'), ret[2]))
    def getmap(v, k):
        x = proj(v, ('i', k))
        if x[0] != 'list': raise Undecided('entry %s of %s' % (show(k), show(v)[:100]))
        return x
    def ordered(mem):
        v = run(gio, [], mem)[0]
        if v[0] != 'list': raise Undecided('lines %s' % show(v)[:80])
        return [strs(x) for x in v[1:]]
    def agrees(mem, want, keys):
        for k in keys:
            got = lookup(mem, k)
            if got != want.get(k): return 'find("%s") gives %s instead of %s' % (k, got, want.get(k))
        got = ordered(mem)
        if sorted(got) != sorted(want.values()): return 'the lines listed are %s instead of %s' % (got, list(want.values()))
        firsts = [k for k in want]
        if [g[0] for g in got] != firsts and [g[0] for g in got] != sorted_last: return 'the lines are listed in the order %s' % [g[0] for g in got]
        return None
    sorted_last = None
    def histories(f):
        nonlocal sorted_last
        args = ['a 1', 'b 2 3', 'a 4', 'c', 'b "x y"', '', '  # a']
        k = 0
        for n in range(1, 4 if not deep else 5):
            for h in itertools.product(args, repeat=n):
                if n >= 3 and '' in h and '  # a' in h: continue
                if n == 4 and len(set(h)) < 3: continue
                mem = fresh(); want = {}; last = []
                for a in h:
                    mem = run(f, [S(a)], mem)[1]
                    t = tokens(a)[0]
                    if t: want[t[0]] = t; last = [x for x in last if x != t[0]] + [t[0]]
                sorted_last = last
                b = agrees(mem, want, ('a', 'b', 'c')); k += 1
                if b: return False, 'after %s %s' % (list(h), b)
        return True, '%d histories' % k
    deed('an option holds what was set last and is listed once', sa, histories)
    # ---- command line
    scl = fn(OPQ + '::setCommandLineArgs')
    def command(f):
        nonlocal sorted_last
        k = 0
        for toks in (['--a=1'], ['--a', '1'], ['--a'], ['--a', '--b'], ['--a', '-1', '--b=x=y'], ['file.opt'], ['file.opt', '--a', '2', 'g.opt'], ['--a=1', 'f.opt', 'g.opt', '--b'], ['--a=', 'f.opt'], ['--a=1', '--a=2'], ['--a', '1', '--b', '2', '--c', '3'], ['--a=x y'], ['--a', '1', 'f.opt'], ['--b=2', '--a'], []):
            del imported[:]; mem = fresh(); want = {}; files_ = []; last = []; i = 0
            while i < len(toks):
                t = toks[i]; i += 1
                if not t.startswith('--'): files_.append(t); continue
                if '=' in t: key, v = t[2:].split('=', 1)
                else:
                    key, v = t[2:], '1'
                    if i < len(toks) and not toks[i].startswith('--'): v = toks[i]; i += 1
                w = tokens(key + ' ' + v)[0]; want[key] = w; last = [x for x in last if x != key] + [key]
            argv = ('v', 910001, 'argv'); mem[argv] = ('list', S('prog')) + tuple(S(x) for x in toks)
            mem = run(f, [num(len(toks) + 1), ('addr', (argv,)), S('')], mem, MI)[1]; k += 1; sorted_last = last
            b = agrees(mem, want, ('a', 'b', 'c'))
            if b: return False, 'for the command line %s %s' % (' '.join(toks), b)
            if imported != files_: return False, 'the command line %s imports %s' % (' '.join(toks), imported)
        return True, '%d command lines' % k
    deed('a command line sets its options and imports its files', scl, command)
    # ---- files
    im = fn(OPQ + '::import')
    def importing(f):
        nonlocal sorted_last
        k = 0
        for ls in (['a 1', 'b 2'], ['a 1', '* b 2', '# c 3', 'c 4'], ['a {', ' 1', ' 2', '}', 'b 3'], ['a', '{', '1 "x y"', '}', 'c'], ['a 1 # 2', '   ', '  # b', 'b "#"'], ['a { 1 }', 'b 2'], ['a {', '# comment', ' 1 # more', '', '}', 'b {', '2', '}'], ['a 1', 'a 2', 'b 1'], ['D{K,pi} 1 2', 'b 1']):
            files['f'] = ls; mem = fresh(); want = {}; cur = []; depth = 0; last = []
            for l in ls:
                if l == '' or l[0] in '#*': continue
                t, d = tokens(l); depth += d; cur += t
                if not t or depth: continue
                cur = [x for x in cur if x not in '{}']; want[cur[0]] = cur; last = [x for x in last if x != cur[0]] + [cur[0]]; cur = []
            mem = run(f, [S('f')], mem)[1]; k += 1; sorted_last = last
            b = agrees(mem, want, ('a', 'b', 'c', 'D{K,pi}'))
            if b: return False, 'for the file %s %s' % (ls, b)
        return True, '%d files' % k
    deed('an options file sets each of its lines and blocks', im, importing)
    # ---- named parameters
    CASES = {'double': (num(7), [(['2.5'], [Fr('2.5')]), (['1', '-2e3'], [Fr(1), Fr(-2000)])]), 'int': (num(7), [(['-3'], [-3]), (['1', '2', '3'], [1, 2, 3])]), 'unsigned int': (num(7), [(['3'], [3])]), 'unsigned long': (num(7), [(['12'], [12])]),
             'bool': (TRUE, [(['false'], [False]), (['0', '1'], [False, True])]), 'std::basic_string<char>': (S('def'), [(['x'], ['x']), (['x y', 'z'], ['x y', 'z'])])}
    def plain(v):
        if v in (TRUE, FALSE): return v == TRUE
        if v[0] in ('n', 's'): return v[1]
        raise Undecided('value %s' % show(v)[:80])
    for T, (d, cases) in CASES.items():
        q = NS + 'NamedParameter<' + T + '>'
        cts = [f for f in P.fns.values() if f.get('body') and f['q'].startswith(q + '::') and f.get('fk') == 'ctor']
        c1 = next((f for f in cts if len(f['p']) == 3 and 'vector' not in pt(f)[1]), None); cv = next((f for f in cts if len(f['p']) == 3 and 'vector' in pt(f)[1]), None)
        meth = lambda n, test=None: next((f for f in P.byq.get(q + '::' + n, []) if f.get('body') and (test is None or test(f))), None)
        def named(f, d=d, cases=cases, vec=False, meth=meth, T=T, q_=q):
            k = 0
            dv = plain(d)
            for line, want in [(None, [dv]), ([], [dv])] + [(l, w) for l, w in cases]:
                mem = fresh()
                if line is not None: mem = run(sa, [S(' '.join(['p'] + ['"%s"' % x if ' ' in x else x for x in line]))], mem)[1]
                mem = run(sa, [S('q 1')], mem)[1]
                if vec and line in (None, []): want = [dv, dv]
                _, mem, r = run(f, [S('p'), ('list', d, d) if vec else d, S('')], mem, on=None)
                o = r['this']; k += 1
                gv = meth('getVal'); sz = meth('size'); vc = meth('getVector')
                call = lambda g, *a: M.function(need(g, 'getter'), list(a), o, mem=dict(mem))['ret']
                n = plain(call(sz))
                if n != len(want): return False, 'the line "p %s" gives %s values' % (' '.join(line or []), n)
                for i, w in enumerate(want):
                    g = plain(call(gv, num(i)))
                    if isinstance(w, bool): g = bool(g)
                    if g != w: return False, 'with the line %s value %d is %s instead of %s' % (None if line is None else ' '.join(['p'] + line), i, g, w)
                vv = call(vc)
                if vv[0] == 'list' and [plain(x) for x in vv[1:]] != want: return False, 'the vector of values is %s instead of %s' % (show(vv), want)
                for g in [f for n_, fs in P.byq.items() if n_.startswith(q_ + '::operator ') for f in fs if f.get('body') and not f['p']]:
                    v = M.function(g, [], o, mem=dict(mem))['ret']
                    if v == BOTTOM: return False, 'converting the option with the values %s fails' % want
                    if v[0] == 'list': x, w = [plain(y) for y in v[1:]], want
                    else: x, w = plain(v), want[0]
                    if isinstance(w, bool): x = bool(x)
                    if x != w: return False, 'with the values %s the option converts to %s (%s)' % (want, x, g['q'].split('::')[-1])
                for i in (-1, len(want)):
                    v = call(gv, num(i))
                    if v != BOTTOM: return (False if v[0] in ('n', 's', 'b') else None), 'value %d of %d exists: %s' % (i, len(want), show(v)[:60])
            return True, '%d lines' % k
        deed('NamedParameter<%s> holds the values of its line or its default' % T, c1, named)
        deed('NamedParameter<%s> holds the values of its line or its list of defaults' % T, cv, lambda f, named=named: named(f, vec=True))
        def changes(f, d=d, meth=meth, T=T, q_=q):
            mk = lambda vs: ('obj', q_, (('m_helpString', S('')), ('m_name', S('p')), ('m_valueArray', ('list',) + tuple(vs))))
            V = {'bool': [TRUE, FALSE, TRUE], 'std::basic_string<char>': [S('u'), S('v'), S('w')]}.get(T, [num(11), num(12), num(13)])
            X = {'bool': FALSE, 'std::basic_string<char>': S('x')}.get(T, num(99)); Z = {'bool': FALSE, 'std::basic_string<char>': S('')}.get(T, ZERO)
            def eff(g, args, vs, want, what):
                v = field(M.function(g, args, mk(vs))['this'], 'm_valueArray')
                if v[0] != 'list': raise Undecided('%s: %s' % (what, show(v)[:80]))
                got = [plain(x) for x in v[1:]]; w = [plain(x) for x in want]
                if T == 'bool': got = [bool(x) for x in got]
                return None if got == w else '%s makes %s of %s' % (what, got, [plain(x) for x in vs])
            for g in P.byq.get(q_ + '::setVal', []):
                if not g.get('body'): continue
                if len(g['p']) == 2:
                    for n in range(3):
                        for i in range(-1, 4):
                            want = list(V[:n])
                            if i >= 0: want += [Z] * (i + 1 - n); want[i] = X
                            b = eff(g, [X, num(i)], V[:n], want, 'setVal(%s, %d)' % (show(X), i))
                            if b: return False, b
                else:
                    b = eff(g, [('list', X, V[1])], V[:1], [X, V[1]], 'setVal of a list')
                    if b: return False, b
            for g in P.byq.get(q_ + '::operator=', []):
                if not g.get('body') or 'NamedParameter' in g['p'][0]['t']: continue
                b = eff(g, [('list', X, V[1])], V, [X, V[1]], 'assignment of a list') if 'vector' in g['p'][0]['t'] else eff(g, [X], V, [X] + V[1:], 'assignment')
                if b: return False, b
            for g in [f for n_, fs in P.byq.items() if strip_targs(n_).split('::')[-1] in ('operator==', 'operator!=') and n_.startswith(q_ + '::') for f in fs if f.get('body')]:
                for x in V[:2] + [X]:
                    v = M.function(g, [x], mk(V[:2]))['ret']; w = (x == V[0]) == (g['q'].split('::')[-1].startswith('operator=='))
                    if v[0] != 'b': raise Undecided('%s is %s' % (g['q'], show(v)[:60]))
                    if v[1] != w: return False, '%s with values %s compared with %s is %s' % (g['q'].split('::')[-1], [plain(y) for y in V[:2]], plain(x), v[1])
            return True, ''
        deed('NamedParameter<%s> changes and compares as told' % T, meth('setVal'), changes)
        if T == 'int':
            def numbered(f):
                for have, want in (([], []), (['3'], [3]), (['3', '4', '5'], [3, 4, 5])):
                    mem = fresh()
                    for i, x in enumerate(have): mem = run(sa, [S('p%d %s' % (i, x))], mem)[1]
                    mem = run(sa, [S('p%d 8' % (len(have) + 1))], mem)[1]
                    v, _, _ = run(f, [S('p'), ZERO], mem, on=None)
                    if v[0] != 'list': raise Undecided('values %s' % show(v)[:80])
                    if [plain(x) for x in v[1:]] != want: return False, 'options p0.. = %s give %s' % (have, show(v)[:80])
                return True, ''
            deed('numbered options are collected up to the first that is missing', meth('getVectorArgument'), numbered)
    # ---- keywords, help and the one parser
    done = []
    def act(nm):
        def h(m, n, st, fr):
            done.append((nm,) + tuple(m.rv(a, st, fr) for a in n['a'])); return VOID
        return h
    PL = NS + 'ParticlePropertiesList'
    MK = machine({OPQ + '::import': act('import'), NS + 'expandGlobals': lambda m, n, st, fr: ('app', 'expanded', m.rv(n['a'][0], st, fr)), PL + '::getMutable': lambda m, n, st, fr: ('addr', (('v', 910077, 'list'),)), PL + '::makeAlias': act('alias'), PL + '::addParticle': act('particle'), PL + '::readFile': act('read')})
    kc = fn(OPQ + '::OptionsParser', lambda f: f.get('fk') == 'ctor' and not f['p'])
    def keywords(f):
        for words, want in ((['Import', 'f'], ('import', ('app', 'expanded', S('f')))), (['Import'], None), (['Import', 'f', 'g'], None), (['ParticlePropertiesList::Alias', 'a', 'b'], ('alias', S('a'), S('b'))), (['ParticlePropertiesList::Alias', 'a'], None), (['ParticlePropertiesList::Alias', 'a', 'b', 'c'], None),
                            (['ParticlePropertiesList::Import', 'f'], ('read', S('f'))), (['ParticlePropertiesList::Import'], None), (['ParticleProperties', 'x', 'y'], ('particle', ('list', S('ParticleProperties'), S('x'), S('y')))), (['Imports', 'f'], 'stored')):
            mem = fresh(); MK.budget = 3000000; MK.deadline = time.time() + 60
            r = MK.function(f, [], mem[ROOT], mem=dict(mem)); mem = dict(r['st'].s); o = r['this']; del done[:]
            mem[ROOT] = o
            # the closures of the constructor refer to its own object
            for q_, v in list(mem.items()):
                if v[0] == 'obj' and v[1] == OPQ and q_ != ROOT: mem[q_] = o
            a = next(g for g in P.find(OPQ + '::addArg') if g.get('body') is not None and 'vector' in pt(g)[0])
            o2 = MK.function(a, [('list',) + tuple(S(x) for x in words)], o, mem=mem)['this']
            ks = field(o2, 'm_orderedKeys')
            if ks[0] != 'list': raise Undecided('keys %s' % show(ks)[:60])
            if want == 'stored':
                if done or len(ks) != 2: return False, '%s is taken for a keyword' % words[0]
                continue
            if len(ks) != 1: return False, 'the keyword %s is stored like an option' % words[0]
            if want is None:
                if done: return False, 'the line "%s" does %s' % (' '.join(words), done[0][0])
            elif [d[0] for d in done] != [want[0]]: return False, 'the line "%s" does %s instead of %s' % (' '.join(words), [d[0] for d in done], want[0])
            else:
                for x, y in zip(done[0][1:], want[1:]):
                    if x != y: return (False if x[0] in ('s', 'list') else None), 'the line "%s" uses %s instead of %s' % (' '.join(words), show(x)[:60], show(y))
        return True, '10 lines'
    deed('keywords act and are not stored', kc, keywords)
    ph = fn(OPQ + '::printHelp')
    def helping(f):
        for toks, want in ((['--help'], True), (['--a=1'], False), (['--help=1'], True), (['f', '--b', '2', '--help'], True), ([], False), (['--helper'], False)):
            mem = fresh(); argv = ('v', 910001, 'argv'); mem[argv] = ('list', S('prog')) + tuple(S(x) for x in toks)
            mem = run(f, [num(len(toks) + 1), ('addr', (argv,)), S('')], mem, MI)[1]
            v = run(ph, [], mem, on=None)[0]
            if v[0] != 'b': raise Undecided('printHelp %s' % show(v)[:60])
            if v[1] != want: return False, 'with the command line "%s" help is%s printed' % (' '.join(toks), '' if v[1] else ' not')
        return True, ''
    deed('help is printed exactly when it is asked for', scl, helping)
