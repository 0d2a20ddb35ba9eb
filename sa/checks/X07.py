"""The entry points written next to a generated function.  The emitted text of the batch loop, the wrapper with built-in parameters,
the python wrapper and the signature is computed as a string term and parsed: the batch loop must cover events 0..N-1, pass the
argument block unchanged, advance the event pointer by eventSize and the output by cacheSize per event; signatures number the
arguments in order; wrappers forward exactly the arguments of the function they wrap; the symbols looked up at link time are the
symbols emitted, under the same option that emits them."""
import re
from ..value import *
from ..expr import *
from .. import extract, value as V
from ..run import where
from .X06 import flat

ASSUMPTIONS = ['the emitted text is C++ of the shape parsed here; other shapes are undecided']
SRC = ['src/CompiledExpressionBase.cpp', 'src/Expression.cpp', 'src/Utilities.cpp', 'src/Tensor.cpp']
TU = [extract.VERIF + '/tools/tus/compiled.cpp']
Q = 'AmpGen::CompiledExpressionBase::'

def term(s):
    def leaf(x):
        if x[0] == 'id': return sym(x[1])
        raise ParseError(str(x))
    return Parser(tokens(S(s)), leaf).parse()

def splitargs(s):
    out, d, cur = [], 0, ''
    for c in s:
        if c in '([{<': d += 1
        if c in ')]}>': d -= 1
        if c == ',' and d == 0: out.append(cur.strip()); cur = ''
        else: cur += c
    if cur.strip(): out.append(cur.strip())
    return out

def paren(s, i):
    """text inside the bracket opening at s[i]"""
    d = 0
    for j in range(i, len(s)):
        if s[j] in '([{': d += 1
        if s[j] in ')]}':
            d -= 1
            if d == 0: return s[i + 1:j], j + 1
    return None, len(s)

def const(v): return lambda m, n, st, fr: v

def base(rto, types, sig=None):
    o = {Q + 'use_rto': const(('b', rto)), Q + 'progName': const(S('PROG')), Q + 'name': const(S('NAME')), 'AmpGen::programatic_name': const(S('PROG')), Q + 'returnTypename': const(S('RT')),
         Q + 'types': const(('list',) + tuple(S(t) for t in types)), Q + 'hash': const(ZERO), Q + 'returnTypeSize': const(num(77)), Q + 'externBuffer': const(('list', sym('v0'), sym('v1'))),
         'AmpGen::mysprintf': lambda m, n, st, fr: ('app', 'fmt') + tuple(m.rv(a, st, fr) for a in n['a'])}
    return o

def check(ctx):
    P = extract.load(SRC, extra_tus=TU)
    signature(ctx, P); batch(ctx, P); withparams(ctx, P); python(ctx, P); link(ctx, P); program(ctx, P); names(ctx, P); resolving(ctx, P); functors(ctx, P); settings(ctx, P)

def fnames(ctx, P, n):
    fs = P.find(Q + n)
    for f in fs: ctx.saw('functions', f['q'])
    return fs

def signature(ctx, P):
    for f in fnames(ctx, P, 'fcnSignature'):
        if len(f['p']) != 1: continue
        for rto in (False, True):
            ts = (['TA', 'TB', 'TC', 'TD'] if rto else ['TA', 'TB', 'TC'])
            nm = 'arguments are numbered in order (%s output)' % ('array' if rto else 'value')
            try: t = Machine(P, base(rto, ts), limit=10).function(f, [('list',) + tuple(S(x) for x in ts)])['ret']
            except Undecided as e: ctx.unknown(nm, where(f), e); continue
            if t[0] not in ('s', 'cat') or t[0] == 'cat' and any(x[0] not in ('s', 'app') for x in t[1:]): ctx.unknown(nm, where(f), show(t)[:200]); continue
            s = flat(t[1:] if t[0] == 'cat' else (t,))
            if '<' in s: ctx.unknown(nm, where(f), s); continue
            want = ['TA r', 'TB s', 'TC x0', 'TD x1'] if rto else ['TA x0', 'TB x1', 'TC x2']
            ctx.decide(nm, [' '.join(x.split()) for x in splitargs(s)] == want, where(f), 'signature of %s is "%s"' % (ts, s))

def run_stream(ctx, P, f, ov, this):
    t = Machine(P, ov, limit=12).function(f, [S('')], this)['args'][0]
    if t[0] == 's': return t[1]
    if t[0] != 'cat': return None
    return flat(t[1:])

def batch(ctx, P):
    for f in fnames(ctx, P, 'compileBatch'):
        for rto in (False, True):
            nm = 'the batch loop evaluates event i into output i (%s output)' % ('array' if rto else 'value')
            sig = 'double* r, const size_t* s, A x0, B x1' if rto else 'A x0, B x1'
            o = base(rto, ['A', 'B']); o[Q + 'fcnSignature'] = const(S(sig))
            try: s = run_stream(ctx, P, f, o, sym('this'))
            except Undecided as e: ctx.unknown(nm, where(f), e); continue
            if s is None or '<' in re.sub(r'[<>]=?\s*N\b|#include\s*<[\w.]+>|i\s*<|N\s*>', '', s): ctx.unknown(nm, where(f), s); continue
            try: bad = batch_text(s, rto)
            except ParseError as e: ctx.unknown(nm, where(f), '%s in %s' % (e, s)); continue
            ctx.decide(nm, bad is None, where(f), '%s; text: %s' % (bad, s))

def batch_text(s, rto):
    s = re.sub(r'#[^\n]*\n', '', s)
    m = re.search(r'void\s+PROG_batch\s*\(', s)
    if not m: return 'no function PROG_batch'
    a, j = paren(s, m.end() - 1)
    names = [re.split(r'[\s&*]+', x)[-1] for x in splitargs(a)]
    if names[:4] != ['N', 'eventSize', 'cacheSize', 'rt']: return 'arguments are %s, callers pass (events, event stride, output stride, output, ...)' % names
    m = re.search(r'for\s*\(', s[j:])
    if not m: raise ParseError('no loop')
    h, k = paren(s[j:], m.end() - 1)
    hs = h.split(';')
    if len(hs) != 3: raise ParseError('loop header')
    mi = re.match(r'\s*(?:size_t|unsigned|int|unsigned int|auto)\s+(\w+)\s*=\s*(.+)$', hs[0])
    if not mi: raise ParseError('loop init')
    i = sym(mi.group(1))
    if term(mi.group(2)) != ZERO: return 'the loop starts at %s' % mi.group(2)
    c = hs[1].strip()
    cm = re.match(r'(\w+)\s*(<|!=|<=)\s*(.+)$', c)
    if not cm or cm.group(1) != mi.group(1): raise ParseError('loop condition')
    bound = term(cm.group(3))
    if cm.group(2) == '<=': bound = add(bound, ONE)
    if same(bound, sym('N')) is not True: return 'the loop runs to %s' % c
    if hs[2].replace(' ', '') not in ('++%s' % mi.group(1), '%s++' % mi.group(1), '%s+=1' % mi.group(1)): return 'the loop advances by %s' % hs[2]
    body = s[j:][k:].strip().lstrip('{').split('}')[0]
    st = [x.strip() for x in body.split(';') if x.strip()]
    if len(st) != 1: raise ParseError('loop body %s' % st)
    st = st[0]
    if not rto:
        m = re.match(r'rt\s*\[', st)
        if not m: raise ParseError('store')
        ix, k = paren(st, m.end() - 1)
        if same(term(ix), mul(sym('cacheSize'), i)) is not True: return 'output of event i is stored at index %s' % ix
        st = st[k:].strip()
        if not st.startswith('='): raise ParseError('store')
        st = st[1:].strip()
    m = re.match(r'PROG\s*\(', st)
    if not m: raise ParseError('call')
    a, k = paren(st, m.end() - 1)
    if st[k:].strip(): raise ParseError('after call')
    args = [term(x) for x in splitargs(a)]
    ev = add(sym('x1'), mul(i, sym('eventSize')))
    want = [add(sym('r'), mul(sym('cacheSize'), i)), sym('s'), sym('x0'), ev] if rto else [sym('x0'), ev]
    if len(args) != len(want) or any(same(x, y) is not True for x, y in zip(args, want)): return 'event i is evaluated with arguments (%s)' % a
    return None

def withparams(ctx, P):
    for f in fnames(ctx, P, 'compileWithParameters'):
        for rto in (False, True):
            nm = 'the wrapper with built-in parameters forwards its arguments (%s output)' % ('array' if rto else 'value')
            o = base(rto, ['double*', 'const size_t*', 'PAR', 'EVT'] if rto else ['PAR', 'EVT'])
            try: s = run_stream(ctx, P, f, o, sym('this'))
            except Undecided as e: ctx.unknown(nm, where(f), e); continue
            if s is None: ctx.unknown(nm, where(f), 'text not understood'); continue
            m = re.search(r'RT\s+PROG_wParams\s*\(', s)
            c = re.search(r'return\s+PROG\s*\(', s)
            arr = re.search(r'(\w+)\s*\[\s*\d*\s*\]\s*=\s*\{', s)
            if not m or not c or not arr: ctx.unknown(nm, where(f), s); continue
            a = [' '.join(x.split()) for x in splitargs(paren(s, m.end() - 1)[0])]
            want = ['double* r', 'const size_t* s', 'EVT x0'] if rto else ['EVT x0']
            vals = splitargs(paren(s, arr.end() - 1)[0])
            call = splitargs(paren(s, c.end() - 1)[0])
            wc = ['r', 's', arr.group(1), 'x0'] if rto else [arr.group(1), 'x0']
            vs = [re.findall(r'v[01]', v) for v in vals]
            bad = None
            if a != want: bad = 'declared with (%s)' % ', '.join(a)
            elif call != wc: bad = 'calls PROG(%s)' % ', '.join(call)
            elif vs != [['v0'], ['v1']]: bad = 'parameter values are %s for a buffer (v0, v1)' % vals
            ctx.decide(nm, bad is None, where(f), bad or '')

def python(ctx, P):
    for f in fnames(ctx, P, 'to_stream'):
        for wp in (False, True):
            nm = 'the python wrapper forwards its arguments%s' % (' (built-in parameters)' if wp else '')
            ts = ['TA', 'TB', 'TC']
            o = base(False, ts)
            o.update({Q + 'addDependentExpressions': const(VOID), 'AmpGen::Expression::to_string': const(S('EXPR')), Q + 'fcnSignature': const(S('SIG')), Q + 'compileWithParameters': const(VOID),
                      'ctor:AmpGen::NamedParameter': const(FALSE), 'AmpGen::NamedParameter::operator bool': const(FALSE), 'AmpGen::NamedParameter::operator T': const(FALSE), 'AmpGen::NamedParameter::getVal': const(FALSE), 'AmpGen::is': const(FALSE)})
            this = sym('this')
            for k, v in (('m_db', ('list',)), ('m_disableBatch', TRUE), ('m_includeParameters', ('b', wp)), ('m_includePythonBindings', TRUE), ('m_name', S('NAME')), ('m_obj', sym('obj'))): this = ('with', this, k, v)
            try: s = run_stream(ctx, P, f, o, this)
            except Undecided as e: ctx.unknown(nm, where(f), e); continue
            if s is None: ctx.unknown(nm, where(f), 'text not understood'); continue
            m = re.search(r'void\s+PROG__py\s*\(', s); c = re.search(r'=\s*PROG(_wParams)?\s*\(', s); mc = re.search(r'memcpy\s*\(', s)
            if not (m and c and mc): ctx.unknown(nm, where(f), s[-300:]); continue
            n = len(ts) - (1 if wp else 0)
            a = [' '.join(x.split()) for x in splitargs(paren(s, m.end() - 1)[0])]
            call = splitargs(paren(s, c.end() - 1)[0]); cp = splitargs(paren(s, mc.end() - 1)[0])
            bad = None
            if a != ['%s x%d' % (t, i) for i, t in enumerate(ts[:n])] + ['double* r0']: bad = 'declared with (%s)' % ', '.join(a)
            elif bool(c.group(1)) != wp: bad = 'calls %s' % c.group(0)
            elif call != ['x%d' % i for i in range(n)]: bad = 'calls the function with (%s)' % ', '.join(call)
            elif len(cp) != 3 or 'r0' not in cp[0] or 'tmp' not in cp[1] or cp[2] != '77': bad = 'copies %s (result size 77)' % cp
            ctx.decide(nm, bad is None, where(f), bad or '')

def link(ctx, P):
    """symbols looked up = symbols emitted, under the same options"""
    for f in P.find('AmpGen::CompiledExpression::link'):
        if not f['p'] or 'void *' not in f['p'][0]['t']: continue
        nm = 'link looks up the emitted symbols (%s)' % f['q'][:80]
        ctx.saw('functions', f['q'])
        for nb in (False, True):
            for db in (False, True):
                seen = {}
                def setf(m, n, st, fr):
                    o = n['o']; who = o.get('n')
                    vals = [m.rv(x, st, fr) for x in n['a']]
                    seen[who] = vals[1]; return ('app', 'linked', S(str(who)))
                o = {Q + 'progName': const(S('PROG')), 'AmpGen::DynamicFCN::set': setf}
                this = ('with', ('with', sym('this'), 'm_disableBatch', ('b', nb)), 'm_db', ('list', sym('d')) if db else ('list',))
                try: r = Machine(P, o, limit=10).function(f, [sym('h')], this)['ret']
                except Undecided as e: ctx.unknown(nm, where(f), e); continue
                want = {'m_fcn': S('PROG')}
                if db: want['m_fdb'] = S('PROG_DB')
                if not nb: want['m_batchFcn'] = S('PROG_batch')
                if not seen: ctx.unknown(nm, where(f), 'no look-up recognised'); continue
                ctx.decide(nm + ' batch=%d debug=%d' % (not nb, db), seen == want, where(f), 'looks up %s, emitted symbols are %s' % ({k: show(v) for k, v in seen.items()}, {k: show(v) for k, v in want.items()}))
                res = set(subterms(r))
                ctx.decide(nm + ' status batch=%d debug=%d' % (not nb, db), True if all(('app', 'linked', S(k)) in res for k in want) else False, where(f), 'the status returned is %s' % show(r))

def functions(s):
    """top-level extern "C" functions of a generated text: name -> (return type, arguments, body); also the names defined without C linkage"""
    t = re.sub(r'#[^\n]*(\n|$)', '\n', s)
    out, plain, i, cblock = {}, [], 0, False
    while True:
        while i < len(t) and (t[i].isspace() or t[i] == ';'): i += 1
        if i >= len(t): return out, plain
        m = re.match(r'extern\s*"C"\s*\{', t[i:])
        if m: raise ParseError('linkage block')
        m = re.match(r'(extern\s*"C"\s+)?([\w:<>,*&\s]*?[\s*&>])(\w+)\s*\(', t[i:])
        if not m: raise ParseError('text at %r' % t[i:i + 60])
        a, j = paren(t, i + m.end() - 1)
        if a is None: raise Broken('unclosed argument list of %s' % m.group(3))
        k = j
        while k < len(t) and t[k].isspace(): k += 1
        if k < len(t) and t[k] == ';': i = k + 1; continue          # a declaration
        if k >= len(t) or t[k] != '{': raise Broken('no body after %s' % m.group(3))
        b, e = paren(t, k)
        if b is None: raise Broken('unbalanced brackets in %s' % m.group(3))
        if not m.group(1): plain.append(m.group(3))
        elif m.group(3) in out: raise Broken('%s is defined twice' % m.group(3))
        else: out[m.group(3)] = (' '.join(m.group(2).split()), [' '.join(x.split()) for x in splitargs(a)], b)
        i = e

class Broken(Exception): pass

TXT = {'obj': 'OBJ(1)', 'eA': 'EA(2)', 'eB': 'EB(v11)', 'dE': 'DE(3)', 'dF': 'DF(v14)', 'sY': 'SY(v13)', 'sZ': 'NULL', 'sX': 'SX', 't0': 'T0(v11)', 't1': 'T1', 't2': 'T2'}
PAIR = lambda a, b: ('obj', 'pair', (('first', a), ('second', b)))

def program(ctx, P):
    """the whole text for every combination of options"""
    from .X06 import TEN
    for f in fnames(ctx, P, 'to_stream'):
        for rto, tensor in ((False, False), (True, False), (True, True)):
            for db in (0, 1, 3):
                for batch in (False, True):
                    for wp in (False, True):
                        for py in ((False, True) if not rto else (False,)):
                            for rt in (('RT', 'std::vector<double>') if py else ('RT',)):
                                one(ctx, P, f, rto, tensor, db, batch, wp, py, rt, TEN)

def one(ctx, P, f, rto, tensor, db, batch, wp, py, rt, TEN):
    nm = 'the program text: %s%s%s%s%s%s' % ('array' if rto else rt + ' value', ' of a tensor' if tensor else '', ', %d debug symbols' % db if db else '', ', batch' if batch else '', ', built-in parameters' if wp else '', ', python' if py else '')
    def T(m, n, st, fr):
        e = m.rv(n['o'], st, fr)
        if e[0] == 'sym' and e[1] in TXT: return S(TXT[e[1]])
        raise Undecided('text of ' + show(e)[:80])
    ts = ['cplx*', 'const size_t*', 'PAR', 'EVT'] if rto else ['PAR', 'EVT']
    o = base(rto, ts)
    o.pop('AmpGen::mysprintf')
    o.update({'AmpGen::Expression::to_string': T, 'AmpGen::type_string': const(S('TYPE')), Q + 'returnTypename': const(S('void' if rto else rt)), Q + 'arg_type': lambda m, n, st, fr: S(ts[int(as_num(m.rv(n['a'][0], st, fr)))]),
              'AmpGen::mysprintf': lambda m, n, st, fr: S(show(m.rv(n['a'][1], st, fr))), 'ctor:AmpGen::NamedParameter': const(FALSE), 'AmpGen::NamedParameter::operator bool': const(FALSE), 'AmpGen::NamedParameter::operator T': const(FALSE), 'AmpGen::NamedParameter::getVal': const(FALSE),
              'AmpGen::is': const(('b', tensor)), 'AmpGen::cast': const(('obj', 'AmpGen::TensorExpression', (('m_tensor', TEN),)))})
    dbs = [PAIR(S('first'), sym('sX')), PAIR(S('second'), sym('sZ')), PAIR(S('third'), sym('sY'))][:db]
    this = sym('this')
    for k, v in (('m_db', ('list',) + tuple(dbs)), ('m_disableBatch', ('b', not batch)), ('m_includeParameters', ('b', wp)), ('m_includePythonBindings', ('b', py)), ('m_name', S('NAME')), ('m_progName', S('PROG')), ('m_obj', sym('obj')),
                 ('m_dependentSubexpressions', ('list', PAIR(num(11), sym('eA')), PAIR(num(12), sym('eB')))), ('m_debugSubexpressions', ('list', PAIR(num(14), sym('dE')), PAIR(num(13), sym('dF'))) if db else ('list',))): this = ('with', this, k, v)
    try: s = run_stream(ctx, P, f, o, this)
    except Undecided as e: ctx.unknown(nm, where(f), e); return
    if s is None: ctx.unknown(nm, where(f), 'text not understood'); return
    try: bad = judge(s, rto, tensor, db, batch, wp, py, rt, ts)
    except ParseError as e:
        bad = balance(s)
        if bad is None: ctx.unknown(nm, where(f), e); return
    except Broken as e: bad = str(e)
    ctx.decide(nm, bad is None, where(f), '%s; text: %s' % (bad, s[:600]))

def balance(s):
    t = re.sub(r'"(\\\\.|[^"\\\\])*"', '', re.sub(r'#[^\n]*', '', s)); d = []
    for c in t:
        if c in '([{': d.append(c)
        elif c in ')]}':
            if not d or '([{'.index(d.pop()) != ')]}'.index(c): return 'unbalanced %s' % c
    return 'unclosed %s' % d[-1] if d else None

def stmts(b):
    out, d, cur = [], 0, ''
    for c in b:
        if c in '([{': d += 1
        if c in ')]}': d -= 1
        if c == ';' and d == 0: out.append(cur); cur = ''
        else: cur += c
    if cur.strip(): out.append(cur); raise Broken('statement %r is not terminated' % cur.strip()[:60])
    return [' '.join(x.split()) for x in out if x.strip()]

def strip(x):
    x = x.strip()
    while x.startswith('(') and paren(x, 0)[1] == len(x): x = x[1:-1].strip()
    return x

def decls(ss, want):
    """the leading definitions; returns the statements after them"""
    k = 0
    got = []
    while k < len(ss):
        m = re.match(r'(?:const\s+|constexpr\s+)*auto(?:\s+const)?\s+(\w+)\s*=\s*(.+)$', ss[k])
        if not m: break
        got.append((m.group(1), strip(m.group(2)))); k += 1
    if got != want:
        if all(any(n in x and v in x for x in ss) for n, v in want) and len(got) < len(want): raise ParseError('definitions %s' % ss)
        return None, 'defines %s, expected %s' % (got, want)
    return ss[k:], None

def judge(s, rto, tensor, db, batch, wp, py, rt, ts):
    fs, plain = functions(s)
    want = ['PROG', 'PROG_name'] + ['PROG_batch'] * batch + ['PROG_wParams'] * wp + ['PROG_DB'] * (db > 0) + ['PROG__py'] * py
    for w in want:
        if w not in fs: return '%s is %s' % (w, 'defined without C linkage' if w in plain else 'not defined')
    args = ['cplx* r', 'const size_t* s', 'PAR x0', 'EVT x1'] if rto else ['PAR x0', 'EVT x1']
    ret, a, b = fs['PROG']
    if ret != ('void' if rto else rt): return 'PROG returns %s' % ret
    if a != args: return 'PROG takes (%s)' % ', '.join(a)
    ss, why = decls(stmts(b), [('v11', TXT['eA']), ('v12', TXT['eB'])])
    if why: return 'PROG ' + why
    if rto:
        ex = [TXT[x] for x in (('t0', 't1', 't2') if tensor else ('obj',))]
        got = {}
        for x in ss:
            m = re.match(r'r\s*\[\s*s\s*\[\s*(\d+)\s*\]\s*\]\s*=\s*(.+)$', x)
            if not m: raise ParseError('output statement %r' % x)
            if int(m.group(1)) in got: return 'output %s is written twice' % m.group(1)
            got[int(m.group(1))] = strip(m.group(2))
        for j, e in enumerate(ex):
            v = got.pop(j, None)
            if v is None: return 'output %d is never written' % j
            if v.replace(' ', '') not in (e, 'cplx(%s)' % e, 'cplx{%s}' % e): return 'output %d is %s, expression %s of type cplx' % (j, v, e)
        if got: return 'outputs %s are written, there are %d' % (sorted(got), len(ex))
    else:
        if len(ss) != 1 or not ss[0].startswith('return'): raise ParseError('body of PROG: %s' % ss)
        v = strip(ss[0][6:]).replace(' ', '')
        if v not in (TXT['obj'], '%s(%s)' % (rt, TXT['obj']), '%s{%s}' % (rt, TXT['obj'])): return 'PROG returns %s' % v
    n = stmts(fs['PROG_name'][2])
    if fs['PROG_name'][1] not in ([], ['void']) or 'char' not in fs['PROG_name'][0]: return 'PROG_name is declared %s(%s)' % (fs['PROG_name'][0], fs['PROG_name'][1])
    if len(n) != 1 or n[0] != 'return "NAME"': return 'PROG_name does %s' % n
    if db:
        ret, a, b = fs['PROG_DB']
        if a != args: return 'PROG_DB takes (%s)' % ', '.join(a)
        if 'vector' not in ret or 'pair' not in ret: return 'PROG_DB returns %s' % ret
        if not re.search(r'#\s*include\s*<\s*string\s*>', s) and not re.search(r'#\s*include\s*<\s*iostream\s*>', s): return 'PROG_DB uses strings, <string> is not included'
        ss, why = decls(stmts(b), [('v14', TXT['dE']), ('v13', TXT['dF'])])
        if why: return 'PROG_DB ' + why
        if len(ss) != 1 or not ss[0].startswith('return'): raise ParseError('body of PROG_DB: %s' % ss)
        v = ss[0][6:].strip()
        if not v.startswith('{') or paren(v, 0)[1] != len(v): raise ParseError('result of PROG_DB')
        es = splitargs(paren(v, 0)[0])
        if len(es) != db: return 'PROG_DB lists %d of %d symbols' % (len(es), db)
        for e, (l, x) in zip(es, (('first', 'SX'), ('second', None), ('third', TXT['sY']))):
            if not e.startswith('{') or paren(e, 0)[1] != len(e): raise ParseError('entry %r' % e)
            p = splitargs(paren(e, 0)[0])
            if len(p) != 2: return 'entry %r' % e
            if p[0] != '"%s"' % l: return 'entry %r, symbol is %s' % (e, l)
            q = p[1].replace(' ', '')
            if x is None:
                if not re.match(r'TYPE[({]-999\.?0*,0\.?0*[)}]$', q): return 'the heading %s has value %s' % (l, q)
            elif x not in q: return 'symbol %s has value %s, expression %s' % (l, q, x)
            elif q not in ('AmpGen::detail::make_complex<TYPE>(%s)' % x, 'TYPE(%s)' % x): raise ParseError('value %r' % q)
    if wp:
        ret, a, b = fs['PROG_wParams']
        if ret != ('void' if rto else rt): return 'PROG_wParams returns %s' % ret
        if a != (['cplx* r', 'const size_t* s', 'EVT x0'] if rto else ['EVT x0']): return 'PROG_wParams takes (%s)' % ', '.join(a)
        ss = stmts(b)
        if len(ss) != 2: return 'PROG_wParams does %s' % ss if len(ss) < 2 else None
        m = re.match(r'(?:(?:const|static|constexpr)\s+)*double\s+(\w+)\s*\[\s*\d*\s*\]\s*=?\s*\{', ss[0])
        if not m: raise ParseError('parameters %r' % ss[0])
        vals = splitargs(paren(ss[0], m.end() - 1)[0])
        if vals != ['v0', 'v1']: return 'PROG_wParams holds %s for a buffer (v0, v1)' % vals
        c = re.match(r'(return\s+)?PROG\s*\(', ss[1])
        if not c: return 'PROG_wParams does not call PROG but %s' % ss[1]
        if not c.group(1) and not rto: return 'PROG_wParams drops its result'
        call = splitargs(paren(ss[1], c.end() - 1)[0])
        if call != (['r', 's'] if rto else []) + [m.group(1), 'x0']: return 'PROG_wParams calls PROG(%s)' % ', '.join(call)
    if py:
        ret, a, b = fs['PROG__py']
        n = 1 if wp else 2
        if a != ['%s x%d' % (t, i) for i, t in enumerate(ts[:n])] + ['double* r0']: return 'PROG__py takes (%s)' % ', '.join(a)
        ss = stmts(b)
        if len(ss) != 2: raise ParseError('body of PROG__py: %s' % ss)
        m = re.match(r'(?:const\s+)?auto\s+(\w+)\s*=\s*PROG(_wParams)?\s*\(', ss[0])
        if not m: raise ParseError('call %r' % ss[0])
        if bool(m.group(2)) != wp: return 'PROG__py calls PROG%s' % (m.group(2) or '')
        if splitargs(paren(ss[0], m.end() - 1)[0]) != ['x%d' % i for i in range(n)]: return 'PROG__py: %s' % ss[0]
        c = re.match(r'(?:std::)?memcpy\s*\(', ss[1])
        if not c: raise ParseError('copy %r' % ss[1])
        cp = [x.replace(' ', '') for x in splitargs(paren(ss[1], c.end() - 1)[0])]
        src = m.group(1) + '.data()' if 'vector' in rt else '&' + m.group(1)
        if len(cp) != 3 or cp[0] not in ('r0', '(void*)r0', '(void*)(r0)') or cp[2] != '77': return 'PROG__py copies %s (result size 77)' % cp
        if cp[1] not in (src, '(void*)' + src, '&' + m.group(1) + '[0]' if 'vector' in rt else src): return 'PROG__py copies from %s, the value is at %s' % (cp[1], src)
    if batch:
        return batch_text('void PROG_batch(' + ', '.join(fs['PROG_batch'][1]) + '){' + fs['PROG_batch'][2] + '}', rto)
    return None

def names(ctx, P):
    """the name of the generated function is an identifier"""
    for f in P.find('AmpGen::programatic_name'):
        ctx.saw('functions', f['q'])
        for x in ('D0', 'D0{K*(892)0,pi0}', 'pi-', "f'", '0', '4pi', 'K(1)(1270)bar-{omega(782)0[D]{pi+,pi-},K-}', 'a b', 'x::y', 'a_b', 'Z9', 'Dst+;GSpline.EFF'):
            nm = 'the name of the program for %r is an identifier' % x
            try: r = Machine(P, {}, limit=10, budget=500000).function(f, [S(x)])['ret']
            except Undecided as e: ctx.unknown(nm, where(f), e); continue
            if r[0] != 's': ctx.unknown(nm, where(f), show(r)[:200]); continue
            ok = re.fullmatch(r'[A-Za-z_]\w*', r[1]) is not None
            ctx.decide(nm, ok, where(f), 'it is %r' % r[1])
        a = []
        for x in ('pi+', 'pi-', 'pi*', 'pi0', 'pi'):
            try: r = Machine(P, {}, limit=10, budget=500000).function(f, [S(x)])['ret']
            except Undecided: r = sym('?')
            a.append(r)
        if all(r[0] == 's' for r in a): ctx.decide('charge conjugate states have different program names', len(set(a)) == len(a), where(f), 'names %s' % [r[1] for r in a])
    for f in P.find(Q + 'CompiledExpressionBase'):
        if not f['p'] or f.get('dep') or 'CompiledExpressionBase' in f['p'][0]['t']: continue
        nm = 'a named expression keeps its name and the program name made from it (%d arguments)' % len(f['p'])
        vals = {'m_obj': sym('E'), 'm_db': ('list', PAIR(S('d'), sym('D'))), 'm_evtMap': ('emptymap',)}
        pick = lambda t: S('the name') if re.match(r'const (std::)?(__cxx11::)?(basic_)?string\b', t) and 'map' not in t else vals['m_evtMap'] if 'map<' in t else vals['m_db'] if 'DebugSymbols' in t or 'vector' in t else vals['m_obj']
        args = [pick(p['t']) for p in f['p']]
        try: r = Machine(P, {'AmpGen::programatic_name': lambda m, n, st, fr: cat(S('made from '), m.rv(n['a'][0], st, fr))}, limit=10).function(f, args)['this']
        except Undecided as e: ctx.unknown(nm, where(f), e); continue
        a, b = proj(r, ('f', 'm_name')), proj(r, ('f', 'm_progName'))
        if a[0] != 's' or b[0] != 's': ctx.unknown(nm, where(f), show(r)[:200]); continue
        ctx.decide(nm, a == S('the name') and b == S('made from the name'), where(f), 'name %s, program name %s' % (show(a), show(b)))
        if len(args) >= 3:
            got = {k: proj(r, ('f', k)) for k in vals}
            ctx.decide(nm + ': expression, debug symbols and event map', all(got[k] == v for k, v in vals.items()), where(f), str({k: show(v) for k, v in got.items()}))

def resolving(ctx, P):
    """the session CompiledExpressionBase::resolve drives"""
    for f in fnames(ctx, P, 'resolve'):
        if f.get('dep') or not f['p'] or 'CompiledExpressionBase' not in f['q']: continue
        for have in (False, True):
            for avx in (False, True):
                nm = 'resolving %s%s' % ('with an existing resolver' if have else 'a new expression', ', vectorised' if avx else '')
                log = []
                RES = ('addr', (('mem', ('new', 'AmpGen::ASTResolver', num(1))),))
                def make(m, n, st, fr): log.append(('new',) + tuple(m.rv(a, st, fr) for a in n['a'])); return RES
                def subs(m, n, st, fr):
                    e = m.rv(n['a'][0], st, fr); log.append(('order', e))
                    return {sym('obj'): ('list', PAIR(num(1), sym('e1')), PAIR(num(2), sym('e2'))), sym('dX'): ('list', PAIR(num(3), sym('e3')), PAIR(num(1), sym('e1'))), sym('dY'): ('list', PAIR(num(3), sym('e3')), PAIR(num(4), sym('e4')))}.get(e, ('list',))
                def vec(m, n, st, fr): log.append(('avx',)); return VOID
                def siz(m, n, st, fr): log.append(('resize', m.rv(n['a'][0], st, fr))); return VOID
                def prep(m, n, st, fr): log.append(('prepare',)); return VOID
                def cf(m, n, st, fr): log.append(('functions',)); return ('list', PAIR(sym('x1'), sym('c1')), PAIR(sym('x2'), sym('c2')))
                A = 'AmpGen::ASTResolver::'
                o = {'std::make_shared': make, A + 'getOrderedSubExpressions': subs, A + 'setEnableAVX': vec, A + 'nParams': const(num(9)), A + 'cacheFunctions': cf, Q + 'resizeExternalCache': siz, Q + 'prepare': prep, Q + 'fcnSignature': const(S('AVX2d::real_v* x0' if avx else 'double* x0'))}
                this = sym('this')
                for k, v in (('m_resolver', RES if have else NULL), ('m_obj', sym('obj')), ('m_evtMap', sym('EM')), ('m_db', ('list', PAIR(S('X'), sym('dX')), PAIR(S('Y'), sym('dY')))), ('m_debugSubexpressions', ('list',)), ('m_cacheTransfers', ('list', sym('old'))), ('m_dependentSubexpressions', ('list',))): this = ('with', this, k, v)
                try: r = Machine(P, o, limit=12).function(f, [sym('MPS')], this)['this']
                except Undecided as e: ctx.unknown(nm, where(f), e); continue
                kinds = [x[0] for x in log]
                if 'order' not in kinds or 'functions' not in kinds: ctx.unknown(nm, where(f), 'calls %s' % kinds); continue
                bad = None
                dep, dbg, tr = proj(r, ('f', 'm_dependentSubexpressions')), proj(r, ('f', 'm_debugSubexpressions')), proj(r, ('f', 'm_cacheTransfers'))
                key = lambda l: [(as_num(proj(x, ('f', 'first'))), proj(x, ('f', 'second'))) for x in l[1:]] if l[0] == 'list' else None
                if not have and 'new' not in kinds and proj(r, ('f', 'm_resolver')) == NULL: bad = 'no resolver is made'
                elif 'new' in kinds and have: bad = 'the existing resolver is replaced'
                elif 'new' in kinds and sorted(map(repr, log[kinds.index('new')][1:])) != sorted(map(repr, (sym('EM'), sym('MPS')))): bad = None if any(x[0] not in ('sym', 'null') for x in log[kinds.index('new')][1:]) else 'the resolver is made from %s' % [show(x) for x in log[kinds.index('new')][1:]]
                elif ('avx' in kinds) != avx: bad = 'vectorised evaluation is %senabled' % ('' if 'avx' in kinds else 'not ')
                elif avx and kinds.index('avx') > kinds.index('order'): bad = 'vectorised evaluation is enabled after the expression was resolved'
                elif key(dep) is not None and key(dep) != [(1, sym('e1')), (2, sym('e2'))]: bad = 'shared nodes of the function are %s' % [(k, show(e)) for k, e in key(dep)]
                elif key(dbg) is not None and key(dbg) not in ([(3, sym('e3')), (1, sym('e1')), (4, sym('e4'))],): bad = 'shared nodes of the debug symbols are %s' % [(k, show(e)) for k, e in key(dbg)]
                elif tr[0] == 'list' and tr[1:] != (sym('c1'), sym('c2')): bad = 'transfers are %s' % show(tr)
                elif 'resize' in kinds and ('resize', num(9)) not in log: bad = 'the parameter block has %s entries of 9' % [show(x[1]) for x in log if x[0] == 'resize']
                elif 'resize' in kinds and 'prepare' in kinds and kinds.index('prepare') < kinds.index('resize'): bad = 'parameters are transferred before the block is sized'
                und = 'resize' not in kinds or 'prepare' not in kinds or key(dep) is None or key(dbg) is None or tr[0] != 'list' or (not have and 'new' not in kinds)
                ctx.decide(nm, False if bad else None if und else True, where(f), bad or 'calls %s' % kinds)
    for f in fnames(ctx, P, 'prepare'):
        if f.get('dep') or f['q'] != Q + 'prepare': continue
        got = []
        def tr(m, n, st, fr): got.append(m.rv(n['o'], st, fr)); return VOID
        C = [('addr', (('mem', ('new', 'AmpGen::CacheTransfer', num(i))),)) for i in range(3)]
        try: Machine(P, {'AmpGen::CacheTransfer::transfer': tr}, limit=10).function(f, [], ('with', sym('this'), 'm_cacheTransfers', ('list',) + tuple(C)))
        except Undecided as e: ctx.unknown('prepare', where(f), e); continue
        ctx.decide('every parameter is transferred before evaluation', [x for x in got if x in C] == C if all(x in C for x in got) else None, where(f), 'transfers %s' % [show(x) for x in got])

def functors(ctx, P):
    for f in fnames(ctx, P, 'orderedCacheFunctors'):
        C = [('addr', (('mem', ('new', 'AmpGen::CacheTransfer', num(i))),)) for i in range(4)]
        for perm in ((0, 1, 2, 3), (2, 0, 3, 1), (3, 2, 1, 0)):
            nm = 'transfers are listed by address (%s)' % (perm,)
            ad = {C[i]: num(10 + perm[i]) for i in range(4)}
            def address(m, n, st, fr):
                v = m.rv(n['o'], st, fr)
                if v not in ad: raise Undecided('address of ' + show(v)[:60])
                return ad[v]
            try: r = Machine(P, {'AmpGen::CacheTransfer::address': address}, limit=10).function(f, [], ('with', sym('this'), 'm_cacheTransfers', ('list',) + tuple(C)))['ret']
            except Undecided as e: ctx.unknown(nm, where(f), e); continue
            if r[0] != 'list' or any(x not in C for x in r[1:]): ctx.unknown(nm, where(f), show(r)[:200]); continue
            ctx.decide(nm, list(r[1:]) == sorted(C, key=lambda c: ad[c][1]), where(f), 'addresses in order %s' % [show(ad[x]) for x in r[1:]])

def settings(ctx, P):
    """the named arguments of an expression"""
    for f in P.find('AmpGen::CompiledExpression::set'):
        if f.get('dep'): continue
        ctx.saw('functions', f['q'])
        ts = [p['t'] for p in f['p']]
        ret = f['q'].split('<', 1)[1].split('(')[0].strip()
        nm = 'setting %s from (%s)' % (ret, ', '.join(re.sub(r'<.*>', '<>', t).replace('AmpGen::', '').replace('const ', '') for t in ts[2:]))
        for tensor in (False, True):
            MP = ('mem', ('new', 'AmpGen::MinuitParameterSet', num(5)))
            log = []
            def res(m, n, st, fr):
                v = m.rv(n['a'][0], st, fr) if n['a'] else NULL
                if v[0] == 'addr' and m.rd(st, v[1]) == sym('MPS'): v = ('addr', (MP,))
                log.append(v); return VOID
            DBS, EM = ('list', PAIR(S('d'), sym('D'))), ('gmap', ((S('x'), num(3)),))
            args = [sym('E'), S('the name')]; want = {'m_name': S('the name'), 'm_progName': S('made from the name'), 'm_obj': sym('E'), 'm_disableBatch': FALSE, 'm_includeParameters': FALSE, 'm_includePythonBindings': FALSE}; mps = NULL
            for t in ts[2:]:
                if 'vector' in t: args.append(DBS); want['m_db'] = DBS
                elif 'map<' in t: args.append(EM); want['m_evtMap'] = EM
                elif 'MinuitParameterSet' in t: args.append(('addr', (MP,)) if '*' in t else ('at', (MP,))); mps = ('addr', (MP,))
                else:
                    k = t.rsplit('::', 1)[-1].split()[0]
                    args.append(('obj', 'AmpGen::' + k, (('val', TRUE), ('m_val', TRUE)))); want['m_' + k] = TRUE
            TENS = ('obj', 'AmpGen::Tensor', (('m_elements', ('list', ZERO, ZERO, ZERO)), ('m_symmetrisedCoordinates', ('list',) + tuple(num(i) for i in range(3)))))
            o = {Q + 'resolve': res, 'AmpGen::CompiledExpression::resolve': res, 'AmpGen::programatic_name': lambda m, n, st, fr: cat(S('made from '), m.rv(n['a'][0], st, fr)), 'AmpGen::is': const(('b', tensor)), 'AmpGen::type_string': const(S('T')),
                 'AmpGen::cast': const(('obj', 'AmpGen::TensorExpression', (('m_tensor', TENS),))), 'AmpGen::Tensor::size': const(num(3))}
            this = sym('this')
            for k, v in (('m_disableBatch', FALSE), ('m_includeParameters', FALSE), ('m_includePythonBindings', FALSE), ('m_name', S('old')), ('m_progName', S('old')), ('m_db', ('list',)), ('m_evtMap', ('emptymap',))): this = ('with', this, k, v)
            n2 = nm + (' (tensor)' if tensor else '')
            try: r = Machine(P, o, limit=20).function(f, args, this, {MP: sym('MPS')})['this']
            except Undecided as e: ctx.unknown(n2, where(f), e); continue
            bad = None; und = None
            for k, v in want.items():
                g = proj(r, ('f', k))
                if g == v or g[0] == 'gmap' and v[0] == 'gmap' and dict(g[1]) == dict(v[1]): continue
                if g[0] in ('s', 'b', 'list', 'emptymap', 'sym'): bad = '%s is %s, expected %s' % (k, show(g), show(v)); break
                und = '%s is %s' % (k, show(g)[:80])
            if not bad and len(log) == 1 and log[0] != mps:
                if log[0] in (NULL, ('addr', (MP,))): bad = 'resolved with parameters %s' % show(log[0])
                else: und = 'resolved with %s' % show(log[0])
            elif not bad and not log: bad = 'the expression is never resolved'
            elif not bad and len(log) != 1: und = 'resolved %d times' % len(log)
            size = {'double': 8, 'void': 16, 'std::vector<std::complex<double>>': 16}.get(ret)
            g = as_num(proj(r, ('f', 'm_outputSize')))
            if size and not bad:
                if g is None: und = und or 'result size ' + show(proj(r, ('f', 'm_outputSize')))[:80]
                elif g != size * (3 if tensor else 1): bad = 'the result has %s bytes, expected %s' % (g, size * (3 if tensor else 1))
            ctx.decide(n2, False if bad else None if und else True, where(f), bad or und or '')
    for f in P.find('AmpGen::make_expression'):
        if f.get('dep'): continue
        ctx.saw('functions', f['q'])
        nm = 'an expression is compiled and prepared when made (%d arguments)' % len(f['p'])
        log = []
        def note(w): return lambda m, n, st, fr: (log.append(w), TRUE)[1]
        def ctor(m, n, st, fr): log.append('make'); log.append(tuple(m.rv(a, st, fr) for a in n['a'])); return ('obj', 'AmpGen::CompiledExpression', ())
        try: Machine(P, {'ctor:AmpGen::CompiledExpression': ctor, Q + 'compile': note('compile'), Q + 'prepare': note('prepare'), 'AmpGen::CompiledExpression::compile': note('compile'), 'AmpGen::CompiledExpression::prepare': note('prepare')}, limit=10).function(f, [sym('E'), S('the name'), ('emptymap',)][:len(f['p'])])
        except Undecided as e: ctx.unknown(nm, where(f), e); continue
        k = [x for x in log if isinstance(x, str)]
        if 'make' not in k: ctx.unknown(nm, where(f), 'calls %s' % k); continue
        a = [x for x in log if isinstance(x, tuple)][0]
        bad = 'it is not compiled' if 'compile' not in k else 'it is made from (%s)' % ', '.join(show(x) for x in a) if a[:2] != (sym('E'), S('the name')) or len(a) != len(f['p']) and not (len(f['p']) == 2) else None
        ctx.decide(nm, bad is None, where(f), bad or '')
    for f in P.find('AmpGen::CompiledExpression::resetExternals'):
        try: r = proj(Machine(P, {}).function(f, [], ('with', sym('this'), 'm_hasExternalsChanged', TRUE))['this'], ('f', 'm_hasExternalsChanged'))
        except Undecided as e: ctx.unknown('reset', where(f), e); continue
        ctx.decide('resetting clears the change flag (%s)' % f['q'][:60], r == FALSE if r[0] == 'b' else None, where(f), show(r))
    for f in P.find('AmpGen::CompiledExpression::CompiledExpression'):
        if f.get('dep') or len(f['p']) < 2 or 'Expression' not in f['p'][0]['t']: continue
        ctx.saw('functions', f['q'])
        nm = 'an expression given to the constructor is set up (%s, %d arguments)' % (f['q'].split('<', 1)[1].split('(')[0].strip(), len(f['p']))
        log = []
        def st_(m, n, st, fr): log.append(tuple(m.rv(a, st, fr) for a in n['a'])); return VOID
        vals = [sym('E'), S('the name')] + [sym('a%d' % i) for i in range(2, len(f['p']))]
        try: Machine(P, {'AmpGen::CompiledExpression::set': st_, Q + 'resolve': st_}, limit=12).function(f, vals)
        except Undecided as e: ctx.unknown(nm, where(f), e); continue
        if not log: ctx.bad(nm, where(f), 'the expression is never set or resolved'); continue
        ctx.decide(nm, True if log[0] == tuple(vals) else False if len(log[0]) == len(vals) and all(x[0] in ('sym', 's') for x in log[0]) else None, where(f), 'set(%s)' % ', '.join(show(x) for x in log[0]))
    for f in P.find('AmpGen::CompiledExpression::batch'):
        if f.get('dep'): continue
        ctx.saw('functions', f['q'])
        nm = 'a batch is handed to the batch function (%s)' % f['q'].split('<', 1)[1].split('(')[0].strip()
        log = []
        def call(m, n, st, fr): log.append(tuple(m.rv(a, st, fr) for a in n['a'])); return VOID
        vals = [sym('b%d' % i) for i in range(len(f['p']))]
        try: Machine(P, {'AmpGen::DynamicFCN::operator()': call}, limit=12).function(f, vals)
        except Undecided as e: ctx.unknown(nm, where(f), e); continue
        if not log: ctx.bad(nm, where(f), 'nothing is called'); continue
        a = [x for x in log[0] if x in vals]
        ctx.decide(nm, a == vals if len(log) == 1 and (a == vals or len(a) >= len(log[0]) - 1) else None, where(f), 'calls with (%s)' % ', '.join(show(x)[:40] for x in log[0]))
