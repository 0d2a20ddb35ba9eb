"""Failures to build or load generated code are reported.  The loader, linker and compiler driver are abstractly interpreted with each
system call they depend on failing in turn: a library that cannot be opened is never searched for symbols and gives false with the
function left unlinked; a missing symbol gives false (or an exception); a compiler that cannot be started, is killed or exits non-zero
makes the build fail; a failed build or link is never reported as success; the child process never returns into the library and exits
with an error status; the argument vector names the compiler first, the source, and the object after -o, and is null-terminated."""
import re
from ..value import *
from .. import extract, value as V
from ..run import where

ASSUMPTIONS = ['an exception counts as reporting the failure']
SRC = ['src/CompilerWrapper.cpp', 'src/CompiledExpressionBase.cpp']
TU = [extract.VERIF + '/tools/tus/compiled.cpp', extract.VERIF + '/tools/tus/dynamic.cpp']
HANDLE, FUNC = ('addr', (('v', -11, 'HANDLE'),)), ('addr', (('v', -12, 'FUNCTION'),))
class Exited(Exception):
    def __init__(self, code): self.code = code
def const(v): return lambda m, n, st, fr: v

def check(ctx):
    P = extract.load(SRC, extra_tus=TU)
    loader(ctx, P); linker(ctx, P); driver(ctx, P); process(ctx, P); source(ctx, P); names(ctx, P); flushed(ctx, P)

def dl(opened, found, log):
    H = HANDLE if opened else NULL
    F = FUNC if found else NULL
    def dlopen(m, n, st, fr): log.append(('dlopen', m.rv(n['a'][0], st, fr))); return H
    def dlsym(m, n, st, fr):
        h = m.rv(n['a'][0], st, fr); log.append(('dlsym', h, m.rv(n['a'][1], st, fr))); return F
    return {'dlopen': dlopen, 'dlsym': dlsym, 'dlerror': const(S('err')), 'dlclose': const(ZERO)}

def unptr(m, v, st): return v

def loader(ctx, P):
    for f in P.find('AmpGen::DynamicFCN::set') + P.find('AmpGen::DynamicFCN::DynamicFCN'):
        if not f['p']: continue
        bylib = 'void *' not in f['p'][0]['t']
        ctor = f['q'].rsplit('::', 1)[-1].startswith('DynamicFCN')
        for opened in ((True, False) if bylib else (True,)):
            for found in (True, False):
                for fatal in ((FALSE, TRUE) if len(f['p']) == 3 else (None,)):
                    nm = '%s(%s): library %s, symbol %s%s' % (strip_targs(f['q']).split('::', 1)[-1], 'library name' if bylib else 'handle', 'opens' if opened else 'fails to open', 'present' if found else 'missing', ', fatal' if fatal == TRUE else '')
                    log = []
                    args = [S('LIB') if bylib else HANDLE, S('NAME')] + ([fatal] if fatal else [])
                    this = None if ctor else ('with', sym('this'), 'm_fcn', sym('STALE'))
                    try: r = Machine(P, dl(opened, found, log), limit=10).function(f, args, this)
                    except Undecided as e: ctx.unknown(nm, where(f), e); continue
                    ctx.saw('functions', f['q'])
                    fn = proj(r['this'], ('f', 'm_fcn')) if r.get('this') else None
                    ok, why = None, ''
                    good = opened and found
                    ret = r['ret']
                    if bylib and not opened and any(x[0] == 'dlsym' and x[1] == NULL for x in log): ok, why = False, 'symbols are looked up through the null handle of a library that failed to open'
                    elif ret == BOTTOM: ok, why = (not good), 'throws although the symbol is there'
                    elif fn is None: why = 'result not understood'
                    elif good: ok = True if fn == FUNC and (ctor or ret == TRUE) and ('dlsym', HANDLE, S('NAME')) in log else False if fn in (NULL, sym('STALE')) or (ret == FALSE and not ctor) else None; why = 'returns %s with function %s' % (show(ret), show(fn))
                    else: ok = True if fn == NULL and (ctor or ret == FALSE) else False if fn in (sym('STALE'), FUNC) or (not ctor and ret == TRUE) else None; why = 'returns %s with function %s' % (show(ret), show(fn))
                    ctx.decide(nm, ok, where(f), why)
    for f in P.find('AmpGen::DynamicFCN::isLinked'):
        for v, w in ((NULL, FALSE), (FUNC, None)):
            try: r = Machine(P, {}, limit=10).function(f, [], ('with', sym('this'), 'm_fcn', v))['ret']
            except Undecided as e: ctx.unknown('isLinked', where(f), e); continue
            ok = r == FALSE if w is FALSE and r[0] == 'b' else (False if r == FALSE else True if r == TRUE or r == bnot(cmp_('==', v, NULL)) else None) if w is None else None
            ctx.decide('isLinked reflects the function pointer (%s)' % show(v), ok, where(f), show(r))

def linker(ctx, P):
    for f in P.find('AmpGen::CompiledExpression::link'):
        if not f['p'] or 'void *' in f['p'][0]['t']: continue
        for opened in (True, False):
            for st_ in (TRUE, FALSE):
                log = []
                def link(m, n, st, fr, log=log, st_=st_):
                    if 'void' not in (n.get('pt') or [''])[0]: return None
                    log.append(m.rv(n['a'][0], st, fr)); return st_
                ov = dl(opened, True, []); ov['AmpGen::CompiledExpression::link'] = link
                nm = 'link(library name): library %s, link gives %s' % ('opens' if opened else 'fails to open', show(st_))
                try: r = Machine(P, ov, limit=10).function(f, [S('LIB')])['ret']
                except Undecided as e: ctx.unknown(nm, where(f), e); continue
                ctx.saw('functions', f['q'])
                if opened: ok = (r == st_ or (st_ == FALSE and r == BOTTOM)) if log == [HANDLE] else None
                else: ok = False if NULL in log or r == TRUE else True if r in (FALSE, BOTTOM) else None
                ctx.decide(nm, ok, where(f), 'returns %s; linked from %s' % (show(r), [show(x) for x in log]))

def opts(extra):
    ov = {'ctor:AmpGen::NamedParameter': const(FALSE), 'AmpGen::NamedParameter::operator T': const(FALSE), 'AmpGen::NamedParameter::operator bool': const(FALSE), 'AmpGen::NamedParameter::getVal': const(FALSE),
          'AmpGen::operator==': const(TRUE), 'AmpGen::expandGlobals': lambda m, n, st, fr: m.rv(n['a'][0], st, fr), 'AmpGen::CompiledExpressionBase::hash': const(num(7)), 'AmpGen::CompiledExpressionBase::name': const(S('EXPR')),
          'AmpGen::CompilerWrapper::generateSource': const(VOID), 'AmpGen::CompilerWrapper::generateFilename': const(S('/tmp/gen.cpp')), 'AmpGen::operator<<': lambda m, n, st, fr: m.rv(n['a'][0], st, fr)}
    ov.update(extra); return ov

def driver(ctx, P):
    for f in P.find('AmpGen::CompilerWrapper::compile'):
        many = 'vector' in f['p'][0]['t']
        for cached in ((False,) if many else (False, True)):
            for built in (True, False):
                for linked in (True, False):
                    log = []
                    def comp(m, n, st, fr, log=log, built=built): log.append('build'); return ('b', built) if n.get('t', '') == 'bool' else VOID
                    def link(m, n, st, fr, log=log, linked=linked): log.append('link'); return ('b', linked)
                    ov = opts({'AmpGen::CompilerWrapper::compileSource': comp, 'AmpGen::CompiledExpressionBase::link': link, 'fileSize': const(num(100 if cached else -1)), 'AmpGen::fileSize': const(num(100 if cached else -1)), 'stat': const(num(0 if cached else -1))})
                    nm = 'compile(%s): %sbuild %s, link %s' % ('expressions' if many else 'expression', 'library exists, ' if cached else '', 'succeeds' if built else 'fails', 'succeeds' if linked else 'fails')
                    e = sym('expression')
                    args = [('list', ('addr', (sym('e0'),)), ('addr', (sym('e1'),))) if many else e, S('/tmp/lib.cpp')] + ([('emptymap',)] if len(f['p']) > 2 else [])
                    try: r = Machine(P, ov, limit=20).function(f, args)['ret']
                    except Undecided as ex: ctx.unknown(nm, where(f), ex); continue
                    ctx.saw('functions', f['q'] + (' (many)' if many else ''))
                    good = linked and (built or (cached and log[:1] == ['link']))
                    if not log: ctx.unknown(nm, where(f), 'neither build nor link recognised'); continue
                    ok = (r == TRUE if r[0] == 'b' else False if r == BOTTOM else None) if good else (True if r in (FALSE, BOTTOM) else False if r == TRUE else None)
                    ctx.decide(nm, ok, where(f), 'reports %s after %s' % ('an exception' if r == BOTTOM else show(r), log))

def process(ctx, P):
    for f in P.find('AmpGen::CompilerWrapper::compileSource'):
        defaults = []
        def run(fork, status, wret=None):
            log = []
            def waitpid(m, n, st, fr):
                log.append(('waitpid', m.rv(n['a'][0], st, fr)))
                a = m.rv(n['a'][1], st, fr)
                if a[0] == 'addr': m.wr(st, a[1], num(status))
                return num(wret if wret is not None else fork)
            def execv(m, n, st, fr): log.append(('exec', m.rv(n['a'][0], st, fr), m.rv(n['a'][1], st, fr), st)); log.append(m); return num(-1)
            def ex(m, n, st, fr): raise Exited(m.rv(n['a'][0], st, fr) if n['a'] else num(134))
            def np(m, n, st, fr):
                if 'string' in n.get('c', '') + n.get('t', ''):
                    if len(n['a']) > 1: defaults.append(m.rv(n['a'][1], st, fr))
                    return ('list', S('-O1'))
                return FALSE
            def fk(m, n, st, fr): log.append(('fork',)); return num(fork)
            def sp(m, n, st, fr): log.append(('split',)); return ('list', S('-tok'))
            ov = opts({'fork': fk, 'waitpid': waitpid, 'execv': execv, 'execvp': execv, 'execve': execv, 'execvpe': execv, 'exit': ex, '_exit': ex, '_Exit': ex, 'abort': ex, 'perror': const(VOID), 'AmpGen::CompilerWrapper::isClang': const(FALSE), 'ctor:AmpGen::NamedParameter': np,
                       'AmpGen::NamedParameter::operator std::vector': const(('list', S('-O1'))), 'AmpGen::NamedParameter::getVector': const(('list', S('-O1'))), 'AmpGen::split': sp})
            ov.pop('AmpGen::NamedParameter::operator T'); 
            try: r = Machine(P, ov, limit=30).function(f, [S('SRC'), S('OBJ')], ('with', sym('this'), 'm_cxx', S('CXX')))['ret']
            except Exited as e: return ('exited', e.code), log
            return r, log
        for nm, fork, status, wret, want in (('compiler exits 0', 11, 0, None, True), ('compiler exits 1', 11, 256, None, False), ('compiler exits 127', 11, 127 * 256, None, False), ('compiler is killed', 11, 9, None, False), ('fork fails', -1, 0, None, False), ('wait fails', 11, 0, -1, False)):
            try: r, log = run(fork, status, wret)
            except Undecided as e: ctx.unknown(nm, where(f), e); continue
            ctx.saw('functions', f['q'])
            if want: ok = True if r == TRUE else False if r in (FALSE, BOTTOM) or r[0] == 'exited' else None
            else: ok = True if r in (FALSE, BOTTOM) else False if r == TRUE else None
            ctx.decide('build status: ' + nm, ok, where(f), 'reports %s' % show(r))
        nm = 'a child that cannot start the compiler exits with an error'
        try: r, log = run(0, 0)
        except Undecided as e: ctx.unknown(nm, where(f), e); continue
        ex = [x for x in log if isinstance(x, tuple) and x[0] == 'exec']
        if not ex and ('fork',) in log and (r in (TRUE, FALSE) or r[0] == 'exited'): ctx.bad(nm, where(f), 'the child %s without starting the compiler' % ('exits' if r[0] == 'exited' else 'returns into the library'))
        elif not ex: ctx.unknown(nm, where(f), 'exec call not recognised')
        else: ctx.decide(nm, (as_num(r[1]) or 0) % 256 != 0 if r[0] == 'exited' and as_num(r[1]) is not None else False if r in (TRUE, FALSE, VOID) else None, where(f), 'the child %s' % (r,))
        if ex:
            m = log[log.index(ex[0]) + 1]
            prog, argv, st = ex[0][1:]
            if argv[0] == 'addr' and argv[1] and argv[1][-1] == ('i', ZERO): argv = m.rd(st, argv[1][:-1])
            elif argv[0] == 'addr': argv = m.rd(st, argv[1])
            if argv[0] != 'list' or any(x[0] not in ('s', 'null', 'n') for x in argv[1:]): ctx.unknown('argument vector', where(f), show(argv)[:300])
            else:
                a = [x[1] if x[0] == 's' else None for x in argv[1:]]
                bad = None
                if a[-1] is not None or None in a[:-1]: bad = 'is not terminated by exactly one null'
                elif a[0] != 'CXX' or prog != S('CXX'): bad = 'does not start with the compiler'
                elif a.count('OBJ') != 1 or a[a.index('OBJ') - 1] != '-o': bad = 'does not name the object after -o'
                elif a.count('SRC') != 1 or a[a.index('SRC') - 1] == '-o': bad = 'does not name the source'
                elif '-shared' not in a or '-fPIC' not in a: bad = 'does not ask for a loadable library'
                elif not all(x in a for x in ('-O1',)): bad = 'drops the configured flags'
                elif a.count('-tok') < log.count(('split',)): bad = 'drops the flags the library was built with'
                elif not any(x.startswith('-I') for x in a if x): bad = 'does not name the include path of the library'
                fl = [x[1] for d in defaults for x in (d[1:] if d[0] == 'list' else ()) if x[0] == 's']
                std = [x for x in fl if 'std=' in x]
                if defaults: ctx.decide('generated code is compiled as the standard it is written in', (all(x.lstrip('-') in ('std=c++17', 'std=gnu++17', 'std=c++20') for x in std) if std else None), where(f), 'default flags %s' % fl)
                ctx.decide('argument vector', bad is None, where(f), '%s %s' % (a, bad))

def text_of(v):
    from .X06 import flat
    return v[1] if v[0] == 's' else flat(v[1:]) if v[0] == 'cat' else None

def emitter(m, n, st, fr):
    v = m.rv(n['a'][1], st, fr)
    if n.get('pt') and 'CompiledExpressionBase' not in n['pt'][-1]: return None
    p = m.lv(n['a'][0], st, fr); m.wr(st, p, cat(m.rd(st, p), S('\nEXPR(%s)\n' % show(v)))); return ('lref', p)

def streams(opened):
    def op(m, n, st, fr): opened.append(m.rv(n['a'][0], st, fr) if n['a'] else None); return S('')
    return {'ctor:std::basic_ofstream': op, 'std::basic_ofstream::close': const(VOID), 'AmpGen::operator<<': emitter}

HEADERS = (('std::complex<double>* r', None), ('AmpGen::Complex<AmpGen::AVX2d::real_v>* r', 'avx2d'), ('AmpGen::AVX2d::real_v const* x1', 'avx2d'), ('AmpGen::AVX2f::real_v const* x1', 'avx2f'), ('AmpGen::AVX512d::real_v const* x1', 'avx512d'), ('AmpGen::AVX512::real_v const* x1', 'avx512'), ('AmpGen::ARM128d::real_v const* x1', 'arm128d'), ('AmpGen::Complex<double> const* x1', None), ('double const* x0', None))

def source(ctx, P):
    """what is written to the source file"""
    for f in P.find('AmpGen::CompilerWrapper::generateSource'):
        ctx.saw('functions', f['q'])
        for sig, simd in HEADERS:
            nm = 'the source written for (%s)' % sig
            def pre(m, n, st, fr):
                p = m.lv(n['a'][0], st, fr); m.wr(st, p, cat(m.rd(st, p), S('PREAMBLE\n'))); return VOID
            opened = []; ov = streams(opened); ov.update({'AmpGen::CompiledExpressionBase::fcnSignature': const(S(sig)), 'AmpGen::CompilerWrapper::preamble': pre})
            try: r = Machine(P, ov, limit=20).function(f, [sym('e'), S('F')])
            except Undecided as ex: ctx.unknown(nm, where(f), ex); continue
            ts = [t for t in (text_of(v) for v in r['st'].s.values()) if t and ('EXPR(' in t or 'PREAMBLE' in t)]
            if not ts: ctx.unknown(nm, where(f), 'the text was not found'); continue
            t = max(ts, key=len)
            ls = [x.strip() for x in t.replace(';', '\n').split('\n') if x.strip()]
            bad = None
            inc = [re.match(r'#\s*include\s*["<](.*)[">]', x).group(1) for x in ls if re.match(r'#\s*include\s*["<](.*)[">]', x)]
            if opened != [S('F')]: bad = 'the file written is %s' % [show(x) for x in opened] if len(opened) == 1 and opened[0] and opened[0][0] == 's' else None
            elif 'EXPR(e)' not in ls: bad = 'the expression is not written'
            elif 'PREAMBLE' not in ls: bad = 'the standard headers are not written'
            elif ls.index('PREAMBLE') > ls.index('EXPR(e)'): bad = 'the expression is written before the standard headers'
            elif simd and 'AmpGen/simd/%s_types.h' % simd not in inc: bad = 'includes %s' % inc
            elif re.search(r'\bComplex\b', sig) and 'AmpGen/Complex.h' not in inc and not simd: bad = 'includes %s' % inc
            elif any('#' in x and ls.index(x) > ls.index('EXPR(e)') for x in ls): bad = 'headers are included after the expression'
            elif not simd and any('simd' in x for x in inc): bad = 'includes %s for scalar code' % inc
            elif simd and any('simd' in x and x != 'AmpGen/simd/%s_types.h' % simd for x in inc): bad = 'includes %s' % inc
            ctx.decide(nm, bad is None, where(f), bad or '')
    for f in P.find('AmpGen::CompilerWrapper::preamble'):
        ctx.saw('functions', f['q'])
        nm = 'the preamble is a comment followed by the headers'
        for user in (NULL, S('somebody')):
            try: t = text_of(Machine(P, {'getenv': const(user), 'ctime': const(S('TODAY\n')), 'time': const(ZERO)}, limit=20).function(f, [S('')], ('with', sym('this'), 'm_includes', ('list', S('hdr1'), S('hdr2'))))['args'][0])
            except Undecided as ex: ctx.unknown(nm, where(f), ex); continue
            if t is None: ctx.unknown(nm, where(f), 'text not understood'); continue
            t = re.sub(r'<text\(10\)>', '\n', t)
            if '<text' in t: ctx.unknown(nm, where(f), t[:200]); continue
            code = re.sub(r'/\*.*?\*/', '', t, flags=re.S)
            code = [x.replace(' ', '') for x in re.sub(r'//[^\n]*', '', code).split('\n') if x.strip()]
            inc = [x for x in code if x.startswith('#include')]
            bad = None if inc == ['#include<hdr1>', '#include<hdr2>'] and code == inc else 'outside the comment: %s' % code
            ctx.decide(nm + (' (no user)' if user == NULL else ''), bad is None, where(f), bad or '')
    for f in P.find('AmpGen::CompilerWrapper::generateFilename'):
        ctx.saw('functions', f['q'])
        nm = 'temporary names are made from a valid template'
        got = []
        def mk(m, n, st, fr):
            v = m.rv(n['a'][0], st, fr)
            if v[0] == 'addr': v = m.rd(st, v[1][:-1] if v[1][-1] == ('i', ZERO) else v[1])
            got.append((v, m.rv(n['a'][1], st, fr) if len(n['a']) > 1 else ZERO)); return num(3)
        try: r = Machine(P, {'mkstemps': mk, 'mkstemp': mk}, limit=20).function(f, [])['ret']
        except Undecided as ex: ctx.unknown(nm, where(f), ex); continue
        if len(got) != 1 or got[0][0][0] != 's' or as_num(got[0][1]) is None: ctx.unknown(nm, where(f), 'template not understood'); continue
        t, k = got[0][0][1].rstrip('\0'), int(as_num(got[0][1]))
        ctx.decide(nm, len(t) >= k + 6 and t[len(t) - k - 6:len(t) - k] == 'XXXXXX', where(f), 'template %r with a suffix of %d characters' % (t, k))
    for f in P.find('AmpGen::CompilerWrapper::CompilerWrapper'):
        if not f['p'] or f.get('dep') or 'CompilerWrapper' in f['p'][0]['t']: continue
        ctx.saw('functions', f['q'])
        nm = 'the compiler named by AMPGEN_CXX is used'
        def env(m, n, st, fr): return S('/usr/bin/mycc') if m.rv(n['a'][0], st, fr) == S('AMPGEN_CXX') else NULL
        try: r = proj(Machine(P, {'getenv': env, 'std::getenv': env}, limit=20).function(f, [FALSE])['this'], ('f', 'm_cxx'))
        except Undecided as ex: ctx.unknown(nm, where(f), ex); continue
        ctx.decide(nm, r == S('/usr/bin/mycc') if r[0] == 's' else None, where(f), 'compiler is %s' % show(r))

def names(ctx, P):
    """the source compiled is the source generated, the object linked is the object built"""
    for f in P.find('AmpGen::CompilerWrapper::compile'):
        many = 'vector' in f['p'][0]['t']
        for fname in ('/tmp/lib.cpp', ''):
            for cached in ((False,) if many else (False, True)):
                for force in ((False,) if many else (False, True)):
                    nm = 'compile(%s) to %s%s%s' % ('expressions' if many else 'expression', fname or 'a temporary file', ', library exists' if cached else '', ', rebuild forced' if force else '')
                    log = []
                    def np(m, n, st, fr): return ('b', force) if any(m.rv(a, st, fr) == S('CompilerWrapper::ForceRebuild') for a in n['a'][:1]) else FALSE
                    def eqb(m, n, st, fr):
                        a, b = (m.rv(x, st, fr) for x in n['a'])
                        return cmp_('==', a, b) if a[0] == b[0] == 'b' else TRUE
                    keep = lambda m, n, st, fr: m.rv(n['o'], st, fr)
                    def gen(m, n, st, fr): log.append(('gen', m.rv(n['a'][1], st, fr))); return VOID
                    def comp(m, n, st, fr): log.append(('build', m.rv(n['a'][0], st, fr), m.rv(n['a'][1], st, fr))); return TRUE
                    def link(m, n, st, fr): log.append(('link', m.rv(n['a'][0], st, fr), m.rv(n['o'], st, fr))); return TRUE
                    ov = opts({'AmpGen::CompilerWrapper::compileSource': comp, 'AmpGen::CompiledExpressionBase::link': link, 'AmpGen::CompilerWrapper::generateSource': gen, 'fileSize': const(num(100 if cached else -1)), 'AmpGen::fileSize': const(num(100 if cached else -1)), 'stat': const(num(0 if cached else -1)),
                               'ctor:AmpGen::NamedParameter': np, 'AmpGen::NamedParameter::operator T': keep, 'AmpGen::NamedParameter::operator bool': keep, 'AmpGen::NamedParameter::getVal': keep, 'AmpGen::operator==': eqb, 'AmpGen::NamedParameter::operator==': eqb})
                    opened = []; ov.update(streams(opened))
                    E = [('addr', (('mem', ('new', 'E', num(i))),)) for i in range(2)]
                    md = ('gmap', ((S('meta'), S('value')),))
                    args = [('list',) + tuple(E) if many else sym('expression'), S(fname)] + ([md] if len(f['p']) > 2 else [])
                    this = ('with', ('with', ('with', ('with', sym('this'), 'm_includes', ('list', S('hdr1'), S('hdr2'))), 'm_includePythonBindings', TRUE), 'm_extension', S('so')), 'm_verbose', FALSE)
                    try: r = Machine(P, ov, limit=20).function(f, args, this, {E[0][1][0]: sym('e0'), E[1][1][0]: sym('e1')})
                    except Undecided as ex: ctx.unknown(nm, where(f), ex); continue
                    ctx.saw('functions', f['q'] + (' (many)' if many else ''))
                    k = [x[0] for x in log]
                    bad = und = None
                    if cached and not force:
                        if 'build' in k and 'link' not in k[:k.index('build')]: bad = 'an existing library is not tried'
                        elif k != ['link']: und = 'calls %s' % k
                    elif 'build' not in k: bad = 'nothing is built' if 'link' in k else None; und = 'calls %s' % k
                    elif 'link' in k[:k.index('build')]: bad = 'a library is linked before it is built'
                    else:
                        b = log[k.index('build')]; ls = [x for x in log if x[0] == 'link']
                        if b[1] == b[2]: bad = 'the object overwrites the source %s' % show(b[1])
                        elif any(x[1] != b[2] for x in ls): bad = 'links %s after building %s' % ([show(x[1]) for x in ls], show(b[2]))
                        elif not many and 'gen' in k and log[k.index('gen')][1] != b[1]: bad = 'compiles %s after generating %s' % (show(b[1]), show(log[k.index('gen')][1]))
                        elif not many and ('gen' not in k or k.index('gen') > k.index('build')): und = 'calls %s' % k
                        elif many and [x[2] for x in ls] != [sym('e0'), sym('e1')] and [x[2] for x in ls] != E: und = 'links %s' % [show(x[2]) for x in ls] if len(ls) == 2 else None; bad = None if len(ls) >= 2 else 'links %d of 2 expressions' % len(ls)
                        base_ = S('/tmp/gen.cpp') if not fname else S(fname)
                        if not bad and not any(base_[1][:-4] in t for x in (b[1],) for t in [text_of(x) or show(x)]): bad = 'compiles %s, asked for %s' % (show(b[1]), show(base_))
                    ctx.decide(nm, False if bad else None if und else True, where(f), bad or und or '')
                    if many:
                        ts = [t for t in (text_of(v) for v in r['st'].s.values()) if t and ('EXPR(' in t or '#include' in t)]
                        if not ts: ctx.unknown(nm + ': text', where(f), 'the text was not found'); continue
                        t = max(ts, key=len); ls = [x.strip() for x in t.split('\n') if x.strip()]
                        bad = None
                        if [x for x in ls if x.startswith('EXPR')] not in (['EXPR(e0)', 'EXPR(e1)'],): bad = 'writes the expressions %s' % [x for x in ls if x.startswith('EXPR')]
                        elif not {'#include <hdr1>', '#include <hdr2>', '#include <cstring>'} <= {re.sub(r'#\s*include\s*', '#include ', x) for x in ls}: bad = 'headers are missing: %s' % ls[:4]
                        elif any(x.startswith('#') and ls.index(x) > ls.index('EXPR(e0)') for x in ls): bad = 'headers are included after the expressions'
                        elif len(f['p']) > 2 and not any(re.match(r'extern\s*"C"\s*const\s+char\s*\*\s*meta\s*\(\s*\)\s*\{\s*return\s*"value"\s*;\s*\}', x) for x in ls): bad = 'the metadata function is %s' % [x for x in ls if 'meta' in x]
                        ctx.decide(nm + ': text', bad is None, where(f), bad or '')

def flushed(ctx, P):
    """typestate of the stream a function writes the source with: nothing is left in its buffer when the compiler is started"""
    nm = 'the source is on disk when the compiler is started'
    isof = lambda t: 'basic_ofstream' in t or 'basic_fstream' in t
    for f in [g for g in P.fns.values() if g.get('body') and not g.get('dep') and g['q'].startswith('AmpGen::CompilerWrapper')]:
        live, calls, bad = {}, [], []
        def refs(x, out):
            if isinstance(x, dict):
                if x.get('k') == 'ref' and x.get('id') in live: out.append(x['id'])
                for v in x.values(): refs(v, out)
            elif isinstance(x, list):
                for v in x: refs(v, out)
            return out
        def has(x, names):
            if isinstance(x, dict): return x.get('q') in names or any(has(v, names) for v in x.values() if isinstance(v, (dict, list)))
            return isinstance(x, list) and any(has(v, names) for v in x)
        def go(x):
            if isinstance(x, list):
                for v in x: go(v)
                return
            if not isinstance(x, dict): return
            k = x.get('k')
            if k is None and 'id' in x and isof(x.get('t', '')) and '&' not in x['t'] and '*' not in x['t']: live[x['id']] = 'empty'
            if k in ('call', 'mcall'):
                q = strip_targs(x.get('f', ''))
                if q.endswith('CompilerWrapper::compileSource'):
                    calls.append(x)
                    bad.extend(i for i, s in live.items() if s == 'written')
                elif x.get('op') == '<<':
                    for i in refs(x, []): live[i] = 'flushed' if has(x, ('std::endl', 'std::flush')) else 'written' if live[i] != 'unknown' else live[i]
                    return
                elif k == 'mcall' and q.split('::')[-1] in ('close', 'flush'):
                    for i in refs(x.get('o'), []): live[i] = 'flushed'
                else:
                    for i in refs(x, []): live[i] = 'unknown'
            if k == 'lambda':
                for i in refs(x, []): live[i] = 'unknown'
                return
            before = set(live)
            for v in x.values():
                if isinstance(v, (dict, list)): go(v)
            if k == 'block':
                for i in set(live) - before: del live[i]
        go(f['body'])
        if not calls: continue
        ctx.saw('functions', f['q'])
        ctx.decide(nm + ' (%s)' % ('expressions' if 'vector' in f['p'][0]['t'] else 'expression') if f['p'] else nm, not bad, where(f), 'a stream with unwritten text is open when compileSource is called' if bad else '')
