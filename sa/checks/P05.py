"""Amplitude rules.  Couplings, the table of rules built from a parameter set, the expansion of unexpanded states and the charge-conjugate couplings are abstracted on parameter sets with
symbolic values and must equal the definition: the value and the expression of a coupling agree in every coordinate convention, and the expansion is the full product over rules."""
from ..value import *
from .. import extract, part, lib, den, numw
from ..run import where
from ..tensors import field
import re, itertools, time
ASSUMPTIONS = ['the particle table is replaced by a small table', 'rule sets of at most eight rules']
SRC = ['src/AmplitudeRules.cpp', 'src/AddCPConjugate.cpp', 'src/Particle.cpp', 'src/ParticleProperties.cpp', 'src/QuarkContent.cpp', 'src/Utilities.cpp', 'src/MinuitParameterSet.cpp', 'src/MinuitParameter.cpp', 'src/MinuitExpression.cpp']
NS = 'AmpGen::'
EMPTY = ('emptymap',)
FLAGS = ['Free', 'Hide', 'Fix', 'CompileTimeConstant', 'Blind', 'Invalid']
def flag(n): return ('enum', NS + 'Flag', n, FLAGS.index(n))
def check(ctx):
    P = extract.load(SRC)
    def fn(q, test=None):
        r = [f for f in P.find(NS + q) if f.get('body') is not None and (test is None or test(f))]
        return r[0] if r else None
    def need(f, what):
        if f is None: raise Undecided('%s not found' % what)
        return f
    def ptypes(f): return [p['t'] for p in f['p']]
    def link(m, n, st, fr):
        v = m.rv(n['a'][0], st, fr)
        if v[0] != 'addr': return None
        o = m.rd(st, v[1])
        return ('app', 'linked', field(o, 'm_name')) if o[0] == 'obj' else None
    rdobj = lambda m, n, st, fr: m.rd(st, m.objpath(n, st, fr))
    def world(coord='cartesian', ang='rad', forbid=(), extra=None):
        base = den.overrides()
        po = part.overrides()
        old = po['ctor:AmpGen::NamedParameter']
        def np(m, n, st, fr):
            nm = m.rv(n['a'][0], st, fr); t = n.get('t', '')
            if nm == S('CouplingConstant::Coordinates'): return S(coord) if 'string' in t else ('enum', NS + 'coordinateType', coord, ['cartesian', 'polar'].index(coord))
            if nm == S('CouplingConstant::AngularUnits'): return ('enum', NS + 'angType', ang, ['deg', 'rad'].index(ang))
            if nm == S('AddCPConjugate::Forbid'): return ('list',) + tuple(S(x) for x in forbid)
            return old(m, n, st, fr)
        po['ctor:AmpGen::NamedParameter'] = np
        po['AmpGen::NamedParameter::getVector'] = rdobj
        po['ctor:AmpGen::MinuitParameterLink'] = link
        po['AmpGen::MinuitParameterLink::operator Expression'] = rdobj; po['AmpGen::MinuitParameterLink::operator AmpGen::Expression'] = rdobj
        po['AmpGen::OptionsParser::printHelp'] = lambda m, n, st, fr: FALSE
        po.update(extra or {})
        W = part.World(P, dict(base, **po), limit=60)
        W.n = 0
        return W
    def run(W, f, args, this=None):
        W.m.budget = 3000000; W.m.deadline = time.time() + 60
        r = W.m.function(need(f, 'function'), list(args), None if this is None else W.mem[this], mem=dict(W.mem))
        W.mem = dict(r['st'].s)
        if this is not None: W.mem[this] = r['this']
        return r
    def newobj(W, f, args, cls):
        r = run(W, f, args)
        root = ('mem', ('new', NS + cls, 910000 + W.n)); W.n += 1; W.mem[root] = r['this']
        return ('addr', (root,))
    pc = fn('MinuitParameter::MinuitParameter', lambda f: f.get('fk') == 'ctor' and any('Flag' in t for t in ptypes(f)))
    ec = fn('MinuitExpression::MinuitExpression', lambda f: f.get('fk') == 'ctor' and 'vector' not in ptypes(f)[0])
    def sym(n): return ('sym', n)
    def param(W, name, fl='Free', v=None): return newobj(W, pc, [S(name), flag(fl), sym('v:' + name) if v is None else v, ONE, ZERO, ZERO], 'MinuitParameter')
    def expr(W, name, v=None): return newobj(W, ec, [S(name), sym('e:' + name) if v is None else v], 'MinuitExpression')
    sadd = fn('MinuitParameterSet::add', lambda f: len(f['p']) == 1)
    def pset(W, spec):
        root = W.m.fresh('mps'); W.mem[root] = ('obj', NS + 'MinuitParameterSet', (('m_keyAccess', EMPTY), ('m_mapping', ('list',)), ('m_parameters', ('list',))))
        for s in spec: run(W, sadd, [param(W, s) if isinstance(s, str) else expr(W, s[0], s[1]) if s[1] not in FLAGS else param(W, s[0], s[1])], root)
        return root
    def deed(name, f, g):
        if f is None: ctx.unknown(name, 'src/AmplitudeRules.cpp', 'not found'); return
        ctx.saw('functions', f['q'])
        try:
            r = g(f); ok, why = r if isinstance(r, tuple) else (r, '')
            ctx.decide(name, ok, where(f), why)
        except Undecided as e: ctx.unknown(name, where(f), e)
    cc = fn('Coupling::Coupling', lambda f: f.get('fk') == 'ctor' and len(f['p']) == 2 and 'Particle' not in ptypes(f)[0])
    ce = fn('Coupling::Coupling', lambda f: f.get('fk') == 'ctor' and len(f['p']) == 1 and 'MinuitExpression' in ptypes(f)[0])
    cop, cte = fn('Coupling::operator()'), fn('Coupling::to_expression')
    def q(W, o, name):
        v = W.m.function(need(fn('Coupling::' + name), name), [], o, mem=dict(W.mem))['ret']
        if v[0] != 's': raise Undecided('%s() is %s' % (name, show(v)[:60]))
        return v[1]
    def coupling(W, base):
        a, b = param(W, base + '_Re'), param(W, base + '_Im')
        return run(W, cc, [a, b])['this']
    DEC = 'D0{K*(892)bar0{K-,pi+},rho(770)0{pi+,pi-}}'
    for base, pre, nm, head in ((DEC, '', DEC, 'D0'), ('Dbar0{K+,pi-}', '', 'Dbar0{K+,pi-}', 'Dbar0'), ('CF_D0{K-,pi+}', 'CF', 'D0{K-,pi+}', 'D0'), ('rho(770)0[D]{pi+,pi-}', '', 'rho(770)0[D]{pi+,pi-}', 'rho(770)0')):
        if 'Dbar0' not in part.UNI and head == 'Dbar0': continue
        def g(f, base=base, pre=pre, nm=nm, head=head):
            W = world(); o = coupling(W, base)
            for k, e in (('prefix', pre), ('name', nm), ('head', head)):
                if q(W, o, k) != e: return False, '%s() of the coupling %s is "%s"' % (k, base, q(W, o, k))
            return True, ''
        deed('naming of the coupling %s' % base, cc, g)
    # ---- value and expression of couplings
    def coupvals(kind, f):
        n = 0
        for coord, ang in (('cartesian', 'rad'), ('cartesian', 'deg'), ('polar', 'rad'), ('polar', 'deg')):
            W = world(coord, ang); o = coupling(W, 'D0{K-,pi+}')
            re, im = ('v:D0{K-,pi+}_Re', 'v:D0{K-,pi+}_Im') if kind == 'value' else (None, None)
            R, J = (sym(re), sym(im)) if kind == 'value' else (('app', 'param', S('D0{K-,pi+}_Re')), ('app', 'param', S('D0{K-,pi+}_Im')))
            v = W.m.function(f, [], o, mem=dict(W.mem))['ret']
            want = add(R, mul(I, J)) if coord == 'cartesian' else mul(R, app('exp', mul(I, mul(J, div(('n', Fr('3.14159265358979323846')), num(180)) if ang == 'deg' else ONE))))
            r = cmpterm(v, want)
            if r is None: raise Undecided('%s/%s: %s' % (coord, ang, show(v)[:100]))
            if r is False: return False, 'in %s coordinates (%s) the coupling is %s' % (coord, ang, show(v)[:120])
            n += 1
        return True, '%d conventions' % n
    def cmpterm(v, want):
        if v == want: return True
        return numw.agree(v, want, funcs=('param',))[0]
    deed('the value of a coupling follows the coordinate convention', cop, lambda f: coupvals('value', f))
    deed('the expression of a coupling follows the coordinate convention', cte, lambda f: coupvals('expression', f))
    def exprcoup(f):
        W = world(); e = expr(W, 'D0{K-,pi+}'); o = run(W, ce, [e])['this']
        for g_ in (cop, cte):
            v = W.m.function(need(g_, 'value'), [], o, mem=dict(W.mem))['ret']
            if v != sym('e:D0{K-,pi+}'): raise Undecided('value of an expression coupling is %s' % show(v)[:80])
        if q(W, o, 'name') != 'D0{K-,pi+}' or q(W, o, 'head') != 'D0': return False, 'named %s with head %s' % (q(W, o, 'name'), q(W, o, 'head'))
        return True, ''
    deed('a coupling given by an expression has its name and value', ce, exprcoup)
    # ---- products
    tc1 = fn('TotalCoupling::TotalCoupling', lambda f: f.get('fk') == 'ctor' and len(f['p']) == 1 and 'TotalCoupling' not in ptypes(f)[0]); tc2 = fn('TotalCoupling::TotalCoupling', lambda f: f.get('fk') == 'ctor' and len(f['p']) == 2)
    NAMES3 = ['D0{K*(892)bar0,rho(770)0}', 'K*(892)bar0{K-,pi+}', 'rho(770)0{pi+,pi-}']
    def total(W, k=3, kinds='ppp', fl=None):
        o = None
        for n_, kd in list(zip(NAMES3, kinds))[:k]:
            if kd == 'p':
                a, b = [param(W, n_ + s, (fl or {}).get(n_ + s, 'Free')) for s in ('_Re', '_Im')]
                c = run(W, cc, [a, b])['this']
            else: c = run(W, ce, [expr(W, n_)])['this']
            o = run(W, tc1, [c])['this'] if o is None else run(W, tc2, [o, c])['this']
        return o
    for kind, f in (('value', fn('TotalCoupling::operator()')), ('expression', fn('TotalCoupling::to_expression'))):
        def g(f, kind=kind):
            for k in (1, 2, 3):
                W = world(); o = total(W, k, 'ppe'); want = ONE
                for n_, kd in list(zip(NAMES3, 'ppe'))[:k]:
                    X = lambda s: sym('v:' + n_ + s) if kind == 'value' else ('app', 'param', S(n_ + s))
                    want = mul(want, add(X('_Re'), mul(I, X('_Im'))) if kd == 'p' else sym('e:' + n_))
                v = W.m.function(f, [], o, mem=dict(W.mem))['ret']; r = cmpterm(v, want)
                if r is None: raise Undecided('%s of %d couplings: %s' % (kind, k, show(v)[:100]))
                if r is False: return False, 'the %s of %d couplings is %s' % (kind, k, show(v)[:120])
            return True, ''
        deed('the %s of a total coupling is the product of its couplings' % kind, f, g)
    def fixed(f):
        keys = [n + s for n in NAMES3[:2] for s in ('_Re', '_Im')]
        for free in [None] + keys:
            W = world(); fl = {k: 'Free' if k == free else 'Fix' for k in keys}
            o = total(W, 2, 'pp', fl); v = W.m.function(f, [], o, mem=dict(W.mem))['ret']
            if v[0] != 'b': raise Undecided('isFixed is %s' % show(v)[:60])
            if v[1] != (free is None): return False, 'with %s free, isFixed() is %s' % (free or 'nothing', v[1])
        return True, ''
    deed('a total coupling is fixed when all of its parameters are', fn('TotalCoupling::isFixed'), fixed)
    def contains(f):
        W = world(); o = total(W, 3)
        for lab, e in (('K*(892)bar0{', True), ('rho(770)0{pi+,pi-}', True), ('a(1)(1260)+', False), ('D0', True), ('_Re', False)):
            v = W.m.function(f, [S(lab)], o, mem=dict(W.mem))['ret']
            if v[0] != 'b': raise Undecided('contains is %s' % show(v)[:60])
            if v[1] != e: return False, 'contains("%s") is %s' % (lab, v[1])
        return True, ''
    deed('contains() finds a label in any of the couplings', fn('TotalCoupling::contains'), contains)
    # ---- rules
    rc = fn('AmplitudeRules::AmplitudeRules', lambda f: f.get('fk') == 'ctor' and len(f['p']) == 1 and 'MinuitParameterSet' in ptypes(f)[0])
    def C(x): return [x + '_Re', x + '_Im']
    RULES = C('D0{K*(892)bar0,rho(770)0}') + C('D0{K-,a(1)(1260)+}') + C('K*(892)bar0{K-,pi+}') + C('rho(770)0{pi+,pi-}') + C('a(1)(1260)+{rho(770)0,pi+}') + C('a(1)(1260)+[D]{rho(770)0,pi+}') + ['D0_radius', 'nothing_at_all'] + C('CF_D0{K-,pi+}') + C('gain') + ['K(1)(1270)+{K+,pi+,pi-}_Re', ('D0{sigma0,K0S0}', sym('expr1')), ('alpha', sym('expr2'))]
    WANT = {'D0': ['D0{K*(892)bar0,rho(770)0}', 'D0{K-,a(1)(1260)+}', 'CF:D0{K-,pi+}', 'D0{sigma0,K0S0}'], 'K*(892)bar0': ['K*(892)bar0{K-,pi+}'], 'rho(770)0': ['rho(770)0{pi+,pi-}'], 'a(1)(1260)+': ['a(1)(1260)+{rho(770)0,pi+}', 'a(1)(1260)+[D]{rho(770)0,pi+}']}
    def cname(W, c): p = q(W, c, 'prefix'); return (p + ':' if p else '') + q(W, c, 'name')
    def rules(spec):
        W = world(); s = pset(W, spec); o = run(W, rc, [W.mem[s]])['this']
        root = W.m.fresh('rules'); W.mem[root] = o
        return W, root
    made = []
    def table(f):
        W, root = rules(RULES); made.append((W, root))
        for head, want in list(WANT.items()) + [('K(1)(1270)+', []), ('pi+', []), ('gain', []), ('alpha', []), ('', [])]:
            has = W.m.function(need(fn('AmplitudeRules::hasDecay'), 'hasDecay'), [S(head)], W.mem[root], mem=dict(W.mem))['ret']
            if has[0] != 'b': raise Undecided('hasDecay is %s' % show(has)[:60])
            if has[1] != bool(want): return False, 'hasDecay(%s) is %s' % (head, has[1])
            v = W.m.function(need(fn('AmplitudeRules::rulesForDecay'), 'rulesForDecay'), [S(head), S('')], W.mem[root], mem=dict(W.mem))['ret']
            if v[0] != 'list': raise Undecided('rulesForDecay is %s' % show(v)[:60])
            got = [cname(W, c) for c in v[1:]]
            if got != want: return False, 'rules for %s are %s' % (head, got)
        v = W.m.function(fn('AmplitudeRules::rulesForDecay'), [S('D0'), S('CF')], W.mem[root], mem=dict(W.mem))['ret']
        if v[0] != 'list': raise Undecided('rulesForDecay is %s' % show(v)[:60])
        if [cname(W, c) for c in v[1:]] != ['CF:D0{K-,pi+}']: return False, 'rules for D0 with prefix CF are %s' % [cname(W, c) for c in v[1:]]
        return True, ''
    deed('every complete coupling of the parameter set becomes a rule of its head', rc, table)
    ex = fn('AmplitudeRules::expand')
    def canon(text):
        """descriptor up to the order of decay products"""
        def parse(i):
            j = i
            while j < len(text) and text[j] not in '{},': j += 1
            name = text[i:j]; kids = []
            if j < len(text) and text[j] == '{':
                j += 1
                while True:
                    k, j = parse(j); kids.append(k)
                    if text[j] == '}': j += 1; break
                    j += 1
            return (name, tuple(sorted(kids))), j
        return parse(0)[0]
    def oracle(spec, head):
        """all expansions of a rule: list of (tree, sorted couplings)"""
        byhead = {}
        for r in spec: byhead.setdefault(canon(r)[0].split('[')[0], []).append(r)
        def grow(t):
            name, kids = t
            if not kids:
                opts = []
                for r in byhead.get(name, []): opts += [(x, (r,) + c) for x, c in grow(canon(r))]
                return opts or [(t, ())]
            out = [((), ())]
            for k in kids: out = [(a + (x,), b + c) for a, b in out for x, c in grow(k)]
            return [((name, tuple(sorted(a))), b) for a, b in out]
        return sorted((t, tuple(sorted(c + (head,)))) for t, c in grow(canon(head)))
    SETS = [['D0{K*(892)bar0,rho(770)0}', 'K*(892)bar0{K-,pi+}', 'rho(770)0{pi+,pi-}'],
            ['D0{K-,a(1)(1260)+}', 'a(1)(1260)+{rho(770)0,pi+}', 'a(1)(1260)+[D]{rho(770)0,pi+}', 'rho(770)0{pi+,pi-}'],
            ['D0{rho(770)0,rho(770)0}', 'rho(770)0{pi+,pi-}', 'rho(770)0{pi0,gamma0}'],
            ['D0{K-,pi+}', 'rho(770)0{pi+,pi-}'],
            ['D0{K-,a(1)(1260)+{rho(770)0{pi+,pi-},pi+}}', 'rho(770)0{pi+,pi-}'],
            ['psi(2S)0{rho(770)0,K*(892)0{K+,pi-}}', 'rho(770)0{pi+,pi-}', 'K*(892)0{K+,pi-}']]
    for spec in SETS:
        def g(f, spec=spec):
            W, root = rules([x for r in spec for x in C(r)])
            lst = W.m.function(need(fn('AmplitudeRules::rulesForDecay'), 'rulesForDecay'), [S(canon(spec[0])[0]), S('')], W.mem[root], mem=dict(W.mem))['ret']
            if lst[0] != 'list' or len(lst) < 2: raise Undecided('rules of the head')
            W.m.budget = 6000000; W.m.deadline = time.time() + 120
            r = W.m.function(f, [lst[1]], W.mem[root], mem=dict(W.mem)); v = r['ret']
            if v[0] != 'list': raise Undecided('expansion is %s' % show(v)[:80])
            got = []
            for x in v[1:]:
                p, tc = proj(x, ('f', 'first')), proj(x, ('f', 'second'))
                us = field(p, 'm_uniqueString') if p[0] == 'obj' else None
                cs = field(tc, 'couplings') if tc[0] == 'obj' else None
                if us is None or us[0] != 's' or cs is None or cs[0] != 'list': raise Undecided('expanded amplitude %s' % show(x)[:80])
                got.append((canon(us[1]), tuple(sorted(field(c, 'm_name')[1] for c in cs[1:]))))
            want = oracle(spec, spec[0])
            if sorted(got) != want:
                extra = [x for x in got if x not in want]; miss = [x for x in want if x not in got]
                return False, 'expansion of %s: %s' % (spec[0], 'missing the couplings %s' % (miss[0][1],) if miss else 'has the couplings %s' % (extra[0][1],) if extra else '%d amplitudes instead of %d' % (len(got), len(want)))
            return True, '%d amplitudes' % len(got)
        deed('expansion of %s' % ' + '.join(spec), ex, g)
    # ---- the event type of a coupling
    et = fn('Coupling::eventType')
    def evtype(f):
        made = []
        def ctor(m, n, st, fr):
            v = m.rv(n['a'][0], st, fr)
            if v[0] == 'list' and all(x[0] == 's' for x in v[1:]): made.append([x[1] for x in v[1:]])
            else: made.append(None)
            return ('obj', 'AmpGen::EventType', ())
        for group in (['D0{K-,pi+}', 'D0{pi+,K-}'], ['D0{K*(892)bar0{K-,pi+},rho(770)0{pi+,pi-}}', 'D0{rho(770)0{pi-,pi+},K*(892)bar0{pi+,K-}}', 'D0{K-,a(1)(1260)+{rho(770)0{pi+,pi-},pi+}}']):
            types = []
            for dsc in group:
                del made[:]
                W = world(extra={'ctor:AmpGen::EventType': ctor}); o = coupling(W, dsc)
                W.m.budget = 3000000; W.m.deadline = time.time() + 60
                W.m.function(f, [], o, mem=dict(W.mem))
                if len(made) != 1 or made[0] is None: raise Undecided('event type not found')
                want = sorted(re.findall(r'[^{},]+(?=[,}])', re.sub(r'[^{},]+(?=\{)', '', dsc)))
                if made[0][0] != 'D0' or sorted(made[0][1:]) != want: return False, 'the event type of %s is %s' % (dsc, ' '.join(made[0]))
                types.append(made[0])
            if any(x != types[0] for x in types): return False, 'the event types of %s and %s are %s and %s' % (group[0], [g for g, x in zip(group, types) if x != types[0]][0], ' '.join(types[0]), ' '.join([x for x in types if x != types[0]][0]))
        return True, ''
    deed('the event type of a coupling is its head and its final state in a fixed order', et, evtype)
    # ---- matching an event type
    gm = fn('AmplitudeRules::getMatchingRules')
    def match(f):
        ET = {'AmpGen::EventType::mother': lambda m, n, st, fr: S('D0'), 'AmpGen::EventType::finalStates': lambda m, n, st, fr: ('list',) + tuple(S(x) for x in ('K-', 'pi+', 'pi+', 'pi-'))}
        spec = C('D0{K*(892)bar0,rho(770)0}') + C('D0{K-,a(1)(1260)+}') + C('K*(892)bar0{K-,pi+}') + C('rho(770)0{pi+,pi-}') + C('a(1)(1260)+{rho(770)0,pi+}') + C('D0{K-,pi+}') + C('D0{rho(770)0{pi+,pi-},K*(892)bar0{K-,pi+}}') + C('CF_D0{K*(892)bar0[D]{K-,pi+},rho(770)0}')
        n = 0
        for pre, want in (('', [('D0{K*(892)bar0{K-,pi+},rho(770)0{pi+,pi-}}', ('D0{K*(892)bar0,rho(770)0}', 'K*(892)bar0{K-,pi+}', 'rho(770)0{pi+,pi-}')), ('D0{K-,a(1)(1260)+{rho(770)0{pi+,pi-},pi+}}', ('D0{K-,a(1)(1260)+}', 'a(1)(1260)+{rho(770)0,pi+}', 'rho(770)0{pi+,pi-}'))]),
                          ('CF', [('D0{K*(892)bar0[D]{K-,pi+},rho(770)0{pi+,pi-}}', ('D0{K*(892)bar0[D]{K-,pi+},rho(770)0}', 'rho(770)0{pi+,pi-}'))])):
            W = world(extra=ET); s = pset(W, spec); root = W.m.fresh('rules'); W.mem[root] = run(W, rc, [W.mem[s]])['this']
            W.m.budget = 6000000; W.m.deadline = time.time() + 120
            r = W.m.function(f, [sym('type'), S(pre)], W.mem[root], mem=dict(W.mem)); v = r['ret']
            if v[0] != 'list': raise Undecided('matching rules are %s' % show(v)[:80])
            got = []
            for x in v[1:]:
                p, tc = proj(x, ('f', 'first')), proj(x, ('f', 'second'))
                us = field(p, 'm_uniqueString') if p[0] == 'obj' else None; cs = field(tc, 'couplings') if tc[0] == 'obj' else None
                if us is None or us[0] != 's' or cs is None or cs[0] != 'list': raise Undecided('amplitude %s' % show(x)[:80])
                got.append((canon(us[1]), tuple(sorted(field(c, 'm_name')[1] for c in cs[1:])))); n += 1
            w = [(canon(a), tuple(sorted(b))) for a, b in want]
            if sorted(got) != sorted(w):
                ex_ = [x for x in got if x not in w]; mi = [x for x in w if x not in got]
                return False, 'prefix "%s": %s' % (pre, 'no amplitude with the couplings %s' % (mi[0][1],) if mi else 'unexpected amplitude with the couplings %s' % (ex_[0][1],) if ex_ else '%d amplitudes instead of %d' % (len(got), len(w)))
        return True, '%d amplitudes' % n
    deed('the amplitudes of an event type are its expanded rules with that final state, once each', gm, match)
    # ---- charge conjugates
    ac = fn('AddCPConjugate')
    # name: conjugate couplings with their sign
    _cp = {}
    def cps():
        if _cp: return _cp
        for x in ('D0{K-,pi+}', 'a(1)(1260)+{rho(770)0,pi+}', 'a(1)(1260)+[D]{rho(770)0,pi+}', 'K*(892)0{K+,pi-}', 'D0{K+,K-}', 'a(1)(1260)+{sigma0,pi+}'):
            W = part.World(P); h = W.build(x); v = as_num(W.call(h, need(W.fns('CP'), 'CP'))['ret'])
            if v not in (1, -1): raise Undecided('CP of %s is %s' % (x, v))
            _cp[x] = int(v)
        return _cp
    def conj(f):
        n = 0
        for coord in ('cartesian', 'polar'):
            for forbid in ((), ('rho(770)0', 'a(1)(1260)+')):
                W = world(coord, forbid=forbid)
                spec = C('D0{K-,pi+}') + C('a(1)(1260)+{rho(770)0,pi+}') + C('a(1)(1260)+[D]{rho(770)0,pi+}') + C('K*(892)0{K+,pi-}') + ['K*(892)0_mass', 'rho(770)0_mass', 'alpha', 'K(1)(1270)+::Spline::0', 'x_y', 'K(1)(1270)-_mass', 'K(1)(1270)+_mass'] + C('gain') + C('X_D0{K+,K-}') + C('psi(2S)0{K*(892)0{K+,pi-},K0S0}') + [('D0{K+,pi-,pi0}', sym('ex1')), ('a(1)(1260)+{sigma0,pi+}', sym('ex2')), ('beta', sym('ex3')), ('K*(892)0_width', sym('ex4'))]
                s = pset(W, spec); r = run(W, f, [W.mem[s]])
                o = r['args'][0] if 'args' in r else None
                if o is None or o[0] != 'obj': raise Undecided('the set after the call')
                ps = field(o, 'm_parameters')
                if ps[0] != 'list': raise Undecided('parameters %s' % show(ps)[:80])
                got = {}
                for a in ps[1 + len(spec):]:
                    x = W.mem[a[1][0]]; nm = field(x, 'm_name')
                    if nm[0] != 's': raise Undecided('name %s' % show(nm)[:60])
                    if nm[1] in got: return False, '"%s" is added twice' % nm[1]
                    got[nm[1]] = field(x, 'm_expression')
                want = {}
                def put_(x, y, sg=(1, 1)):
                    for k, sf in enumerate(('_Re', '_Im')): want[y + sf] = (x + sf, sg[k])
                def cp(base): return signs[base]
                sgf = lambda base: (signs[base], signs[base] if coord == 'cartesian' else 1)
                signs = cps()
                D = part.anti('D0'); Ks = part.anti('K*(892)0')
                put_('D0{K-,pi+}', D + '{K+,pi-}', sgf('D0{K-,pi+}'))
                if not forbid:
                    put_('a(1)(1260)+{rho(770)0,pi+}', 'a(1)(1260)-{rho(770)0,pi-}', sgf('a(1)(1260)+{rho(770)0,pi+}')); put_('a(1)(1260)+[D]{rho(770)0,pi+}', 'a(1)(1260)-[D]{rho(770)0,pi-}', sgf('a(1)(1260)+[D]{rho(770)0,pi+}'))
                put_('K*(892)0{K+,pi-}', Ks + '{K-,pi+}', sgf('K*(892)0{K+,pi-}'))
                put_('X_D0{K+,K-}', 'X_' + D + '{K-,K+}', sgf('D0{K+,K-}'))
                want[D + '{K-,pi+,pi0}'] = ('D0{K+,pi-,pi0}', '*'); want[Ks + '_width'] = ('K*(892)0_width', 1)
                if not forbid: want['a(1)(1260)-{sigma0,pi-}'] = ('a(1)(1260)+{sigma0,pi+}', '*')
                want[Ks + '_mass'] = ('K*(892)0_mass', 1); want['K(1)(1270)-::Spline::0'] = ('K(1)(1270)+::Spline::0', 1)
                def key(x):
                    pre, y = ('X_', x[2:]) if x.startswith('X_') else ('', x)
                    for sf in ('_Re', '_Im'):
                        if y.endswith(sf): return pre, canon(y[:-3]), sf
                    return pre, canon(y) if '{' in y else y, ''
                gk = {key(k): v for k, v in got.items()}; wk = {key(k): v for k, v in want.items()}
                for k in wk:
                    if k not in gk: return False, '%s coordinates: no charge conjugate of %s is added' % (coord, wk[k][0])
                for k in gk:
                    if k not in wk: return False, '%s coordinates: unexpected parameter "%s"' % (coord, ''.join(str(y) for y in k))
                for k, (src, sg) in wk.items():
                    t = ('app', 'linked', S(src)); v = gk[k]
                    if sg == '*': want_ = app('conj', t)
                    else: want_ = mul(num(sg), t)
                    c = True if v == want_ else False if sg == '*' and v in (t, neg(t)) else numw.agree(v, want_, funcs=('linked',))[0]
                    if c is None: raise Undecided('conjugate of %s is %s' % (src, show(v)[:80]))
                    if c is False: return False, '%s coordinates: the conjugate of %s is %s' % (coord, src, show(v)[:80])
                    n += 1
        return True, '%d parameters' % n
    deed('charge conjugate couplings link to the original with the CP sign', ac, conj)
