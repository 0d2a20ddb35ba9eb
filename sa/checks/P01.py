"""Particle data: quark content, antiparticles, names, spins and the particle table.  Member functions are abstracted on objects with symbolic fields;
textual quantum numbers are enumerated (the code only distinguishes the letters of its alphabet)."""
from ..value import *
from .. import extract, den, value as V
from ..run import where
from ..tensors import find, ground, field
from ..lib import pair
import itertools
ASSUMPTIONS = ['the code distinguishes the characters of a quark-content string only by the quark alphabet, case and the separators of superpositions (data independence)', 'exact arithmetic (rounding ignored)']
SRC = ['src/QuarkContent.cpp', 'src/ParticleProperties.cpp', 'src/ParticlePropertiesList.cpp', 'src/Utilities.cpp']
ARR = ('list',)
QN = 'dusc' + 'bt'
def qstate(vals): return ('obj', 'AmpGen::QuarkState', (('m_quarks', ('list',) + tuple(num(v) if isinstance(v, int) else v for v in vals)),))
def qcontent(states): return ('obj', 'AmpGen::QuarkContent', (('m_quarks', ('list',) + tuple(qstate(s) for s in states)),))
def rdstate(o):
    if o[0] != 'obj' or o[1] != 'AmpGen::QuarkState': raise Undecided('not a quark state: %s' % show(o)[:80])
    q = field(o, 'm_quarks')
    if q[0] == 'fill' and as_num(q[1]) is not None: q = ('list',) + (q[2],) * int(as_num(q[1]))
    if q[0] != 'list' or len(q) != 7: raise Undecided('quarks: %s' % show(q)[:80])
    return list(q[1:])
def rdcontent(o):
    if o[0] != 'obj' or o[1] != 'AmpGen::QuarkContent': raise Undecided('not a quark content: %s' % show(o)[:80])
    q = field(o, 'm_quarks')
    if q[0] == 'fill' and as_num(q[1]) is not None: q = ('list',) + (q[2],) * int(as_num(q[1]))
    if q[0] != 'list': raise Undecided('states: %s' % show(q)[:80])
    return [rdstate(x) for x in q[1:]]
N = V.Norm() if hasattr(V, 'Norm') else None
def eq(a, b): 
    if a == b: return True
    if a[0] == 'n' and b[0] == 'n': return False
    from .. import numw
    r = numw.agree(a, b, None)
    return r[0] if isinstance(r, tuple) else r
def alleq(xs, ys):
    if len(xs) != len(ys): return False
    r = [eq(a, b) for a, b in zip(xs, ys)]
    return False if False in r else None if None in r else True

FIELDS = ['m_mass', 'm_mErrPlus', 'm_mErrMinus', 'm_width', 'm_wErrPlus', 'm_wErrMinus', 'm_radius', 'm_Gparity', 'm_parity', 'm_Cparity', 'm_pdgID', 'm_Rexist', 'm_charge', 'm_twoSpin', 'm_isospin', 'm_name', 'm_texName', 'm_chargeString', 'm_Aformat', 'm_status', 'm_quarkContent', 'm_isValid', 'm_customName']
def props(**kw):
    d = {k: sym(k) for k in FIELDS}
    d.update({'m_isospin': S('1/2'), 'm_name': S('K'), 'm_texName': S('tex'), 'm_chargeString': S('+'), 'm_Aformat': num(ord('B')), 'm_status': num(ord('R')), 'm_isValid': TRUE, 'm_customName': FALSE, 'm_twoSpin': num(0), 'm_quarkContent': qcontent([[sym('q%d' % i) for i in range(6)]])})
    for k, v in kw.items(): d['m_' + k] = v
    return ('obj', 'AmpGen::ParticleProperties', tuple(sorted(d.items())))

def check(ctx):
    P = extract.load(SRC)
    ov = {}
    def m(): return Machine(P, ov, limit=400, max_unroll=200, hooks={"static_init": True})
    def fn(q, n=None, types=None):
        r = find(P, q, types, n)
        return r[0] if r else None
    def deed(name, f, g, anchor='src'):
        if f is None: ctx.unknown(name, anchor, 'not found'); return
        ctx.saw('functions', f['q'])
        try:
            r = g(f)
            ok, why = r if isinstance(r, tuple) else (r, '')
            ctx.decide(name, ok, where(f), why)
        except Undecided as e: ctx.unknown(name, where(f), e)
    qs = [sym('q%d' % i) for i in range(6)]; rs = [sym('r%d' % i) for i in range(6)]
    def res(got, want): return (alleq(got, want), 'gives %s instead of %s' % (', '.join(show(x) for x in got)[:150], ', '.join(show(x) for x in want)[:150]))
    QS, QC, PP = 'AmpGen::QuarkState::', 'AmpGen::QuarkContent::', 'AmpGen::ParticleProperties::'
    # ---- quark states
    deed('antiparticle of a quark state', fn(QS + 'antiThis'), lambda f: res(rdstate(m().function(f, [], qstate(qs))['this']), [neg(q) for q in qs]))
    for op, c in (('+', add), ('-', V.sub)):
        deed('quark state %s=' % op, fn(QS + 'operator%s=' % op), lambda f: res(rdstate(m().function(f, [qstate(rs)], qstate(qs))['this']), [c(a, b) for a, b in zip(qs, rs)]))
        deed('quark state %s' % op, fn(QS + 'operator' + op, 1), lambda f: res(rdstate(m().function(f, [qstate(rs)], qstate(qs))['ret']), [c(a, b) for a, b in zip(qs, rs)]))
    base = [1, 0, -1, 2, 0, 0]
    for q_, neg_ in (('operator==', False), ('operator!=', True)):
        deed('%s of equal quark states' % q_, fn(QS + q_), lambda f: ground(m().function(f, [qstate(base)], qstate(base))['ret'], FALSE if neg_ else TRUE))
        for i in range(6):
            o = list(base); o[i] += 1
            deed('%s of quark states that differ in %s' % (q_, QN[i]), fn(QS + q_), lambda f: ground(m().function(f, [qstate(o)], qstate(base))['ret'], TRUE if neg_ else FALSE))
    deed('the vacuum has no quarks', fn(QS + 'isVacuum'), lambda f: ground(m().function(f, [], qstate([0] * 6))['ret'], TRUE))
    for i in range(6):
        for v in (1, -1):
            o = [0] * 6; o[i] = v
            deed('a state with %s=%d is not the vacuum' % (QN[i], v), fn(QS + 'isVacuum'), lambda f: ground(m().function(f, [], qstate(o))['ret'], FALSE))
    def cnt(s): return [num(s.count(c) - s.count(c.upper())) for c in QN]
    for w in list(QN) + list(QN.upper()) + ['uD', 'sU', 'uud', 'UUD', 'csd', 'bB', 'u?d', 'ttT', 'x', '', '2uD', '(/2']:
        deed('quark state of "%s"' % w, fn(QS + 'QuarkState', 1), lambda f: res(rdstate(m().function(f, [S(w)])['this']), cnt(w)))
    # ---- superpositions
    tx = [('uD', ['uD']), ('(uU-dD)/sqrt(2)', ['uU', 'dD']), ('(uU+dD+sS)', None), ('uud', ['uud']), ('dS', ['dS']), ('(dS+sD)/sqrt(2)', ['dS', 'sD']), ('non-qQ', ['']), ('??', ['']), ('', [''])]
    for w, want in tx:
        if want is None: continue
        # states without net quark number are the vacuum and are not kept
        ws = [s for s in want if cnt(s) != [ZERO] * 6] or ['']
        def g(f):
            got = rdcontent(m().function(f, [S(w)])['this'])
            if len(got) != len(ws): return False, 'holds %d states instead of %d' % (len(got), len(ws))
            r = [alleq(a, cnt(b)) for a, b in zip(got, ws)]
            return (False if False in r else None if None in r else True), 'holds %s' % [[show(x) for x in a] for a in got]
        deed('quark content of "%s"' % w, fn(QC + 'QuarkContent', 1), g)
    deed('a default quark content is the vacuum', fn(QC + 'QuarkContent', 0), lambda f: (lambda c: (len(c) == 1 and alleq(c[0], [ZERO] * 6), ''))(rdcontent(m().function(f, [])['this'])))
    sts = lambda t, n: [[sym('%s%d_%d' % (t, k, i)) for i in range(6)] for k in range(n)]
    for op, c in (('+', add), ('-', V.sub)):
        for na, nb in ((1, 1), (1, 2), (2, 1), (2, 2), (3, 2)):
            A, B = sts('a', na), sts('b', nb)
            want = [[c(x, y) for x, y in zip(a, b)] for a in A for b in B]
            def same(got):
                if len(got) != len(want): return False, 'holds %d combinations instead of %d' % (len(got), len(want))
                # the order of combinations is immaterial
                left = list(range(len(want)))
                for gst in got:
                    k = next((i for i in left if alleq(gst, want[i])), None)
                    if k is None: return False, 'combination %s is not a %s b' % (', '.join(map(show, gst))[:120], op)
                    left.remove(k)
                return True, ''
            deed('quark content %s= of %d and %d states' % (op, na, nb), fn(QC + 'operator%s=' % op), lambda f: same(rdcontent(m().function(f, [qcontent(B)], qcontent(A))['this'])))
            deed('quark content %s of %d and %d states' % (op, na, nb), fn(QC + 'operator' + op, 1), lambda f: same(rdcontent(m().function(f, [qcontent(B)], qcontent(A))['ret'])))
    A = sts('a', 2)
    def g(f):
        got = rdcontent(m().function(f, [], qcontent(A))['this'])
        return (len(got) == 2 and all(alleq(x, [neg(y) for y in a]) for x, a in zip(got, A))) , 'gives %s' % [[show(x) for x in a] for a in got]
    deed('antiparticle of a superposition', fn(QC + 'antiThis'), g)
    u, d, s_ = [0, 1, 0, 0, 0, 0], [1, 0, 0, 0, 0, 0], [0, 0, 1, 0, 0, 0]
    for a, b, w in (([u], [u], 1), ([u], [d], 0), ([u, d], [d], 1), ([d], [u, d], 1), ([u, d], [s_], 0), ([u, d], [s_, d], 1), ([u, d], [s_, u], 1), ([s_, d, u], [u], 1)):
        for q_, x in (('operator==', w), ('operator!=', 1 - w)):
            deed('%s: quark contents %s and %s a state' % (q_, (a, b), 'share' if w else 'do not share'), fn(QC + q_), lambda f: ground(m().function(f, [qcontent(b)], qcontent(a))['ret'], TRUE if x else FALSE))
    # ---- antiparticles
    def fget(o, k): return field(o, k)
    for spin in range(0, 8):
        def g(f):
            p0 = props(twoSpin=num(spin), Aformat=num(ord('B')), chargeString=S('+'))
            r = m().function(f, [], p0); o = r['this']
            g0 = ground(r['ret'], TRUE)
            if g0 is not True: return g0, 'does not report success'
            for k in FIELDS:
                w = field(p0, k)
                if k in ('m_charge', 'm_pdgID') or (k == 'm_parity' and spin % 2 == 1): w = neg(w)
                got = fget(o, k)
                if k == 'm_chargeString':
                    if ground(got, S('-')) is not True: return ground(got, S('-')), 'charge of K+ becomes %s' % show(got)
                elif k == 'm_quarkContent':
                    e = alleq(rdcontent(got)[0], [neg(q) for q in qs])
                    if e is not True: return e, 'quark content %s' % show(got)[:100]
                else:
                    e = eq(got, w) if got[0] not in ('s', 'b') else got == w
                    if e is not True: return e, '%s becomes %s instead of %s' % (k, show(got), show(w))
            return True
        deed('antiparticle of a particle with 2J=%d' % spin, fn(PP + 'antiThis'), g)
    def g(f):
        p0 = props(Aformat=num(ord(' '))); r = m().function(f, [], p0)
        g0 = ground(r['ret'], FALSE)
        if g0 is not True: return g0, 'reports success'
        bad = [k for k in FIELDS if field(r['this'], k) != field(p0, k)]
        return (not bad), 'changes %s' % bad
    deed('a particle that is its own antiparticle is unchanged', fn(PP + 'antiThis'), g)
    for ch, w in (('+', '-'), ('-', '+'), ('++', '--'), ('0', '0'), ('', ''), ('--', '++')):
        deed('charge suffix "%s" of the antiparticle' % ch, fn(PP + 'antiThis'), lambda f: (lambda c: (ground(c, S(w)), 'becomes %s' % show(c)))(field(m().function(f, [], props(chargeString=S(ch)))['this'], 'm_chargeString')))
    def g(f):
        p0 = props(); r = m().function(f, [], p0)
        ok = eq(field(r['ret'], 'm_pdgID'), neg(sym('m_pdgID')))
        if ok is True: ok = field(r['this'], 'm_pdgID') == sym('m_pdgID')
        return ok, 'anti() gives id %s' % show(field(r['ret'], 'm_pdgID'))
    deed('anti() returns the antiparticle and leaves the particle alone', fn(PP + 'anti'), g)
    for a, w in (('B', 1), ('F', 1), (' ', 0)): deed('antiparticle format "%s"' % a, fn(PP + 'hasDistinctAnti'), lambda f: ground(m().function(f, [], props(Aformat=num(ord(a))))['ret'], TRUE if w else FALSE))
    # ---- names
    for a, pid, ch, cust, w in (('F', 321, '0', 0, 'K0'), ('F', -321, '0', 0, 'Kbar0'), ('B', -321, '-', 0, 'K-'), ('B', 321, '+', 0, 'K+'), (' ', 321, '', 0, 'K'), (' ', -321, '', 0, 'K'), ('F', -321, '0', 1, 'K')):
        deed('name for format %r, id %d, charge %r%s' % (a, pid, ch, ', own name' if cust else ''), fn(PP + 'name'), lambda f: (lambda c: (ground(c, S(w)), 'is %s instead of %s' % (show(c), w)))(m().function(f, [], props(Aformat=num(ord(a)), pdgID=num(pid), chargeString=S(ch), customName=TRUE if cust else FALSE))['ret']))
    # ---- spins
    for t in range(0, 8):
        p0 = props(twoSpin=num(t), pdgID=num(5))
        deed('2J=%d is a %s' % (t, 'fermion' if t % 2 else 'boson'), fn(PP + 'isFermion'), lambda f: ground(m().function(f, [], p0)['ret'], TRUE if t % 2 else FALSE))
        deed('2J=%d is %sa boson' % (t, 'not ' if t % 2 else ''), fn(PP + 'isBoson'), lambda f: ground(m().function(f, [], p0)['ret'], FALSE if t % 2 else TRUE))
        jn = str(t // 2) if t % 2 == 0 else '%d/2' % t
        deed('text of J for 2J=%d' % t, fn(PP + 'J'), lambda f: (lambda c: (ground(c, S(jn)), 'is %s instead of "%s"' % (show(c), jn)))(m().function(f, [], p0)['ret']))
    for t, w in ((0, 'S'), (2, 'V'), (4, 'T'), (6, 'H'), (1, 'f'), (3, 'r'), (5, 'e'), (7, 'c')):
        for sg in (1, -1):
            x = w if t % 2 == 0 or sg > 0 else w.upper()
            deed('spin name for 2J=%d of a%s' % (t, ' particle' if sg > 0 else 'n antiparticle'), fn(PP + 'spinName'), lambda f: (lambda c: (ground(c, S(x)), 'is %s instead of %s' % (show(c), x)))(m().function(f, [], props(twoSpin=num(t), pdgID=num(5 * sg)))['ret']))
    for t, pid, w in ((0, 5, [0]), (1, 5, [-1, 1]), (2, 5, [-1, 0, 1]), (2, 22, [-1, 1]), (4, 5, [-2, -1, 0, 1, 2]), (1, -5, [-1, 1]), (2, -5, [-1, 0, 1])):
        def g(f):
            c = m().function(f, [], props(twoSpin=num(t), pdgID=num(pid)))['ret']
            if c[0] != 'list' or any(x[0] != 'n' for x in c[1:]): raise Undecided('polarisations %s' % show(c)[:80])
            got = sorted(int(x[1]) for x in c[1:]); return got == w, 'are %s instead of %s' % (got, w)
        deed('polarisation states for 2J=%d, id %d' % (t, pid), fn(PP + 'polarisations'), g)
    for pid, ph, nu in ((22, 1, 0), (12, 0, 1), (-12, 0, 1), (14, 0, 1), (-16, 0, 1), (16, 0, 1), (-14, 0, 1), (11, 0, 0), (211, 0, 0), (13, 0, 0)):
        deed('id %d is %sa photon' % (pid, '' if ph else 'not '), fn(PP + 'isPhoton'), lambda f: ground(m().function(f, [], props(pdgID=num(pid)))['ret'], TRUE if ph else FALSE))
        deed('id %d is %sa neutrino' % (pid, '' if nu else 'not '), fn(PP + 'isNeutrino'), lambda f: ground(m().function(f, [], props(pdgID=num(pid)))['ret'], TRUE if nu else FALSE))
    # ---- comparison by id, and by name for states without id
    for a, b in ((1, 2), (2, 1), (3, 3), (-3, 3), (3, -3)):
        for q_, w in (('operator==', a == b), ('operator<', a < b), ('operator>', a > b), ('operator<=', a <= b), ('operator>=', a >= b)):
            deed('%s for ids %d, %d' % (q_, a, b), fn(PP + q_), lambda f: ground(m().function(f, [props(pdgID=num(b))], props(pdgID=num(a)))['ret'], TRUE if w else FALSE))
    for a, b in (('A', 'B'), ('B', 'A'), ('A', 'A')):
        for q_, w in (('operator==', a == b), ('operator<', a < b)):
            deed('%s for names %s, %s without id' % (q_, a, b), fn(PP + q_), lambda f: ground(m().function(f, [props(pdgID=num(0), name=S(b), customName=TRUE)], props(pdgID=num(0), name=S(a), customName=TRUE))['ret'], TRUE if w else FALSE))
    # ---- units of accessors
    from .. import numw
    for a, k in (('mass', 'm_mass'), ('mErrPlus', 'm_mErrPlus'), ('mErrMinus', 'm_mErrMinus'), ('width', 'm_width'), ('wErrPlus', 'm_wErrPlus'), ('wErrMinus', 'm_wErrMinus')):
        deed('%s() in natural units' % a, fn(PP + a), lambda f: res([m().function(f, [], props())['ret']], [mul(sym(k), ('n', Fr(1, 1000)))]))
    for a, k in (('G', 'm_Gparity'), ('P', 'm_parity'), ('C', 'm_Cparity'), ('R', 'm_Rexist'), ('pdgID', 'm_pdgID'), ('charge', 'm_charge'), ('radius', 'm_radius')):
        deed('%s() reads its own field' % a, fn(PP + a), lambda f: res([m().function(f, [], props())['ret']], [sym(k)]))
    # ---- table lines
    f18 = ['10.5', '1.5', '2.5', '3.5', '4.5', '5.5', '1/2', '+', '1', '-', '+', 'B', '321', '+', '7', 'R', 'K', 'uS']
    def line(**kw):
        l = list(f18)
        for k, v in kw.items(): l[int(k[1:])] = v
        return ' , '.join(l)
    def num_fields(o, want):
        for k, w in want.items():
            v = field(o, k)
            g0 = ground(v, w)
            if g0 is not True: return g0, '%s is %s instead of %s' % (k, show(v), show(w))
        return True, ''
    F_ = lambda x: ('n', Fr(x))
    std = {'m_mass': F_('10.5'), 'm_mErrPlus': F_('1.5'), 'm_mErrMinus': F_('2.5'), 'm_width': F_('3.5'), 'm_wErrPlus': F_('4.5'), 'm_wErrMinus': F_('5.5'), 'm_isospin': S('1/2'), 'm_Gparity': num(1), 'm_twoSpin': num(2), 'm_parity': num(-1), 'm_Cparity': num(1), 'm_pdgID': num(321), 'm_charge': num(1), 'm_Rexist': num(7), 'm_name': S('K'), 'm_chargeString': S('+'), 'm_isValid': TRUE}
    ct = fn(PP + 'ParticleProperties', 1)
    deed('fields of a table line', ct, lambda f: num_fields(m().function(f, [S(line())])['this'], std))
    for ch, w in (('+', 1), ('-', -1), ('0', 0), ('++', 2), ('--', -2)):
        deed('charge "%s"' % ch, ct, lambda f: num_fields(m().function(f, [S(line(_13=ch))])['this'], {'m_charge': num(w), 'm_chargeString': S(ch)}))
    for j, w in (('0', 0), ('1', 2), ('2', 4), ('3', 6), ('1/2', 1), ('3/2', 3), ('5/2', 5), ('?', -1)):
        deed('spin "%s" in the table' % j, ct, lambda f: num_fields(m().function(f, [S(line(_8=j))])['this'], {'m_twoSpin': num(w)}))
    deed('quark content of a table line', ct, lambda f: (alleq(rdcontent(field(m().function(f, [S(line())])['this'], 'm_quarkContent'))[0], cnt('uS')), ''))
    for a, w in (('B', 'B'), ('F', 'F'), ('', ' ')): deed('antiparticle format "%s" in the table' % a, ct, lambda f: num_fields(m().function(f, [S(line(_11=a))])['this'], {'m_Aformat': num(ord(w))}))
    for w, why in (('', 'empty'), ('* comment, with, commas', 'a comment'), (','.join(f18[:17]), 'short of one field'), (','.join(f18 + ['x']), 'one field too long')):
        deed('a line that is %s is not valid' % why, ct, lambda f: num_fields(m().function(f, [S(w)])['this'], {'m_isValid': FALSE}))
    def g(f):
        o = m().function(f, [S('')])['this']
        un = [k for k in ('m_Aformat', 'm_pdgID', 'm_charge', 'm_twoSpin', 'm_parity', 'm_mass', 'm_width') if any(x == k for x, _ in o[2]) and 'uninit' in show(field(o, k)) or not any(x == k for x, _ in o[2])]
        return (not un), 'leaves %s without a value' % un
    deed('particles defined without a table line have definite properties', ct, g)
    def setp(key, val, want):
        deed('property %s=%s' % (key, val), fn(PP + 'setProperty'), lambda f: num_fields(m().function(f, [S(key), S(val)], props())['this'], want))
    setp('mass', '1.5', {'m_mass': num(1500)}); setp('width', '0.25', {'m_width': num(250)}); setp('name', 'Z', {'m_name': S('Z')}); setp('spin', '2', {'m_twoSpin': num(4)}); setp('spin', '3/2', {'m_twoSpin': num(3)})
    setp('parity', '-', {'m_parity': num(-1)}); setp('charge', '+', {'m_charge': num(1)}); setp('charge', '0', {'m_charge': num(0)})
    deed('property quarks=uS', fn(PP + 'setProperty'), lambda f: (alleq(rdcontent(field(m().function(f, [S('quarks'), S('uS')], props())['this'], 'm_quarkContent'))[0], cnt('uS')), ''))
    # ---- the list: every valid line and its antiparticle is found by name and by id
    from .. import lib
    PL = 'AmpGen::ParticlePropertiesList::'
    def plist(**kw):
        d = {'m_theList': ('list',), 'm_byName': ('emptymap',), 'm_byID': ('emptymap',), 'm_latexLabels': ('emptymap',), 'm_fname': S(''), 'm_quasiStableThreshold': sym('qs')}
        d.update(kw); return ('obj', 'AmpGen::ParticlePropertiesList', tuple(sorted(d.items())))
    def lines(ls):
        def pf(mm, n, st, fr):
            c = lib.fval(mm, n['a'][1], st, fr)
            for l in ls: lib.callv(mm, c, [S(l)], st)
            return VOID
        return {'AmpGen::processFile': pf, 'AmpGen::fileExists': lambda mm, n, st, fr: TRUE}
    def entry(o):
        if o[0] != 'obj': raise Undecided('entry %s' % show(o)[:80])
        return o
    kp, pi0, bad = line(), line(_16='pi', _13='0', _12='111', _11=' '), line(_16='X', _12='9') + ',1'
    def g(f):
        mm = Machine(P, lines([kp, bad, pi0]), limit=400, max_unroll=200, hooks={'static_init': True})
        o = mm.function(f, [S('x')], plist(m_latexLabels=('gmap', ((num(321), lib.pair(S('K^+'), S('K^-'))),))))
        l = field(o['this'], 'm_theList')
        if l[0] != 'list': raise Undecided('list %s' % show(l)[:100])
        want = [(321, 'K', '+', 1, 'K^+'), (-321, 'K', '-', -1, 'K^-'), (111, 'pi', '0', 0, '')]
        if len(l) - 1 != len(want): return False, 'three particles (one with an antiparticle) give %d entries' % (len(l) - 1)
        for e, w in zip(l[1:], want):
            r = num_fields(entry(e), {'m_pdgID': num(w[0]), 'm_name': S(w[1]), 'm_chargeString': S(w[2]), 'm_charge': num(w[3]), 'm_texName': S(w[4])})
            if r[0] is not True: return r
        return True, ''
    deed('a table file gives each valid line and its antiparticle', fn(PL + 'readFile'), g, 'src/ParticlePropertiesList.cpp')
    L3 = ('list', props(pdgID=num(321), name=S('K'), chargeString=S('+'), Aformat=num(ord('B'))), props(pdgID=num(-321), name=S('K'), chargeString=S('-'), Aformat=num(ord('B'))), props(pdgID=num(111), name=S('pi'), chargeString=S('0'), Aformat=num(32)))
    keys = [('K+', 321), ('K-', -321), ('pi0', 111)]
    def ptrs(mp, o, st):
        if gitems(mp) is None: raise Undecided('map %s' % show(mp)[:80])
        return {k: v for k, v in gitems(mp)}
    def pid_of(mm, st, v):
        if v[0] != 'addr': raise Undecided('entry %s' % show(v)[:80])
        x = field(mm.rd(st, v[1]), 'm_pdgID')
        if x[0] != 'n': raise Undecided('id %s' % show(x)[:80])
        return int(x[1])
    def g(f):
        mm = m(); r = mm.function(f, [], plist(m_theList=L3))
        bn, bi = ptrs(field(r['this'], 'm_byName'), None, None), ptrs(field(r['this'], 'm_byID'), None, None)
        if len(bn) != 3 or len(bi) != 3: return False, '%d names and %d ids for three particles' % (len(bn), len(bi))
        for nm, i in keys:
            if S(nm) not in bn or num(i) not in bi: return False, '%s (%d) is not listed' % (nm, i)
            if pid_of(mm, r['st'], bn[S(nm)]) != i or pid_of(mm, r['st'], bi[num(i)]) != i: return False, '%s (%d) refers to another particle' % (nm, i)
        return True, ''
    deed('name and id of every particle lead to it', fn(PL + 'makeMappings'), g, 'src/ParticlePropertiesList.cpp')
    A1, A2 = ('addr', (('v', -11, 'p1'),)), ('addr', (('v', -12, 'p2'),))
    byn = ('gmap', ((S('K+'), A1), (S('K-'), A2))); byi = ('gmap', ((num(-321), A2), (num(321), A1)))
    for q_, arg, w in ((S('K+'), 's', A1), (S('K-'), 's', A2), (S('Z'), 's', NULL), (num(321), 'i', A1), (num(-321), 'i', A2), (num(5), 'i', NULL)):
        fs = [f for f in P.find(PL + 'find') if f.get('body') and ('string' in f['p'][0]['t']) == (arg == 's')]
        deed('lookup of %s' % show(q_), fs[0] if fs else None, lambda f: (lambda c: (ground(c, w), 'gives %s' % show(c)[:80]))(m().function(f, [q_, TRUE], plist(m_byName=byn, m_byID=byi))['ret']), 'src/ParticlePropertiesList.cpp')
    def g(f):
        mm = m(); root = ('v', -11, 'p1'); r = mm.function(f, [S('K+'), S('new')], plist(m_byName=byn, m_byID=byi), mem={root: props(pdgID=num(321), name=S('K'), chargeString=S('+'), Aformat=num(ord('B')))})
        bn = ptrs(field(r['this'], 'm_byName'), None, None)
        if S('new') not in bn: return False, 'the alias is not listed'
        if bn.get(S('K+')) != A1: return False, 'the original name no longer leads to the particle'
        o = mm.rd(r['st'], bn[S('new')][1]) if bn[S('new')][0] == 'addr' else bn[S('new')]
        if field(mm.rd(r['st'], (root,)), 'm_name') != S('K'): return False, 'the original particle is renamed'
        return num_fields(o, {'m_pdgID': num(321), 'm_name': S('new'), 'm_customName': TRUE, 'm_Aformat': num(32)})
    deed('an alias is a copy under its own name', fn(PL + 'makeAlias'), g, 'src/ParticlePropertiesList.cpp')
    def g(f):
        mm = m(); r = mm.function(f, [('list', S('Particle'), S('Q'), S('mass'), S('1.5'), S('spin'), S('2'), S('width'), S('0.25'))][:1], plist(m_byName=byn, m_byID=byi))
        bn = ptrs(field(r['this'], 'm_byName'), None, None)
        if S('Q') not in bn: return False, 'the particle is not listed'
        o = mm.rd(r['st'], bn[S('Q')][1]) if bn[S('Q')][0] == 'addr' else bn[S('Q')]
        return num_fields(o, {'m_name': S('Q'), 'm_mass': num(1500), 'm_twoSpin': num(4), 'm_width': num(250)})
    deed('a particle defined by the user has the properties given', fn(PL + 'addParticle'), g, 'src/ParticlePropertiesList.cpp')
    def g(f):
        mm = m(); root = ('v', -11, 'p1'); r = mm.function(f, [('list', S('Particle'), S('K+'), S('mass'), S('1.5'))], plist(m_byName=byn, m_byID=byi), mem={root: props(pdgID=num(321), width=num(7))})
        bn = ptrs(field(r['this'], 'm_byName'), None, None)
        if bn.get(S('K+')) != A1: return False, 'the name leads to another object'
        return num_fields(mm.rd(r['st'], (root,)), {'m_mass': num(1500), 'm_width': num(7)})
    deed('redefining a known particle changes the properties given', fn(PL + 'addParticle'), g, 'src/ParticlePropertiesList.cpp')
    # ---- the rest of the list
    LST = 'src/ParticlePropertiesList.cpp'
    def listed(f, q_, w, quiet):
        root = ('v', -31, 'table'); mm = Machine(P, {PL + 'getMe': lambda mm, n, st, fr: ('addr', (root,)), 'AmpGen::editDistance': lambda mm, n, st, fr: ZERO}, limit=400, max_unroll=200, hooks={'static_init': True})
        c = mm.function(f, [q_, quiet], mem={root: plist(m_byName=byn, m_byID=byi)})['ret']
        return ground(c, w), 'gives %s' % show(c)[:80]
    for q_, arg, w in ((S('K+'), 's', A1), (S('K-'), 's', A2), (S('Z'), 's', NULL), (num(321), 'i', A1), (num(-321), 'i', A2), (num(5), 'i', NULL)):
        fs = [f for f in P.find(PL + 'get') if f.get('body') and ('string' in f['p'][0]['t']) == (arg == 's')]
        for quiet in (TRUE, FALSE): deed('get of %s%s' % (show(q_), ', quietly' if quiet == TRUE else ''), fs[0] if fs else None, lambda f: listed(f, q_, w, quiet), LST)
    def g(f):
        mm = m(); c = mm.function(f, [], plist(m_byName=byn, m_byID=byi))['ret']
        if c[0] != 'list': raise Undecided('names %s' % show(c)[:80])
        return sorted(c[1:]) == sorted([S('K+'), S('K-')]), 'are %s' % show(c)[:80]
    deed('the names of the particles', fn(PL + 'getParticleNames'), g, LST)
    def g(f):
        mm = m(); c = mm.function(f, [], plist(m_byName=byn, m_byID=byi))['ret']
        if c[0] != 'list': raise Undecided('ids %s' % show(c)[:80])
        return sorted(c[1:]) == sorted([num(321), num(-321)]), 'are %s' % show(c)[:80]
    deed('the ids of the particles', fn(PL + 'getParticleIds'), g, LST)
    deed('the threshold is the one configured', fn(PL + 'quasiStableThreshold'), lambda f: res([m().function(f, [], plist())['ret']], [sym('qs')]), LST)
    for q_ in ('readFile', 'readLatexLabels'):
        def g(f):
            mm = Machine(P, dict(lines([]), **{'AmpGen::fileExists': lambda mm, n, st, fr: FALSE, 'AmpGen::processFile': lambda mm, n, st, fr: VOID}), limit=400, max_unroll=200, hooks={'static_init': True})
            r = mm.function(f, [S('x')], plist()); g0 = ground(r['ret'], FALSE)
            return g0, 'reports success'
        deed('%s reports a file that is missing' % q_, fn(PL + q_), g, LST)
        def g(f):
            mm = Machine(P, lines([kp] if q_ == 'readFile' else ['321 K^+ K^-']), limit=400, max_unroll=200, hooks={'static_init': True})
            return ground(mm.function(f, [S('x')], plist())['ret'], TRUE), 'does not report success'
        deed('%s reports a file that was read' % q_, fn(PL + q_), g, LST)
    def g(f):
        mm = Machine(P, lines(['321 K^+ K^-', '111 \\pi^0 \\pi^0', '-5 a b']), limit=400, max_unroll=200, hooks={'static_init': True})
        l = ptrs(field(mm.function(f, [S('x')], plist())['this'], 'm_latexLabels'), None, None)
        for k, a, b in ((321, 'K^+', 'K^-'), (111, '\\pi^0', '\\pi^0'), (-5, 'a', 'b')):
            if num(k) not in l: return False, 'id %d has no label' % k
            for w, s in ((a, 'first'), (b, 'second')):
                v = proj(l[num(k)], ('f', s)); g0 = ground(v, S(w))
                if g0 is not True: return g0, 'the %s label of %d is %s' % (s, k, show(v)[:60])
        return len(l) == 3, '%d labels' % len(l)
    deed('labels of a particle and its antiparticle', fn(PL + 'readLatexLabels'), g, LST)
    def g(f):
        mm = Machine(P, lines(['* a comment', '*' + kp, kp]), limit=400, max_unroll=200, hooks={'static_init': True})
        l = field(mm.function(f, [S('x')], plist())['this'], 'm_theList')
        if l[0] != 'list': raise Undecided('list %s' % show(l)[:100])
        return len(l) == 3, 'a file with one particle and two comments gives %d entries' % (len(l) - 1)
    deed('comments of a table file are no particles', fn(PL + 'readFile'), g, LST)
    # ---- the whole table: every file is looked for in every folder, and the mappings are made
    def table(f, present):
        got = []
        def pf(mm, n, st, fr):
            name = mm.rv(n['a'][0], st, fr)
            if name[0] != 's': raise Undecided('file name %s' % show(name)[:60])
            c = lib.fval(mm, n['a'][1], st, fr); got.append(name[1])
            for l in FILES[name[1].split('/')[-1]]: lib.callv(mm, c, [S(l)], st)
            return VOID
        def fe(mm, n, st, fr):
            name = mm.rv(n['a'][0], st, fr)
            if name[0] != 's': raise Undecided('file name %s' % show(name)[:60])
            return TRUE if name[1] in present else FALSE
        FILES = {'pdgID_to_latex.dat': ['321 K^+ K^-'], 'mass_width.csv': [kp], 'MintDalitzSpecialParticles.csv': [pi0]}
        ov_ = {'AmpGen::processFile': pf, 'AmpGen::fileExists': fe, PL + 'dirList': lambda mm, n, st, fr: ('list', S('/a/'), S('/a/options/')), 'ctor:AmpGen::NamedParameter': lambda mm, n, st, fr: mm.rv(n['a'][1], st, fr), 'AmpGen::NamedParameter::operator double': lambda mm, n, st, fr: mm.rd(st, mm.objpath(n, st, fr)), 'AmpGen::NamedParameter::operator T': lambda mm, n, st, fr: mm.rd(st, mm.objpath(n, st, fr))}
        mm = Machine(P, ov_, limit=400, max_unroll=200, hooks={'static_init': True})
        o = mm.function(f, [S('mass_width.csv')])['this']
        l = field(o, 'm_theList'); bn = ptrs(field(o, 'm_byName'), None, None)
        if l[0] != 'list': raise Undecided('list %s' % show(l)[:100])
        names = sorted(k[1] for k in bn)
        if names != ['K+', 'K-', 'pi0']: return False, 'with %s the table has %s' % (', '.join(present), names)
        tex = field(l[1], 'm_texName')
        if ground(tex, S('K^+')) is not True: return ground(tex, S('K^+')), 'the label of K+ is %s' % show(tex)[:60]
        return True, ''
    F3 = ['pdgID_to_latex.dat', 'mass_width.csv', 'MintDalitzSpecialParticles.csv']
    for nm, pr in (('the first folder', ['/a/' + x for x in F3]), ('the options folder', ['/a/options/' + x for x in F3]), ('both folders', ['/a/' + F3[0], '/a/options/' + F3[1], '/a/' + F3[2]])):
        deed('the table is read from %s' % nm, fn(PL + 'ParticlePropertiesList', 1), lambda f: table(f, pr), LST)
    # ---- letters of quarks
    for i in range(-1, 7):
        w = QN[i] if 0 <= i < 6 else 'X'
        deed('letter of quark %d' % i, fn(QS + 'nameFromPosition'), lambda f: (lambda c: (ground(c, num(ord(w))), 'is %s' % show(c)))(m().function(f, [num(i)], qstate([0] * 6))['ret']))
    # ---- further fields of a line
    deed('status of a table line', ct, lambda f: num_fields(m().function(f, [S(line())])['this'], {'m_status': num(ord('R'))}))
    for pid, w in ((421, 5), (-421, 5), (411, 5), (431, 5), (4122, 5), (-4122, 5), (321, Fr(3, 2)), (511, Fr(3, 2)), (4123, Fr(3, 2))):
        deed('effective radius of particle %d' % pid, ct, lambda f: res([field(m().function(f, [S(line(_12=str(pid)))])['this'], 'm_radius')], [('n', Fr(w))]))
    for a, b in (('A', 'B'), ('B', 'A')):
        for pa, pb in ((0, 5), (5, 0)):
            deed('operator< for names %s, %s with one id' % (a, b), fn(PP + 'operator<'), lambda f: ground(m().function(f, [props(pdgID=num(pb), name=S(b), customName=TRUE)], props(pdgID=num(pa), name=S(a), customName=TRUE))['ret'], TRUE if a < b else FALSE))
            deed('operator== for names %s, %s with one id' % (a, b), fn(PP + 'operator=='), lambda f: ground(m().function(f, [props(pdgID=num(pb), name=S(a), customName=TRUE)], props(pdgID=num(pa), name=S(a), customName=TRUE))['ret'], FALSE))
    def g(f):
        o = m().function(f, [S('wrong'), S('7')], props())['this']; bad = [k for k in FIELDS if field(o, k) != field(props(), k)]
        return (not bad), 'changes %s' % bad
    deed('an unknown property changes nothing', fn(PP + 'setProperty'), g)
