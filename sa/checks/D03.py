"""Words and units.  Every enumeration that is written as text: the enumerators come from the declaration, the texts from the abstraction of to_string and parse on every enumerator, on every word that
is nearly one and on every number around the range; the conversion factors of units are compared with their definition."""
from ..value import *
from .. import extract, den
from ..run import where
import time
ASSUMPTIONS = ['strtoul follows its documentation']
SRC = ['src/Units.cpp', 'src/MinuitParameter.cpp', 'src/Particle.cpp', 'src/Lineshapes/GenericKmatrix.cpp', 'src/ExpressionParser.cpp']
NS = 'AmpGen::'
UNITS = {'TeV': Fr(1000), 'GeV': Fr(1), 'MeV': Fr('1e-3'), 'KeV': Fr('1e-6'), 'eV': Fr('1e-9'), 'ms': Fr('1e6'), 'us': Fr(1000), 'ns': Fr(1), 'ps': Fr('1e-3'), 'fs': Fr('1e-6'), 'mm': Fr(1), 'um': Fr('1e-3'), 'nm': Fr('1e-6')}
def check(ctx):
    P = extract.load(SRC, root_stubs=True)
    M = Machine(P, den.overrides(), limit=60, max_unroll=200, budget=3000000, depth=40, hooks={'static_init': True, 'recur': 3})
    def run(f, args):
        M.budget = 3000000; M.deadline = time.time() + 60
        return M.function(f, args)['ret']
    def val(v):
        if v[0] == 'enum': return int(v[3])
        if v[0] == 'n': return int(v[1])
        raise Undecided('enumerator %s' % show(v)[:60])
    def base(t): return t.replace('const ', '').replace('&', '').strip()
    parses = {base(f.get('rt', '')): f for f in P.find(NS + 'parse') if len(f['p']) == 1}
    texts = {base(f['p'][0]['t']): f for f in P.find(NS + 'to_string') if len(f['p']) == 1}
    for T in sorted(set(parses) | set(texts)):
        e = P.enums.get(T)
        if e is None: continue
        es = [(a, int(b)) for a, b in (e['e'] if isinstance(e, dict) and 'e' in e else e.get('v') if isinstance(e, dict) else e)]
        vals = [(n, v) for n, v in es if n != 'Invalid']; inv = dict(es).get('Invalid'); ctx.saw('enumerations', T)
        sh = T.split('::')[-1]
        def deed(name, f, g):
            if f is None: ctx.unknown(name, T, 'not found'); return
            ctx.saw('functions', f['q'] + '<%s>' % sh)
            try: ok, why = g(f); ctx.decide(name, ok, where(f), why)
            except Undecided as x: ctx.unknown(name, where(f), x)
        def written(f):
            for n, v in vals:
                r = run(f, [('enum', T, n, v)])
                if r[0] != 's': raise Undecided('text of %s: %s' % (n, show(r)[:60]))
                if r[1] != n: return False, '%s::%s is written "%s"' % (sh, n, r[1])
            return True, '%d enumerators' % len(vals)
        def word(f, w, want, alt=()):
            r = run(f, [S(w)])
            if r[0] not in ('enum', 'n'): raise Undecided('"%s" is read as %s' % (w, show(r)[:60]))
            return None if val(r) == want or val(r) in alt else '"%s" is read as %s' % (w, dict((b, a) for a, b in es).get(val(r), val(r)))
        def read(f):
            for n, v in vals:
                b = word(f, n, v) or word(f, str(v), v)
                if b: return False, b
            return True, '%d enumerators' % len(vals)
        def reject(f):
            if inv is None: return True, 'no value stands for an error'
            names = {n for n, _ in vals} | {'Invalid'}; k = 0
            for w in [''] + [x for n, _ in vals for x in (n[:-1], n[1:], n + 'x', 'x' + n, n + ' ', ' ' + n, n.swapcase(), n + ',', '1' + n)] + ['%s, %s' % (vals[0][0], vals[-1][0]), ',', ' ', 'nothing', '1.5', '2x', str(len(es) - 1), str(len(es)), str(len(es) + 1), '99']:
                if w in names: continue
                b = word(f, w, inv); k += 1
                if b: return False, b
            return True, '%d words' % k
        deed('%s: each enumerator is written as its name' % sh, texts.get(T), written)
        deed('%s: each name and number is read as its enumerator' % sh, parses.get(T), read)
        deed('%s: anything else is invalid' % sh, parses.get(T), reject)
    td = (P.find(NS + 'to_double') or [None])[0]
    U = P.enums.get(NS + 'Units')
    if td is None or U is None: ctx.unknown('conversion factors', 'src/Units.cpp', 'not found')
    else:
        ctx.saw('functions', td['q'])
        try:
            bad = None; k = 0
            for n, v in (U['e'] if 'e' in U else U['v']):
                if n not in UNITS: continue
                r = run(td, [('enum', NS + 'Units', n, int(v))])
                if r[0] != 'n': raise Undecided('%s is %s' % (n, show(r)[:60]))
                k += 1
                if abs(r[1] / UNITS[n] - 1) > Fr(1, 10 ** 12): bad = 'one %s is %s' % (n, float(r[1])); break
            ctx.decide('conversion factors are those of the unit', bad is None, where(td), bad or '%d units' % k)
        except Undecided as x: ctx.unknown('conversion factors are those of the unit', where(td), x)
