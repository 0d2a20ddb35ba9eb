"""Kinematic building blocks.  The break-up momentum, the Blatt-Weisskopf barriers, the running width, the Breit-Wigner normalisation, the
polynomial and the phase-space factors are each abstracted to the term they denote and compared in normal form with their definition:
q2 = lambda(s,m1^2,m2^2)/4s, barrier(1) = 1, relative barrier = 1 at the reference momentum, running width = width0 (m/sqrt s)(q/q0)^(2L+1) relative barrier above threshold (so width(m^2) = width0) and 0 below."""
from ..value import *
from .. import extract
from ..shapes import *
from .. import shapes as H
from ..run import where

ASSUMPTIONS = ['exact arithmetic (rounding ignored)', 'the expression layer has the meaning established by X01 and X02']
x, m, w, r, z, z0, a, b = [E(sym(n)) for n in ('x', 'm', 'w', 'r', 'z', 'z0', 'a', 'b')]

def check(ctx):
    P = H.load()
    ov = H.overrides()
    def term(q, args, pick=None):
        fs = [f for f in P.find(q) if f.get('body') and len(f['p']) >= len(args) and (pick is None or pick(f))]
        if not fs: return None, None
        f = fs[0]
        args = [t(v) if not isinstance(v, list) else ('list',) + tuple(t(u) for u in v) for v in args]
        args += [NULL] * (len(f['p']) - len(args))
        return Machine(P, ov, limit=20).function(f, args)['ret'], f
    def ob(name, q, args, want, over=None, pick=None):
        try: got, f = term(q, args, pick)
        except Undecided as e: ctx.unknown(name, q, e); return
        if f is None: ctx.unknown(name, q, 'not found'); return
        ctx.saw('functions', f['q'])
        ok, why = compare(got, want, over)
        ctx.decide(name, ok, where(f), '%s; code has %s' % (why, show(got)[:200]))
    mass = {m.t: (1.1, 1.9)}
    ob('break-up momentum', 'AmpGen::Q2', [s, s1, s2], Q2(s, s1, s2))
    for L in range(5):
        ob('barrier L=%d' % L, 'AmpGen::BlattWeisskopf', [z, E(L)], barrier(z, L))
        ob('barrier at unit momentum L=%d' % L, 'AmpGen::BlattWeisskopf', [E(1), E(L)], E(1))
        ob('relative barrier L=%d' % L, 'AmpGen::BlattWeisskopf_Norm', [z, z0, E(L)], barrier_norm(z, z0, L))
        ob('relative barrier at its reference L=%d' % L, 'AmpGen::BlattWeisskopf_Norm', [z, z, E(L)], E(1))
        ob('relative barrier to zero momentum L=%d' % L, 'AmpGen::BlattWeisskopf_Norm', [z, E(0), E(L)], barrier_norm(z, E(0), L))
        q, q0 = abs_(Q2(s, s1, s2)) * r * r, abs_(Q2(x, s1, s2)) * r * r
        ob('barrier relative to s0, L=%d' % L, 'AmpGen::BL', [s, x, s1, s2, r, E(L)], sqrt(barrier(q, L) / barrier(q0, L)))
        ob('running width L=%d' % L, 'AmpGen::width', [s, s1, s2, m, w, r, E(L)], width(s, s1, s2, m, w, r, L), mass)
    ob('Breit-Wigner normalisation', 'AmpGen::kFactor', [m, w], kfactor(m, w))
    for n in range(4):
        cs = [E(sym('c%d' % k)) for k in range(n + 1)]
        ob('polynomial of degree %d' % n, 'AmpGen::pol', [x, cs], pol(x, cs))
    ob('two-body phase space', 'AmpGen::phsp_twoBody', [s, a, b], two_body(s, a, b))
    ob('two-body phase space, unequal masses', 'AmpGen::phsp_FOCUS', [s, a, b], focus(s, a, b))
    ob('four-pion phase space', 'AmpGen::phsp_fourPi', [s], four_pi(s))
    ob('coupling of a width', 'AmpGen::gFromGamma', [m, w, x], sqrt(m * w / x))
    for f in P.fns.values():
        if strip_targs(f['q']).endswith('blatt_weisskopf_sq') and f.get('body') and not f.get('dep'):
            L = next((int(v) for v in (f.get('ta') or []) if str(v).isdigit()), None)
            if L is None or L > 3: continue
            ob('barrier of the dispersive phase space L=%d (%s)' % (L, f['p'][0]['t'].replace('const ', '').replace('&', '').strip()), f['q'], [z], barrier(z, L), pick=lambda g, f=f: g is f)
    for n in (0, 1, 3): vec(ctx, P, ov, n)
    phase(ctx, P, ov)

def vec(ctx, P, ov, n):
    for q, sep in (('AmpGen::parameterVector', 'stem'), ('AmpGen::paramVector', 'stem')):
        for f in P.find(q):
            if not f.get('body'): continue
            try: v = Machine(P, ov, limit=20).function(f, [S('stem'), num(n)])['ret']
            except Undecided as e: ctx.unknown('parameter names', where(f), e); continue
            ctx.saw('functions', f['q'])
            want = ('list',) + tuple(par('stem%d' % k).t for k in range(n))
            ctx.decide('%s of %d parameters' % (q.split('::')[-1], n), v == want if v[0] == 'list' else None, where(f), show(v)[:200])

def phase(ctx, P, ov): pass
