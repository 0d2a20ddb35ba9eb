"""Driver:  python3 -m sa.run <PROPERTY> [--tier quick|thorough]

Exit 0: every obligation analysed is discharged (or undecided / listed as a known finding).
Exit 1: at least one obligation is refuted; prints VIOLATION property=<id> replay=<path>.
Exit 2: the analysis itself is broken (sources do not parse, anchors vanished)."""
import sys, os, json, time, importlib, traceback, shutil
sys.setrecursionlimit(60000)
import threading
threading.stack_size(512 * 1024 * 1024)
from . import extract, value
from .extract import AnalysisBroken, VERIF, REPO

class Ctx:
    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.obl = []          # (name, status, where, detail)
        self.analysed = {}     # kind -> set of names
        self.assumptions = []
        self.rule = ''
        self.notes = []
        self.prog = None
    def saw(self, kind, name): self.analysed.setdefault(kind, set()).add(name)
    def ok(self, name, where='', detail=''): self.obl.append((name, 'ok', where, detail))
    def bad(self, name, where, detail): self.obl.append((name, 'bad', where, detail))
    def unknown(self, name, where='', detail=''):
        if isinstance(detail, value.Fault): self.bad(name, where, str(detail)); return
        self.obl.append((name, 'unknown', where, detail))
    def decide(self, name, res, where='', detail=''):
        """res: True / False / None"""
        if res is True: self.ok(name, where)
        elif res is False: self.bad(name, where, detail)
        else: self.unknown(name, where, detail)
        return res

def where(fn):
    f = fn.get('file', '')
    return '%s:%s (%s)' % (os.path.relpath(f, REPO) if f.startswith('/') else f, fn.get('l', '?'), fn.get('q', '?'))

def known(pid):
    """known findings:  lines 'known: property=<id> key=<obligation name> :: text' ; 'fixed:' lines suppress nothing"""
    out = {}
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith('known: property=%s ' % pid):
                rest = line.split(' ', 2)[2]
                if rest.startswith('key='):
                    k, _, text = rest[4:].partition(' :: ')
                    out[k.strip()] = text.strip()
    return out

def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv: tier = sys.argv[sys.argv.index('--tier') + 1]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    mod = importlib.import_module('sa.checks.' + pid)
    ctx = Ctx(pid, tier)
    ctx.rule = ' '.join((mod.__doc__ or '').split())
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    ev = os.path.join(VERIF, 'evidence', pid + '.json')
    try: os.unlink(ev)
    except OSError: pass
    err = []
    def work():
        try: mod.check(ctx)
        except AnalysisBroken as e: err.append(e)
        except Exception as e:
            traceback.print_exc(file=sys.stdout); ctx.unknown('rest of the check', '', 'internal error: %r' % e)
    w = threading.Thread(target=work, daemon=True); w.start(); w.join(float(os.environ.get('SA_TIME', '700')))
    if w.is_alive():
        ctx.unknown('rest of the check', '', 'time limit'); ctx.obl = list(ctx.obl)
    try:
        if err: raise err[0]
        if not any(s in ('ok', 'bad') for _, s, _, _ in ctx.obl):
            raise AnalysisBroken('no obligation of %s could be decided; first: %s' % (pid, ctx.obl[:3]))
    except AnalysisBroken as e:
        print('ANALYSIS-BROKEN property=%s %s' % (pid, e)); return 2
    except Exception:
        traceback.print_exc()
        print('ANALYSIS-BROKEN property=%s internal error' % pid); return 2
    kf = known(pid)
    bad, kn = [], []
    for o in ctx.obl:
        if o[1] == 'bad': (kn if o[0] in kf else bad).append(o)
    n_ok = sum(1 for o in ctx.obl if o[1] == 'ok'); n_un = sum(1 for o in ctx.obl if o[1] == 'unknown')
    names = [o[0] for o in ctx.obl if o[1] == 'ok']
    cov = {
        'explanation': 'Static analysis of the working tree of %s. Rule: %s' % (REPO, ctx.rule),
        'obligations': len(ctx.obl), 'discharged': n_ok, 'undecided': n_un, 'refuted': len(bad), 'known_findings': len(kn),
        'analysed': {k: len(v) for k, v in ctx.analysed.items()},
        'analysed_names': {k: sorted(map(str, v))[:60] for k, v in ctx.analysed.items()},
        'samples': [{'obligation': o[0], 'status': o[1], 'where': o[2], 'detail': str(o[3])[:300]} for o in ctx.obl[:40]],
        'undecided_list': [{'obligation': o[0], 'where': o[2], 'why': str(o[3])[:200]} for o in ctx.obl if o[1] == 'unknown'][:60],
    }
    json.dump({'property': pid, 'tier': tier, 'seed': seed, 'level': getattr(mod, 'LEVEL', 'other'), 'coverage': cov,
               'assumptions': list(getattr(mod, 'ASSUMPTIONS', [])) + ctx.assumptions, 'wall_s': round(time.time() - t0, 2), 'violations': len(bad)}, open(ev, 'w'), indent=1)
    for o in kn: print('KNOWN-FINDING: property=%s %s: %s' % (pid, o[0], kf[o[0]]))
    print('%s: %d obligations, %d discharged, %d undecided, %d refuted, %d known (%s) %.1fs' % (pid, len(ctx.obl), n_ok, n_un, len(bad), len(kn), ', '.join('%s=%d' % (k, len(v)) for k, v in ctx.analysed.items()), time.time() - t0))
    if '-v' in sys.argv:
        for o in ctx.obl: print('  ', o[1], o[0], '|', o[2], '|', str(o[3])[:400])
    if bad:
        rp = os.path.join(VERIF, 'evidence', pid + '.violation.txt')
        with open(rp, 'w') as fh:
            for o in bad: fh.write('obligation: %s\nwhere: %s\nwhy: %s\n\n' % (o[0], o[2], o[3]))
            fh.write('re-run: cd /verif && python3 -m sa.run %s\n' % pid)
        for o in bad[:20]: print('  refuted: %s at %s : %s' % (o[0], o[2], str(o[3])[:600]))
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        return 1
    return 0

if __name__ == '__main__':
    res = []
    t = threading.Thread(target=lambda: res.append(main()))
    t.start(); t.join()
    sys.stdout.flush()
    os._exit(res[0] if res else 2)
