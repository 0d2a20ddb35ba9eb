#!/usr/bin/env python3
"""dev helper: mutate.py CHECK FILE 'old' 'new' [n]  -- run a check on a scratch copy of /repo with one textual edit"""
import sys, os, subprocess, shutil, tempfile
chk, f, old, new = sys.argv[1:5]
idx = int(sys.argv[5]) if len(sys.argv) > 5 else None
d = tempfile.mkdtemp(prefix='mut', dir='/tmp')
try:
    subprocess.check_call(['rsync', '-a', '--exclude', '_build', '--exclude', '.git', '/repo/', d + '/']) if shutil.which('rsync') else subprocess.check_call('tar -C /repo --exclude=./_build --exclude=./.git -cf - . | tar -C %s -xf -' % d, shell=True)
    p = os.path.join(d, f); s = open(p).read()
    c = s.count(old)
    if c == 0: print('NO MATCH'); sys.exit(3)
    if c > 1 and idx is None: print('AMBIGUOUS', c); sys.exit(3)
    if idx is None: s = s.replace(old, new)
    else:
        i = -1
        for _ in range(idx + 1): i = s.index(old, i + 1)
        s = s[:i] + new + s[i + len(old):]
    open(p, 'w').write(s)
    for c in chk.split(','):
        r = subprocess.run([sys.executable, '-m', 'sa.run', c, '-v'], cwd='/verif', env=dict(os.environ, AMPGEN_REPO=d), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        out = [l for l in r.stdout.splitlines() if 'refuted:' in l or 'BROKEN' in l or 'Error' in l or 'error' in l]
        print('%s exit %d %s' % (c, r.returncode, ' | '.join(o.strip()[:170] for o in out[:2]) if out else r.stdout.split('\n')[0][:100]))
        if r.returncode == 0:
            for l in r.stdout.splitlines():
                if l.startswith('   unknown'): print('      ', l[11:60], '...', l.split('|')[-1][:260])
finally: shutil.rmtree(d)
