#!/usr/bin/env python3
"""dev helper: mutcamp.py FILE [N] [FROM-TO] -- N random small edits of a source file, the checks of the properties anchored there run on each; prints the edits no check refutes"""
import sys, os, re, random, json, subprocess, shutil, tempfile
from concurrent.futures import ThreadPoolExecutor
f = sys.argv[1]; N = int(sys.argv[2]) if len(sys.argv) > 2 else 40
lo, hi = map(int, sys.argv[3].split('-')) if len(sys.argv) > 3 else (1, 10 ** 6)
only = sys.argv[4].split(',') if len(sys.argv) > 4 else None
J = int(os.environ.get('JOBS', '7')); random.seed(int(os.environ.get('SEED', '1')))
props = [json.loads(l) for l in open('/verif/properties.jsonl')]
man = json.load(open('/verif/MANIFEST.json'))
checks = only or sorted(p['id'] for p in props if f in json.dumps(p))
src = open('/repo/' + f).read(); lines = src.split('\n')
def mask(s):
    """comments and texts blanked"""
    out = list(s); i = 0
    while i < len(s):
        if s.startswith('//', i):
            j = s.find('\n', i); j = len(s) if j < 0 else j
        elif s.startswith('/*', i):
            j = s.find('*/', i); j = len(s) if j < 0 else j + 2
        elif s[i] == '"':
            j = i + 1
            while j < len(s) and s[j] != '"': j += 2 if s[j] == '\\' else 1
            j += 1
        elif s[i] == "'" and i + 2 < len(s) and (s[i + 2] == "'" or s[i + 1] == '\\'): j = s.find("'", i + 2) + 1
        else: i += 1; continue
        for k in range(i, min(j, len(s))):
            if out[k] != '\n': out[k] = ' '
        i = j
    return ''.join(out)
m = mask(src)
m = '\n'.join(' ' * len(l) if l.lstrip().startswith('#') or 'template' in l and 'operator' not in l and l.rstrip().endswith('>') or re.search(r'\b(INFO|DEBUG|WARNING|ERROR|FATAL|ADD_DEBUG)\b', l) else l for l in m.split('\n'))
muts = []
def add(a, b, new): muts.append((a, b, new))
R = [(r'(?<![<>=!-])<=(?!=)', ['<']), (r'(?<![<>=!-])>=(?!=)', ['>']), (r'(?<= )<(?= )', ['<=', '>']), (r'(?<= )>(?= )', ['>=', '<']), (r'==', ['!=']), (r'!=', ['==']), (r'(?<=[\w)\] ])\+(?![+=])(?<!\+\+)', ['-']), (r'(?<=[\w)\]] )-(?![->=])', ['+']), (r'(?<=[\w)\]])-(?=[\w(])(?!>)', ['+']),
     (r'(?<=[\w)\]] )\*(?= [\w(])', ['/']), (r'(?<=[\w)\]])\*(?=[\w(])', ['/']), (r'(?<=[\w)\]] )/(?= [\w(])', ['*']), (r'&&', ['||']), (r'\|\|', ['&&']), (r'\btrue\b', ['false']), (r'\bfalse\b', ['true']), (r'(?<![\w.])\d+(?![\w.])', None), (r'(?<![\w.])\d+\.\d*(?![\w])', None),
     (r'\.first\b', ['.second']), (r'\.second\b', ['.first']), (r'\breal\(', ['imag(']), (r'\bimag\(', ['real(']), (r'!(?=[\w(])', ['']), (r'\bcontinue;', [';']), (r'\bbreak;', [';']), (r'\+=', ['-=']), (r'-=', ['+=']), (r'\bsin\(', ['cos(']), (r'\bcos\(', ['sin(']), (r'\bbegin\(\)', ['end()'])]
for pat, news in R:
    for x in re.finditer(pat, m):
        if news is None:
            t = x.group(0)
            try: v = float(t)
            except ValueError: continue
            for nv in ([str(int(t) + 1)] + ([str(int(t) - 1)] if int(t) > 0 else []) if '.' not in t else [repr(v * 2 if v else 1.)]): add(x.start(), x.end(), nv)
        else:
            for nv in news: add(x.start(), x.end(), nv)
for x in re.finditer(r'^[ \t]+[^\n;{}#]*\b[^\n;{}]*;[ \t]*$', m, re.M):       # a statement removed
    t = x.group(0).strip()
    if re.match(r'(return|using|typedef|static|const|auto|double|int|unsigned|bool|std::|Expression|Tensor|size_t|break|continue|throw|[A-Z]\w*(<.*>)? +\w+ *[=;(])', t) or not re.search(r'[=(]', t): continue
    add(x.start() + len(x.group(0)) - len(x.group(0).lstrip()), x.end(), ';')
for x in re.finditer(r'\b(\w+)\( *(\w+) *, *(\w+) *\)', m):                   # two arguments swapped
    if x.group(2) != x.group(3): add(x.start(), x.end(), '%s(%s, %s)' % (x.group(1), x.group(3), x.group(2)))
line = lambda p: src.count('\n', 0, p) + 1
muts = sorted({u for u in muts if lo <= line(u[0]) <= hi and (src[u[0]:u[1]] != u[2])})
random.shuffle(muts); muts = muts[:N]
pool = []
for i in range(J):
    d = tempfile.mkdtemp(prefix='camp', dir='/tmp'); subprocess.check_call('tar -C /repo --exclude=./_build --exclude=./build --exclude=./.git -cf - . | tar -C %s -xf -' % d, shell=True); pool.append(d)
def one(u):
    d = pool.pop()
    try:
        open(d + '/' + f, 'w').write(src[:u[0]] + u[2] + src[u[1]:])
        res = []
        for c in checks:
            e = tempfile.mkdtemp(dir='/tmp')
            try: r = subprocess.run([sys.executable, '-m', 'sa.run', c], cwd='/verif', env=dict(os.environ, AMPGEN_REPO=d, VERIF_EVIDENCE=e), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=600)
            except subprocess.TimeoutExpired: res.append((c, 'timeout')); continue
            finally: shutil.rmtree(e)
            if r.returncode == 1: return u, 'killed', c
            und = re.search(r'(\d+) undecided', r.stdout)
            res.append((c, r.returncode, int(und.group(1)) if und else '?'))
        return u, 'invalid' if any(x[1] == 2 for x in res) else 'alive', res
    finally:
        open(d + '/' + f, 'w').write(src); pool.append(d)
try:
    cnt = {}
    with ThreadPoolExecutor(J) as ex:
        for u, s, why in ex.map(one, muts):
            cnt[s] = cnt.get(s, 0) + 1
            if s != 'killed':
                l = line(u[0]); print('%s %s:%d [%s -> %s] %s || %s' % (s, f, l, src[u[0]:u[1]][:60], u[2], ' '.join('%s=%s' % (x[0], x[-1]) for x in why if x[-1] != 0), lines[l - 1].strip()[:150]), flush=True)
    print(f, checks, cnt)
finally:
    for d in pool: shutil.rmtree(d, ignore_errors=True)
