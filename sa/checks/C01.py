"""Thread pool.  Lock discipline and task accounting: the worker loop, enqueue and the shutdown are abstracted on every abstract state of the pool (number of queued tasks, stopped or not, enabled or not)
with locks, waits, notifications, joins and task calls as logged effects; guards are released where their scope ends."""
from ..value import *
from .. import extract, den
from ..run import where
from ..tensors import field
import time
ASSUMPTIONS = ['mutexes, condition variables, threads and packaged tasks behave as the standard says', 'the pool is not destroyed while another thread is still enqueueing']
NS = 'AmpGen::'
TP = NS + 'ThreadPool'
TU = [extract.VERIF + '/tools/tus/threads.cpp']
GUARDED = ('m_tasks', 'm_stop')
class Blocked(Exception): pass
class Pool(Machine):
    """guards held and effects, in order"""
    joined = ()
    def reset(self): self.guards = []; self.log = []
    @property
    def held(self): return any(g[1] for g in self.guards)
    def ev(self, *a): self.log.append(a + (self.held,))
    def scoped(self, g):
        k = len(self.guards)
        try: return g()
        finally: del self.guards[k:]
    def stmt(self, n, st, fr):
        if n is not None and n['k'] in ('block', 'for', 'rfor', 'while', 'do', 'if'): return self.scoped(lambda: Machine.stmt(self, n, st, fr))
        return Machine.stmt(self, n, st, fr)
    def run(self, *a, **k): return self.scoped(lambda: Machine.run(self, *a, **k))
    def rd(self, st, path):
        for p in path:
            if p[0] == 'f' and p[1] in GUARDED: self.ev('read', p[1]); break
        return Machine.rd(self, st, path)
    def wr(self, st, path, v):
        for p in path:
            if p[0] == 'f' and p[1] in GUARDED: self.ev('write', p[1]); break
        return Machine.wr(self, st, path, v)
LOCKS = ('unique_lock', 'lock_guard', 'scoped_lock')
def overrides():
    o = den.overrides()
    def ctor(kind):
        def h(m, n, st, fr):
            m.guards.append([kind, len(n['a']) < 2]); m.ev('lock'); return ('guard', len(m.guards) - 1)
        return h
    for k in LOCKS:
        for q in ('std::' + k,): o['ctor:' + q] = ctor(k)
        def lk(m, n, st, fr):
            v = m.rv(n['o'], st, fr)
            if v[0] != 'guard' or v[1] >= len(m.guards): raise Undecided('lock %s' % show(v)[:40])
            m.guards[v[1]][1] = True; m.ev('lock'); return VOID
        def ul(m, n, st, fr):
            v = m.rv(n['o'], st, fr)
            if v[0] != 'guard' or v[1] >= len(m.guards): raise Undecided('lock %s' % show(v)[:40])
            m.guards[v[1]][1] = False; m.ev('unlock'); return VOID
        o['std::%s::lock' % k] = lk; o['std::%s::unlock' % k] = ul
    def mlock(m, n, st, fr): m.guards.insert(0, ['mutex', True]); m.ev('lock'); return VOID
    def munlock(m, n, st, fr):
        for g in m.guards:
            if g[0] == 'mutex' and g[1]: g[1] = False; break
        m.ev('unlock'); return VOID
    o['std::mutex::lock'] = mlock; o['std::mutex::unlock'] = munlock
    def wait(m, n, st, fr):
        if not m.held: m.ev('wait without the lock')
        if len(n['a']) > 1:
            c = m.rv(n['a'][1], st, fr); v = m.truth(m.call_value(c, [], st))
            m.ev('wait', v)
            if v == TRUE: return VOID
            if v == FALSE: raise Blocked()
            raise Undecided('wait condition %s' % show(v)[:60])
        raise Undecided('wait without a condition')
    for q in ('std::condition_variable', 'std::_V2::condition_variable', 'std::_V2::condition_variable_any'):
        o[q + '::wait'] = wait
        for nm in ('notify_one', 'notify_all'): o[q + '::' + nm] = lambda m, n, st, fr, nm=nm: (m.ev(nm), VOID)[1]
    def runtask(m, n, st, fr):
        x = n['o'] if 'o' in n else n['a'][0]
        v = m.rv(x, st, fr)
        if v[0] == 'clo': m.ev('run', v); return m.call_value(v, [], st)
        m.ev('run', v); return VOID
    o['std::function::operator()'] = runtask
    def pt(m, n, st, fr):
        v = m.rv(n['o'] if 'o' in n else n['a'][0], st, fr); m.ev('invoke', strip(v)); return VOID
    o['std::packaged_task::operator()'] = pt
    o['std::packaged_task::get_future'] = lambda m, n, st, fr: ('app', 'future', strip(m.rv(n['o'], st, fr)))
    o['std::make_shared'] = lambda m, n, st, fr: ('app', 'task') + tuple(m.rv(a, st, fr) for a in n['a'])
    def front(m, n, st, fr):
        v = m.rv(n['o'], st, fr)
        if v == ('list',): m.ev('empty'); raise Undecided('front of an empty queue')
        return None
    for q in ('std::queue::front', 'std::queue::pop', 'std::deque::front', 'std::deque::pop_front'): o[q] = front
    def join(m, n, st, fr): v = m.rv(n['o'], st, fr); m.ev('join', v); m.joined += (strip(v),); return VOID
    o['std::thread::join'] = join
    o['std::thread::joinable'] = lambda m, n, st, fr: ('b', strip(m.rv(n['o'], st, fr)) not in m.joined)
    o[NS + 'NamedParameter::operator bool'] = lambda m, n, st, fr: m.enabled
    o[NS + 'NamedParameter::operator const bool &'] = lambda m, n, st, fr: m.enabled
    return o
def strip(t):
    while t[0] in ('deref', 'conv'): t = t[-1] if t[0] == 'conv' else t[1]
    return t
def check(ctx):
    P = extract.load(['src/ThreadPool.cpp'], extra_tus=TU)
    M = Pool(P, overrides(), limit=60, max_unroll=60, budget=300000, depth=30, hooks={'static_init': True, 'recur': 3}); M.reset(); M.enabled = TRUE
    one = lambda q, t=lambda f: True: next((f for f in P.find(TP + '::' + q) if f.get('body') is not None and t(f)), None)
    def pool(tasks=(), stop=FALSE, workers=()): return ('obj', TP, (('m_condition', sym('CV')), ('m_enableThreadPool', sym('ENABLE')), ('m_queue_mutex', sym('MUTEX')), ('m_stop', stop), ('m_tasks', ('list',) + tuple(tasks)), ('m_workers', ('list',) + tuple(workers))))
    def go(f, args, this, en=TRUE, again=False):
        M.reset(); M.joined = () if not again else M.joined; M.enabled = en; M.budget = 300000; M.deadline = time.time() + 60
        return M.function(f, args, this)
    def racy(log):
        for e in log:
            if e[0] in ('read', 'write') and not e[-1]: return '%s of %s without the lock' % (e[0], e[1])
            if e[0] == 'wait without the lock': return e[0]
    def deed(name, f, g):
        if f is None: ctx.unknown(name, 'src/ThreadPool.cpp', 'not found'); return
        ctx.saw('functions', f['q'])
        try: bad, n = g(f); ctx.decide(name, bad is None, where(f), bad or n)
        except Undecided as e: ctx.unknown(name, where(f), e)
    T = [sym('T%d' % i) for i in range(3)]
    # ---- the worker
    ctor = one('ThreadPool', lambda f: len(f['p']) == 1)
    def threads(f, n):
        r = go(f, [num(n)], pool()); w = field(r['this'], 'm_workers')
        if w[0] != 'list': raise Undecided('workers %s' % show(w)[:60])
        return r, w[1:]
    def started(f):
        for n in (0, 1, 2, 5):
            _, w = threads(f, n)
            if len(w) != n: return '%d threads are started for a pool of %d' % (len(w), n), ''
        return None, ''
    deed('a pool of n has n workers', ctor, started)
    def fresh(f):
        r = go(f, [num(1)], ('obj', TP, ())); v = field(r['this'], 'm_stop')
        if v not in (TRUE, FALSE): raise Undecided('m_stop is %s' % show(v)[:60])
        if v != FALSE: return 'a new pool is stopped from the start', ''
        return None, ''
    deed('a new pool is running', ctor, fresh)
    def worker(f):
        r, w = threads(f, 1)
        def clo(t):
            if t[0] == 'clo': return t
            for x in t[1:]:
                if isinstance(x, tuple):
                    c = clo(x)
                    if c: return c
        c = clo(w[0]) if w else None
        if c is None: raise Undecided('no worker')
        root = ('v', 920001, 'pool'); k = 0
        for stop in (FALSE, TRUE):
            for n in range(4):
                M.reset(); M.budget = 300000; M.deadline = time.time() + 60
                st = St({**r['st'].s}) if hasattr(r['st'], 's') else St()
                p = next((q for q, v in st.s.items() if v[0] == 'obj' and v[1] == TP), None)
                if p is None: raise Undecided('the pool of the worker')
                st.s[p] = pool(T[:n], stop)
                out = 'returns'
                what = 'with %d tasks queued%s' % (n, ' after the stop' if stop == TRUE else '')
                try: M.call_value(c, [], st)
                except Blocked: out = 'waits'
                except Undecided:
                    ran = [e[1] for e in M.log if e[0] == 'run']
                    if any(e[0] == 'empty' for e in M.log): return '%s a worker takes a task from the empty queue' % what, ''
                    if ran[:n + 1] != T[:n][:len(ran)] and len(ran) and all(x in T for x in ran): return '%s the worker runs %s' % (what, [show(x) for x in ran[:n + 1]]), ''
                    raise
                M.guards.clear()
                ran = [e[1] for e in M.log if e[0] == 'run']; k += 1
                b = racy(M.log)
                if b: return '%s: %s' % (what, b), ''
                if any(e[0] == 'run' and e[-1] for e in M.log): return '%s: a task runs while the lock is held' % what, ''
                if ran != T[:n]: return '%s the worker runs %s' % (what, [show(x) for x in ran]), ''
                if (out == 'returns') != (stop == TRUE): return '%s the worker %s' % (what, out), ''
        return None, '%d states' % k
    deed('a worker runs every queued task once, in order and outside the lock, waits for more and leaves only when stopped and drained', ctor, worker)
    # ---- enqueue
    enq = one('enqueue')
    def queued(f):
        for n in (0, 1, 2):
            r = go(f, [sym('F')], pool(T[:n])); q = field(r['this'], 'm_tasks'); log = M.log; ret = strip(r['ret'])
            if q[0] != 'list': raise Undecided('queue %s' % show(q)[:60])
            if len(q) != n + 2 or list(q[1:n + 1]) != T[:n]: return 'with %d tasks queued the queue becomes %s' % (n, show(q)[:80]), ''
            b = racy(log)
            if b: return b, ''
            wi = max((i for i, e in enumerate(log) if e[0] == 'write' and e[1] == 'm_tasks'), default=-1)
            if not any(e[0] in ('notify_one', 'notify_all') for e in log[wi + 1:]): return 'no worker is notified after the task is queued', ''
            task = ('app', 'task', sym('F'))
            if ret[0] != 'app' or ret[1] != 'future': raise Undecided('returns %s' % show(ret)[:60])
            M.reset(); M.call_value(q[-1], [], r['st']) if q[-1][0] == 'clo' else (_ for _ in ()).throw(Undecided('queued %s' % show(q[-1])[:60]))
            inv = [e[1] for e in M.log if e[0] == 'invoke']
            if len(inv) != 1: return 'the queued task is invoked %d times' % len(inv), ''
            if ('app', 'future', inv[0]) != ret: return 'the future returned is not that of the queued task', ''
            if inv[0] != task: return 'the task queued is %s' % show(inv[0])[:80], ''
        return None, '3 states'
    deed('enqueue adds one task at the end under the lock, notifies a worker and returns its future', enq, queued)
    def refused(f):
        r = go(f, [sym('F')], pool(T[:1], TRUE))
        if r['ret'] != BOTTOM: return 'a stopped pool accepts a task that nobody will run', ''
        q = field(r['this'], 'm_tasks') if r.get('this') else None
        return None, ''
    deed('a stopped pool refuses tasks', enq, refused)
    def direct(f):
        r = go(f, [sym('F')], pool(), FALSE); ret = strip(r['ret'])
        inv = [e[1] for e in M.log if e[0] == 'invoke']; q = field(r['this'], 'm_tasks')
        if q != ('list',): return 'a disabled pool queues tasks', ''
        if ret[0] != 'app' or ret[1] != 'future': raise Undecided('returns %s' % show(ret)[:60])
        if len(inv) != 1: return 'without threads the task of the returned future is invoked %d times' % len(inv), ''
        if ('app', 'future', inv[0]) != ret: return 'the future returned is not that of the task', ''
        return None, ''
    deed('without threads enqueue runs the task before it returns its future', enq, direct)
    # ---- shutdown
    W = [sym('W%d' % i) for i in range(3)]
    stopf = one('waitForStoppedThreads')
    def shutdown(f):
        for n in (0, 1, 3):
            r = go(f, [], pool(T[:2], FALSE, W[:n])); log = M.log
            ws = [i for i, e in enumerate(log) if e[0] == 'write' and e[1] == 'm_stop']
            if not ws: return 'the pool is never stopped', ''
            if not log[ws[0]][-1]: return 'm_stop is set without the lock', ''
            na = [i for i, e in enumerate(log) if e[0] == 'notify_all']; js = [i for i, e in enumerate(log) if e[0] == 'join']
            if n and (not na or na[-1] < ws[0]): return 'the workers are not notified after the stop', ''
            if n and any(i < na[0] for i in js): return 'a worker is joined before the workers are notified', ''
            if [strip(log[i][1]) for i in js] != W[:n]: return 'the workers joined are %s of %d' % ([show(log[i][1]) for i in js], n), ''
            if any(log[i][-1] for i in js): return 'a worker is joined while the lock it needs is held', ''
            last = js[-1] if js else -1
            for i, e in enumerate(log):
                if e[0] in ('read', 'write') and not e[-1] and i < last: return '%s of %s without the lock while workers run' % (e[0], e[1]), ''
            w = field(r['this'], 'm_workers')
            # what a second shutdown (the destructor) would join
            r2 = go(f, [], r['this'], again=True); again = [e for e in M.log if e[0] == 'join']
            if again: return 'a second shutdown (such as by the destructor) joins %s again' % show(again[0][1]), ''
        return None, '3 pools'
    deed('the shutdown stops the pool under the lock, wakes all workers and joins each exactly once', stopf, shutdown)
    dt = one('~ThreadPool')
    def destroyed(f):
        go(f, [], pool(T[:2], FALSE, W)); j = [strip(e[1]) for e in M.log if e[0] == 'join']
        return (None if j == W else 'the destructor joins %s' % [show(x) for x in j]), ''
    deed('the destructor joins every worker', dt, destroyed)
    def after(f):
        r = go(stopf, [], pool((), FALSE, W)); o = r['this']
        s = field(o, 'm_stop'); w = field(o, 'm_workers')
        if w[0] == 'list' and all(strip(x) in M.joined for x in w[1:]) and s == FALSE: return 'after the shutdown the pool has no workers but still accepts tasks', ''
        if s not in (TRUE, FALSE) or w[0] != 'list': raise Undecided('pool %s' % show(o)[:80])
        return None, ''
    deed('a pool without workers refuses tasks', stopf, after)
