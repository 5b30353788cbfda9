"""C21: calls handed to an IO loop from another thread run once and report back."""
import threading
from concurrent.futures import TimeoutError as CTimeout
from sim import world
from sim.world import katcp, tornado
import katcp.ioloop_manager as km
from tornado import gen as tgen
from tornado.concurrent import Future as TFuture

ID = 'C21'
SHRINK = ['callers', 'loopcalls', 'stops', 'preempt']
RULE = ('1-4 threads call functions that return, raise, return futures, finish late or never, or block the loop, '
        'through a loop thread wrapper (directly, decorated, or as methods of a wrapped object) with all kinds '
        'of timeouts; calls from the loop thread itself; a managed loop is stopped by one or more threads with '
        'callbacks that return, raise or take time, joined and restarted; preemption at any line of katcp')
REAL = ['katcp.ioloop_manager', 'katcp.object_proxies', 'concurrent.futures', 'tornado ioloop/gen',
        'asyncio event loop']
STUB = ['poller', 'clock', 'OS threads (baton scheduler)']
RUNS = {'quick': 3000, 'thorough': 120000}
ASSUME = ['threads are preempted between lines of katcp code (not inside a builtin call)',
          'a loop is restarted only after it was joined']

KINDS = ['ret', 'ret', 'ret', 'raise', 'later', 'later', 'fail-later', 'coroutine', 'never', 'block',
         'raise-timeout', 'raise-gen-timeout', 'none']


def gen(rng, tier):
    T = rng.choice([0.3, 2.0])
    calm = rng.random() < 0.5
    default = None if calm or rng.random() < 0.6 else round(rng.choice([rng.uniform(0, T), 0.05]), 6)
    cycles = []
    nid = 0
    for _ in range(1 if tier == 'quick' and rng.random() < 0.6 else 2):
        callers = []
        for k in range(rng.choice([1, 2, 4])):
            for _ in range(rng.choice([1, 4, 12])):
                kind = rng.choice(KINDS)
                d = round(rng.choice([0, 0.0005, rng.uniform(0, T)]), 6)
                tmo = rng.choice([None, None, None, 0, 0.0005, 0.05, round(rng.uniform(0, T), 6)])
                if (not calm or kind == 'never') and default is None:
                    tmo = tmo if tmo is not None else round(rng.uniform(0, T), 6)
                callers.append([k, round(rng.choice([0, 0, 0.0005, rng.uniform(0, T / 3)]), 6), nid, kind, d, tmo,
                                rng.choice(['direct', 'direct', 'decorated', 'method'])])
                nid += 1
        loopcalls = []
        for _ in range(rng.choice([0, 0, 2])):
            loopcalls.append([round(rng.uniform(0, T), 6), nid, rng.choice(['direct', 'decorated', 'method', 'fresh'])])
            nid += 1
        stops = []
        for _ in range(rng.choice([1, 1, 2, 3])):
            stops.append([round(rng.choice([0, 0.0005, rng.uniform(0, T), rng.uniform(0, T)]), 6),
                          rng.choice([None, 'ret', 'raise', 'later', 'fail-later', 'later']),
                          round(rng.uniform(0, T / 2), 6), rng.choice([None, 1])])
        cycles.append([callers, loopcalls, stops, rng.random() < 0.5])
    sc = {'callers': [], 'loopcalls': [], 'stops': [], 'starts': [], 'calm': calm,
          'default': default,
          'net': {}, 'asyncio_loop': True,
          'preempt': world.gen_preempt(rng, rng.choice([0, 5, 20, 60]), hi=rng.choice([30, 300])),
          'preempt_files': rng.choice([None, ['ioloop_manager.py']]), 'horizon': 2000}
    for i, (c, l, s, w) in enumerate(cycles):
        sc['callers'] += [[i] + x for x in c]
        sc['loopcalls'] += [[i] + x for x in l]
        sc['stops'] += [[i] + x for x in s]
        sc['starts'].append(w)
    # or a loop of the user, run by a thread of his
    sc['user_loop'] = rng.random() < 0.25
    return sc


class Boom(Exception):
    pass


class Thing(object):
    """Object whose methods are called through the thread-safe wrapper."""
    def __init__(self, w):
        self.w = w
        self.plain = 'plain value'

    def method(self, nid, kind, d, timeout=None):
        return self.w.fn(nid, kind, d)


class World21(object):
    def __init__(self, sim, sc):
        self.sim, self.sc = sim, sc
        self.mgr = km.IOLoopManager(managed_default=True)
        self.execs = {}         # id -> [(stamp, t, thread ident)]
        self.calls = {}         # id -> record
        self.order = {}         # caller -> ids in the order they were called
        self.blocked = 0.0
        self.loop_threads = set()
        self.slack = 0.02 + sum(p[1] for p in sc.get('preempt') or ())
        self.slack += sum(x[5] for x in sc['callers'] if x[4] == 'block')

    def fn(self, nid, kind, d):
        sim = self.sim
        self.execs.setdefault(nid, []).append((sim.stamp(), sim.now, threading.get_ident()))
        sim.log('exec', nid, kind)
        if kind == 'ret':
            return ('value', nid)
        if kind == 'none':
            return None
        if kind == 'raise':
            raise Boom(nid)
        if kind == 'raise-timeout':
            raise CTimeout('mine %d' % nid)
        if kind == 'raise-gen-timeout':
            raise tgen.TimeoutError('mine %d' % nid)
        if kind == 'block':
            sim.fault('loop_blocked')
            sim.sleep(d)
            return ('value', nid)
        if kind == 'coroutine':
            return self.coro(nid, d)
        f = TFuture()
        if kind == 'later':
            self.loop.call_later(d, f.set_result, ('value', nid))
        elif kind == 'fail-later':
            self.loop.call_later(d, f.set_exception, Boom(nid))
        return f

    @tgen.coroutine
    def coro(self, nid, d):
        yield tgen.sleep(d)
        raise tgen.Return(('value', nid))

    def call(self, nid, kind, d, tmo, via):
        w = self.wrapper
        if via == 'fresh':              # a wrapper that was made just now
            return km.IOLoopThreadWrapper(self.loop).call_in_ioloop(self.fn, (nid, kind), {'d': d})
        if via == 'direct':
            return w.call_in_ioloop(self.fn, (nid, kind), {'d': d}, timeout=tmo)
        if via == 'decorated':
            def func(nid, kind, d, timeout=None):
                """Documented."""
                if timeout != tmo:
                    self.sim.violation('arguments', 'call %d: timeout %r passed, %r received' % (
                        nid, tmo, timeout))
                return self.fn(nid, kind, d)
            kw = {} if tmo is None else {'timeout': tmo}
            return w.decorate_callable(func)(nid, kind, d, **kw)
        thing = self.safe
        kw = {} if tmo is None else {'timeout': tmo}
        return thing.method(nid, kind, d, **kw)


class Caller(object):
    def __init__(self, w, key, steps):
        self.w, self.key, self.steps = w, key, steps
        self.pending = None
        self.thread = threading.Thread(target=self.guarded, name='caller%d' % key)

    def guarded(self):
        try:
            for st in self.steps:
                self.step(*st)
        except Exception as e:
            import traceback
            self.w.sim.violation('unexpected-exception', 'caller %d: %r\n%s' % (
                self.key, e, traceback.format_exc()[-800:]))

    def step(self, dt, nid, kind, d, tmo, via):
        w, sim = self.w, self.w.sim
        if dt:
            sim.sleep(dt)
        sim.ops_done += 1
        eff = tmo if tmo is not None else w.sc['default']
        rec = {'id': nid, 'kind': kind, 'd': d, 'timeout': eff, 'via': via, 't0': sim.now, 'g0': sim.stamp(),
               'how': None, 'up0': w.up, 'key': self.key}
        w.calls[nid] = rec
        self.pending = rec
        try:
            rec['value'] = w.call(nid, kind, d, tmo, via)
            rec['how'] = 'ok'
        except Exception as e:
            rec['value'] = e
            rec['how'] = 'raise'
        rec['t1'], rec['g1'], rec['up1'] = sim.now, sim.stamp(), w.up
        self.pending = None
        sim.log('called', nid, kind, rec['how'], type(rec['value']).__name__)


def run(sim, sc):
    w = World21(sim, sc)
    for i, wait in enumerate(sc['starts']):
        if not run_cycle(sim, sc, w, i, wait):
            break
    sim.sleep(1)
    judge(sim, w)


def run_cycle(sim, sc, w, i, wait):
    mgr = w.mgr
    if sc['user_loop']:
        mgr = w.mgr = km.IOLoopManager(managed_default=True)
        mgr.set_ioloop(world.SimIOLoop(make_current=False), managed=False)
    w.loop = mgr.get_ioloop()
    w.wrapper = km.IOLoopThreadWrapper(w.loop)
    if sc['default'] is not None:
        w.wrapper.default_timeout = sc['default']
    w.safe = km.ThreadSafeMethodAttrWrapper(Thing(w), w.wrapper)
    w.up = ('up', i)
    if sc['user_loop']:
        th = threading.Thread(target=w.loop.start, name='user loop')
        th.start()
    started = mgr.start(timeout=5 if wait else None)
    if wait and started is False:
        sim.violation('start', 'start(timeout=5) reported that the loop is not running')
    steps = {}
    for x in sc['callers']:
        if x[0] == i:
            steps.setdefault(x[1], []).append(x[2:])
    callers = [Caller(w, k, s) for k, s in sorted(steps.items())]
    t0 = sim.now
    # the loop thread, as seen by a plain callback
    w.loop.add_callback(lambda: w.loop_threads.add(threading.get_ident()))
    for x in sc['loopcalls']:
        if x[0] == i:
            sim.at(t0 + x[1], post, w, x[2], x[3])
    for c in callers:
        c.thread.start()
    stops = [Stopper(w, *x[1:]) for x in sc['stops'] if x[0] == i] or [Stopper(w, 0, None, 0, None)]
    if sc['calm']:
        for c in callers:
            c.thread.join(timeout=120 + w.slack)
            if c.thread.is_alive():
                r = c.pending
                sim.violation('call-hangs', 'call %d (%s, timeout %r) made at %.6f has not returned; executed: %r'
                              % (r['id'], r['kind'], r['timeout'], r['t0'], w.execs.get(r['id'])))
                return False
    if not sc['user_loop']:
        th = mgr._ioloop_thread
    for s in stops:
        s.thread.start()
    for s in stops:
        s.thread.join()
    t = sim.now
    if sc['user_loop']:
        for s in stops:
            if s.future is not None:
                try:
                    s.future.result(timeout=30 + w.slack)
                except Exception:
                    pass
        for c in callers:
            c.thread.join(timeout=60 + w.slack)
        w.loop.add_callback(w.loop.stop)
        th.join(timeout=30 + w.slack)
    mgr.join(timeout=30 + w.slack)
    if th.is_alive():
        sim.violation('join', 'the loop thread is alive %.1f s after the stops' % (sim.now - t))
        return False
    w.up = ('down', i)
    g_end = sim.stamp()
    for s in stops:
        s.check(sim, w, g_end)
    for c in callers:
        c.thread.join(timeout=60 + w.slack)
        if c.thread.is_alive():
            r = c.pending
            sim.violation('call-hangs', 'call %d (%s, timeout %r) made at %.6f has not returned' % (
                r['id'], r['kind'], r['timeout'], r['t0']))
            return False
    return True


def post(w, nid, via):
    """Call through the wrapper from the loop thread."""
    def go():
        w.sim.probe('calls from the loop thread')
        try:
            v = w.call(nid, 'ret', 0, None, via)
        except RuntimeError:
            if w.execs.get(nid):
                w.sim.violation('loop-call', 'call %d from the loop thread was refused but executed' % nid)
            return
        except Exception as e:
            w.sim.violation('loop-call', 'call %d from the loop thread ended with %r' % (nid, e))
            return
        w.sim.violation('loop-call', 'call %d from the loop thread returned %r' % (nid, v))
    try:
        w.loop.add_callback(go)
    except RuntimeError:
        pass


class Stopper(object):
    def __init__(self, w, t, kind, d, timeout):
        self.w, self.t, self.kind, self.d, self.timeout = w, t, kind, d, timeout
        self.began = self.ended = None
        self.future = None
        self.n = 0
        self.thread = threading.Thread(target=self.main, name='stopper')
        if getattr(w, 'stop_cycle', None) != w.up:
            w.stop_cycle, w.stoppers = w.up, []
        w.stoppers.append(self)

    def main(self):
        w, sim = self.w, self.w.sim
        try:
            if self.t:
                sim.sleep(self.t)
            sim.ops_done += 1
            self.t_call = sim.now
            self.g_call = sim.stamp()
            self.future = w.mgr.stop(timeout=self.timeout, callback=self.callback if self.kind else None)
            self.g_ret = sim.stamp()
            self.t_done = None
            self.future.add_done_callback(self.done)
        except Exception as e:
            sim.violation('stop-raises', 'stop() raised %r' % e)

    def done(self, f):
        self.t_done = self.w.sim.now
        self.g_done = self.w.sim.stamp()

    def callback(self):
        sim = self.w.sim
        self.n += 1
        self.began = sim.stamp()
        self.ident = threading.get_ident()
        if self.kind == 'raise':
            self.ended = sim.stamp()
            raise Boom('stop callback')
        if self.kind in ('later', 'fail-later'):
            return self.slow()
        self.ended = sim.stamp()

    @tgen.coroutine
    def slow(self):
        try:
            yield tgen.sleep(self.d)
        finally:
            self.ended = self.w.sim.stamp()
        if self.kind == 'fail-later':
            raise Boom('stop callback')

    def check(self, sim, w, g_end):
        if self.future is None:
            return
        what = 'stop() at %.6f with callback %r' % (self.t_call, self.kind)
        if not self.future.done():
            sim.violation('stop-future', '%s: its future has not resolved after join' % what)
        elif self.future.exception() is not None:
            sim.violation('stop-future', '%s: its future failed with %r' % (what, self.future.exception()))
        if self.n > 1:
            sim.violation('stop-callback', '%s: called %d times' % (what, self.n))
        if self.began is None:
            if self.kind and len(w.stoppers) == 1:
                sim.violation('stop-callback', '%s: the callback was not called' % what)
            return
        sim.probe('stop callbacks run')
        if self.ident not in w.loop_threads:
            sim.violation('thread', '%s: the callback ran in another thread' % what)
        # a second stop() may end the loop while the callback of the first is still busy
        if self.ended is None and not any(s.kind is None or s.ended is not None for s in w.stoppers
                                          if s is not self):
            sim.violation('stop-callback', '%s: the loop ended before its callback completed' % what)
        if self.future.done() and self.ended is not None and self.t_done is not None and \
                self.g_done < self.ended:
            sim.violation('stop-future', '%s: its future resolved before its callback completed' % what)


def judge(sim, w):
    for nid, ex in w.execs.items():
        if len(ex) > 1:
            sim.violation('executed-twice', 'call %d was executed %d times' % (nid, len(ex)))
        for g, t, ident in ex:
            if ident not in w.loop_threads:
                sim.violation('thread', 'call %d was executed outside the loop thread' % nid)
    by_caller = {}
    for nid, r in w.calls.items():
        judge_call(sim, w, r)
        if nid in w.execs:
            by_caller.setdefault(r['key'], []).append((r['g0'], w.execs[nid][0][0], nid))
    for k, items in by_caller.items():
        items.sort()
        ex = [g for _g0, g, _n in items]
        if ex != sorted(ex):
            sim.violation('order', 'calls of thread %d ran in the order %r' % (
                k, [n for _g0, _g, n in sorted(items, key=lambda i: i[1])]))


def judge_call(sim, w, r):
    what = 'call %d (%s, %s, timeout %r) made at %.6f' % (r['id'], r['kind'], r['via'], r['timeout'], r['t0'])
    if r['how'] is None:
        return
    ex = w.execs.get(r['id'])
    calm = w.sc['calm']
    v = r['value']
    kind, tmo = r['kind'], r['timeout']
    if calm and not ex:
        sim.violation('not-executed', '%s was never executed' % what)
        return
    if tmo is not None and r['t1'] > r['t0'] + tmo + w.slack:
        sim.violation('late-return', '%s returned at %.6f' % (what, r['t1']))
    if r['how'] == 'raise' and isinstance(v, CTimeout) and not (v.args and str(v.args[0]).startswith('mine')):
        if tmo is None:
            sim.violation('timeout', '%s timed out' % what)
        elif r['t1'] < r['t0'] + tmo - 1e-5:
            sim.violation('timeout-early', '%s timed out at %.6f' % (what, r['t1']))
        elif ex and kind != 'never' and calm:
            dt = r['d'] if kind in ('later', 'fail-later', 'coroutine', 'block') else 0
            if ex[0][1] + dt + w.slack < r['t0'] + tmo:
                sim.violation('false-timeout', '%s timed out although it finished at %.6f' % (
                    what, ex[0][1] + dt))
        sim.probe('calls timed out')
        return
    if not ex:
        if r['how'] == 'raise' and isinstance(v, RuntimeError) and not calm:
            sim.probe('calls refused')      # the loop was stopped
            return
        sim.violation('not-executed', '%s ended with %r without being executed' % (what, v))
        return
    want = {'ret': ('ok', ('value', r['id'])), 'none': ('ok', None), 'block': ('ok', ('value', r['id'])),
            'later': ('ok', ('value', r['id'])), 'coroutine': ('ok', ('value', r['id'])),
            'raise': ('raise', Boom), 'fail-later': ('raise', Boom), 'raise-timeout': ('raise', CTimeout),
            'raise-gen-timeout': ('raise', tgen.TimeoutError)}.get(kind)
    good = want is not None and r['how'] == want[0]
    if good:
        good = v == want[1] if want[0] == 'ok' else type(v) is want[1]
        if good and kind in ('raise', 'fail-later'):
            good = v.args == (r['id'],)
    if not good:
        sim.violation('wrong-result', '%s ended with %s %r' % (what, r['how'], v))
    if kind in ('later', 'fail-later', 'coroutine') and r['t1'] < ex[0][1] + r['d'] - 1e-4:
        sim.violation('wrong-result', '%s ended at %.6f before its future resolved' % (what, r['t1']))
    sim.probe('calls answered')
