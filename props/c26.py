"""C26: waits resolve if and only if their condition is met in time."""
from sim import world
from sim.world import katcp, tornado
import katcp.core as kc
import katcp.resource as kr
from tornado import gen as tgen
from tornado.concurrent import Future as TFuture
from props import waitlib as W
from props import clientlib as K
from props import reslib as L
from katcp import resource_client as RC
from katcp import inspecting_client as IC

ID = 'C26'
SHRINK = ['ops']
RULE = ('many overlapping waits of every kind (events, states, any/some/cumulative timeouts, sensor values '
        'and conditions, client running/connected/protocol) with no, zero, short and boundary timeouts '
        'against conditions that come, go and revert at the same instants, connections that are refused, '
        'lost and remade, a stalled loop, and resources, containers, inspecting clients and sync monitors on '
        'scripted devices that come, go, change and fail')
REAL = ['katcp.core (AsyncEvent, AsyncState, until_any, until_some, future_timeout_manager)',
        'katcp.resource (KATCPSensor.wait)', 'katcp.client', 'katcp.inspecting_client', 'katcp.resource_client (until_*, monitor_resource_sync_state)',
        'tornado ioloop/gen/iostream']
STUB = ['TCP sockets and poller', 'clock', 'servers (scripted)', 'sensor manager']
RUNS = {'quick': 3000, 'thorough': 120000}
ASSUME = []

STATES = ['a', 'b', 'c', 'd']
SSTAT = ['nominal', 'warn', 'error', 'unknown']


def gen_timeout(rng, grid, T):
    r = rng.random()
    if r < 0.3:
        return None
    if r < 0.37:
        return 0
    if r < 0.42:
        return rng.choice([0.0005, -1.0])
    t = rng.choice([rng.uniform(0, T / 3), rng.uniform(0, T)])
    if grid:
        t = round(t / grid) * grid
    return round(t, 6)


def gen_core(rng, tier):
    T = rng.choice([0.5, 3.0, 60.0])
    grid = rng.choice([0, 0, T / 10, T / 30])

    def when(hi=T):
        t = rng.uniform(0, hi)
        return round(round(t / grid) * grid if grid else t, 6)
    ops = []
    for _ in range(rng.choice([3, 10, 30])):
        r = rng.random()
        if r < 0.35:
            ops.append([when(), 'event', rng.randrange(2), rng.choice(['set', 'set', 'clear', 'pulse'])])
        elif r < 0.75:
            ops.append([when(), 'state', rng.choice(STATES)])
        elif r < 0.95:
            ops.append([when(), 'future', rng.randrange(6), rng.choice(['ok', 'ok', 'ok', 'fail'])])
        else:
            ops.append([when(), 'stall', round(rng.choice([0.01, 0.2, T / 4]), 6)])
    # tight bursts: several changes in one turn of the loop
    for _ in range(rng.choice([0, 0, 1, 2])):
        t = when()
        for _ in range(rng.randint(2, 4)):
            ops.append([t, 'state', rng.choice(STATES)])
    for _ in range(rng.choice([1, 4, 12])):
        t = when()
        for _ in range(rng.choice([1, 1, 2, 3])):       # several waiters on the same condition
            kind = rng.choice(['set', 'state', 'in', 'in', 'any', 'some', 'mgr', 'anycond'])
            tmo = gen_timeout(rng, grid, T)
            if kind == 'set':
                arg = rng.randrange(2)
            elif kind == 'state':
                arg = rng.choice(STATES)
            elif kind == 'in':
                arg = rng.sample(STATES, rng.randint(1, 3))
            elif kind == 'any':
                arg = [rng.randrange(6) for _ in range(rng.randint(1, 3))]
            elif kind == 'some':
                arg = rng.sample(range(6), rng.randint(1, 4))
                arg = [arg, rng.choice([None, rng.randint(1, len(arg))]), rng.random() < 0.5]
            elif kind == 'anycond':
                arg = [rng.choice(['e0', 'e1', 'sa', 'sb', 'sc', 'sd']) for _ in range(rng.randint(1, 3))]
            else:
                arg = [rng.choice(['e0', 'e1', 'sa', 'sb', 'sc', 'sd']) for _ in range(rng.randint(1, 4))]
            ops.append([t, 'wait', kind, arg, tmo])
    # whoever is woken changes the condition on the spot and waits again
    for _ in range(rng.choice([0, 0, 1, 4])):
        chain = [[rng.choice(['none', 'clear', 'clear', 'set', 'state', 'state']), rng.randrange(2), rng.choice(STATES),
                  rng.choice(['e0', 'e1', 'sa', 'sb', 'sc', 'sd']), gen_timeout(rng, grid, T)]
                 for _ in range(rng.randint(2, 5))]
        for a, b in zip(chain, chain[1:]):
            if rng.random() < 0.5:          # undo it and wait for the same
                b[3] = a[3]
                if a[3][0] == 'e':
                    b[:2] = ['clear', int(a[3][1])]
                else:
                    b[0] = 'state'
        ops.append([when(), 'react', chain, None])
    ops.sort(key=lambda o: o[0])
    return {'world': 'core', 'ops': ops, 'T': T, 'horizon': 1000}


def gen_sensor(rng, tier):
    T = rng.choice([0.5, 3.0, 60.0])
    grid = rng.choice([0, 0, T / 10])

    def when():
        t = rng.uniform(0, T)
        return round(round(t / grid) * grid if grid else t, 6)
    ops = []
    for _ in range(rng.choice([3, 10, 30])):
        ops.append([when(), 'update', rng.choice(['nominal', 'nominal', 'warn', 'unknown']), rng.randint(0, 4)])
    if rng.random() < 0.3:
        ops.append([when(), 'stall', rng.choice([0.01, T / 4])])
    for _ in range(rng.choice([1, 4, 12])):
        t = when()
        for _ in range(rng.choice([1, 1, 3])):
            cond = rng.choice([['value', rng.randint(0, 4)], ['value', rng.randint(0, 4)],
                               ['gt', rng.randint(0, 4)], ['status', 'warn'], ['raise', rng.randint(0, 4)],
                               ['both', 'nominal', rng.randint(0, 4)]])
            ops.append([t, 'wait', cond, gen_timeout(rng, grid, T)])
    ops.sort(key=lambda o: o[0])
    return {'world': 'sensor', 'ops': ops, 'T': T, 'horizon': 1000}


def gen_client(rng, tier):
    ops = []
    T = rng.choice([3.0, 10.0])

    def when():
        return round(rng.uniform(0, T), 6)
    for _ in range(rng.randint(0, 5)):
        t = when()
        k = rng.choice(['reset', 'close', 'down', 'disconnect', 'blackhole', 'conndelay', 'stall', 'stop'])
        if k in ('reset', 'close'):
            ops.append([t, 'srv', k])
        elif k == 'down':
            ops.append([t, 'down'])
            ops.append([t, 'srv', 'reset'])
            ops.append([round(t + rng.uniform(0, 3), 6), 'up'])
        elif k == 'blackhole':
            ops.append([t, 'blackhole'])
            ops.append([t, 'srv', 'reset'])
            ops.append([round(t + rng.uniform(0, 2), 6), 'unblackhole'])
        elif k == 'conndelay':
            ops.append([t, 'conndelay', round(rng.uniform(0, 2), 3)])
        elif k == 'stall':
            ops.append([t, 'stall', rng.choice([0.01, 0.5])])
        elif k == 'stop':
            if rng.random() < 0.3:
                ops.append([t, 'stop'])
        else:
            ops.append([t, 'disconnect'])
    for _ in range(rng.choice([1, 4, 12])):
        t = rng.choice([0.0, when(), when(), rng.choice([o[0] for o in ops] or [0.0])])
        for _ in range(rng.choice([1, 1, 3])):
            ops.append([t, 'wait', rng.choice(['connected', 'connected', 'running', 'protocol', 'stopped']),
                        gen_timeout(rng, 0, T / 2)])
    ops.sort(key=lambda o: o[0])
    return {'world': 'client', 'ops': ops, 'T': T, 'greet': rng.choice(['mi', 'mi', 'm', 'none', 'v4']),
            'greet_delay': rng.choice([0, 0, 0.3]), 'net': world.gen_net(rng), 'start_at': rng.choice([0, 0, when()]),
            'client': {'timeout': 5.0, 'auto_reconnect': True, 'delay': rng.choice([0.1, 0.5])},
            'down': rng.random() < 0.2, 'horizon': 1000}


RES_WAITS = ['until_synced', 'until_not_synced', 'wait_connected', 'until_state disconnected',
             'until_state syncing', 'until_state synced']
IC_WAITS = ['until_synced', 'until_not_synced', 'until_data_synced', 'until_state']
CONT_WAITS = ['until_synced', 'until_not_synced', 'any disconnected', 'any syncing', 'any synced',
              'all disconnected', 'all syncing', 'all synced']
CHILD = ['m0', 'ant-1', 'x.y']


def gen_res(rng, tier):
    n = rng.randint(1, 3)
    hostile = rng.choice([0.0, 0.2])
    T = rng.choice([2.0, 10.0, 40.0])
    devs, ops = [], []
    for i in range(n + 1):
        s = L.gen_spec(rng, (CHILD[:n] + ['ic'])[i], 5000 + i, hostile=hostile, sync_timeout=2)
        if rng.random() < 0.15:
            s['down'] = True
            ops.append([rng.choice([0.2, 3.0]), 'up', i])
        devs.append(s)
        ops += L.gen_faults(rng, T, 0.0, i, dict(s['sensors']), dict(s['reqs']), 1.0)
    end = max([T] + [o[0] for o in ops]) + 0.01
    times = [o[0] for o in ops if o[1] != 'wait'] or [0.0]
    for _ in range(rng.choice([2, 8, 20])):
        t = rng.choice([0.0, round(rng.uniform(0, T), 6), rng.choice(times)])
        who = rng.choice(['cont', 'cont', 'ic'] + list(range(n)))
        ws = CONT_WAITS if who == 'cont' else IC_WAITS if who == 'ic' else RES_WAITS
        for _ in range(rng.choice([1, 1, 3])):
            ops.append([t, 'wait', who, rng.choice(ws), rng.randrange(5), gen_timeout(rng, 0, T / 2)])
    for i in range(n):
        names = sorted(devs[i]['sensors']) + [rng.choice(L.SN)]
        for name in names:
            if rng.random() < 0.8:
                ops.append([0.0, 'strat', i, name, rng.choice(['event', 'event', 'period 0.5', 'none'])])
        for _ in range(rng.choice([0, 5, 15])):
            t = rng.choice([round(rng.uniform(0, T), 6), rng.choice(times)])
            name = rng.choice(names + ['no.such'])
            if rng.random() < 0.5:
                ops.append([t, 'upd', i, name, rng.choice(SSTAT), rng.randrange(4)])
            else:
                ops.append([t, 'swait', i, name,
                            rng.choice([['status', rng.choice(SSTAT)], ['value', rng.randrange(4)]]),
                            gen_timeout(rng, 0, T / 2)])
    for _ in range(rng.choice([0, 1, 2])):
        ops.append([round(rng.uniform(0, T), 6), 'mon', rng.randrange(n),
                    rng.choice([None, None, round(rng.uniform(0, T * 2), 6)])])
    for i in range(n + 1):
        ops.append([round(end, 6), 'calm', i])
        ops.append([round(end, 6), 'ann', i])
        ops.append([round(end, 6), 'up', i])
    ops.sort(key=lambda o: o[0])
    return {'world': 'res', 'devs': devs, 'ops': ops, 'n': n, 'T': T, 'end': round(end + 170, 6),
            'net': world.gen_net(rng), 'sync_timeout': 2, 'resync': rng.choice([0.2, 1.0]),
            'horizon': 3600.0}


def gen(rng, tier):
    r = rng.random()
    if r < 0.4:
        return gen_core(rng, tier)
    if r < 0.6:
        return gen_sensor(rng, tier)
    if r < 0.8:
        return gen_client(rng, tier)
    return gen_res(rng, tier)


def run(sim, sc):
    {'core': run_core, 'sensor': run_sensor, 'client': run_client, 'res': run_res}[sc['world']](sim, sc)


class Base(object):
    def __init__(self, sim, sc):
        self.sim, self.sc = sim, sc
        self.loop = world.SimIOLoop()
        self.loop.make_current()
        self.watch = W.Watch(sim)
        self.waits = W.Waits(sim, self.watch)
        self.stalls = 0.0
        for o in sc['ops']:
            if o[1] == 'stall':
                self.stalls += o[2]
                sim.at(o[0], self.stall, o[2])
            else:
                sim.at(o[0], self.loop.add_callback, self.op, o[1], *o[2:])

    def stall(self, dt):
        self.sim.fault('loop_stall')
        self.loop.stall(dt)

    def op(self, kind, *args):
        self.sim.ops_done += 1
        self.sim.log('op', kind, args)
        getattr(self, 'op_' + kind)(*args)

    def finish(self, tail=2.0):
        sim = self.sim
        tmo = [o[-1] for o in self.sc['ops'] if o[1] == 'wait' and o[-1]]
        tmo += [sum(c[-1] or 0 for c in o[2]) for o in self.sc['ops'] if o[1] == 'react']
        end = max([o[0] for o in self.sc['ops']] + [0]) + max(tmo + [0]) + self.stalls + tail
        world.run_loop(sim, self.loop, end)
        self.watch.poll()
        return end


class CoreWorld(Base):
    def __init__(self, sim, sc):
        super(CoreWorld, self).__init__(sim, sc)
        self.ev = [kc.AsyncEvent(), kc.AsyncEvent()]
        self.st = kc.AsyncState(STATES)
        self.futs = [TFuture() for _ in range(6)]
        self.fut_done = {}
        for i, e in enumerate(self.ev):
            self.watch.add('e%d' % i, e.is_set)
        for s in STATES:
            self.watch.add('s' + s, lambda s=s: self.st.state == s)
        for i in range(6):
            self.watch.add('f%d' % i, lambda i=i: i in self.fut_done)
        self.somes = []
        self.anys = []

    def op_event(self, i, how):
        e = self.ev[i]
        if how == 'set':
            e.set()
        elif how == 'clear':
            e.clear()
        else:
            e.set()
            e.clear()

    def op_state(self, s):
        self.st.set_state(s)

    def op_react(self, chain, _):
        if not chain:
            return
        how, i, s, c, timeout = chain[0]
        if how == 'clear':
            self.ev[i].clear()
        elif how == 'set':
            self.ev[i].set()
        elif how == 'state':
            self.st.set_state(s)
        rec, f = self.waits.issue('until_set' if c[0] == 'e' else 'until_state', c, timeout,
                                  lambda: self.cond(c, timeout))
        if f is not None:
            self.sim.probe('waits by those woken')
            f.add_done_callback(lambda f: self.op_react(chain[1:], None))

    def op_future(self, i, how):
        if i in self.fut_done:
            return
        self.fut_done[i] = (self.sim.stamp(), self.sim.now, how)
        self.watch.poll()
        if how == 'ok':
            self.futs[i].set_result(i * 10)
        else:
            self.futs[i].set_exception(KeyError('f%d' % i))

    def cond(self, name, timeout=None):
        if name[0] == 'e':
            return self.ev[int(name[1])].until_set(timeout)
        return self.st.until_state(name[1], timeout)

    def op_wait(self, kind, arg, timeout):
        ws, st = self.waits, self.st
        if kind == 'set':
            ws.issue('until_set', 'e%d' % arg, timeout, lambda: self.ev[arg].until_set(timeout))
        elif kind == 'state':
            ws.issue('until_state', 's' + arg, timeout, lambda: st.until_state(arg, timeout=timeout))
        elif kind == 'in':
            name = 'in' + ''.join(arg)
            self.watch.add(name, lambda: st.state in arg)
            ws.issue('until_state_in', name, timeout, lambda: st.until_state_in(*arg, timeout=timeout))
        elif kind == 'anycond':
            name = 'any' + ','.join(arg)
            self.watch.add(name, lambda: any(self.watch.preds[a]() for a in arg))
            ws.issue('until_any', name, timeout,
                     lambda: kc.until_any(*[self.cond(a) for a in arg], timeout=timeout))
        elif kind == 'any':
            rec = {'arg': arg, 'timeout': timeout, 'g0': self.sim.stamp(), 't0': self.sim.now, 'done': None}
            self.anys.append(rec)
            f = kc.until_any(*[self.futs[i] for i in arg], timeout=timeout)
            f.add_done_callback(lambda f: rec.update(done=(self.sim.now, f.exception(), None if f.exception()
                                                           else f.result())))
        elif kind == 'some':
            ids, n, kw = arg
            rec = {'arg': arg, 'timeout': timeout, 'g0': self.sim.stamp(), 't0': self.sim.now, 'done': None}
            self.somes.append(rec)
            if kw:
                f = kc.until_some(done_at_least=n, timeout=timeout, **{'k%d' % i: self.futs[i] for i in ids})
            else:
                f = kc.until_some(*[self.futs[i] for i in ids], done_at_least=n, timeout=timeout)
            f.add_done_callback(lambda f: rec.update(done=(self.sim.now, f.exception(), None if f.exception()
                                                           else f.result())))
        else:
            self.sequence(arg, timeout)

    @tgen.coroutine
    def sequence(self, conds, timeout):
        """Several waits under one cumulative timeout."""
        t0 = self.sim.now
        mt = kc.future_timeout_manager(timeout)
        for c in conds:
            left = None if timeout is None else t0 + timeout - self.sim.now
            rec, f = self.waits.issue('maybe_timeout', c, left, lambda: mt(self.cond(c)))
            if f is None:
                return
            try:
                yield f
            except Exception:
                return


def run_core(sim, sc):
    w = CoreWorld(sim, sc)
    end = w.finish()
    w.waits.judge(end, w.stalls)
    for r in w.anys:
        judge_any(sim, w, r, end)
    for r in w.somes:
        judge_some(sim, w, r, end)


def judge_any(sim, w, r, end):
    ids = r['arg']
    hits = sorted((w.fut_done[i][0], w.fut_done[i][1], i) for i in set(ids) if i in w.fut_done)
    deadline = None if r['timeout'] is None else r['t0'] + max(0, r['timeout'])
    what = 'until_any(%s) from %.6f timeout %r' % (ids, r['t0'], r['timeout'])
    before = [h for h in hits if h[0] <= r['g0']]
    t_hit = None if not hits else max(r['t0'], hits[0][1])
    slack = w.stalls + W.EPS
    if r['done'] is None:
        if t_hit is not None and t_hit + slack < end and (deadline is None or t_hit < deadline - W.EPS):
            sim.violation('wait-hangs', '%s: future resolved at %.6f, the wait has not ended' % (what, t_hit))
        elif deadline is not None and deadline + slack < end:
            sim.violation('wait-hangs', '%s has not ended' % what)
        return
    t, exc, value = r['done']
    if isinstance(exc, tgen.TimeoutError):
        if deadline is None or t < deadline - 1e-4 or t > deadline + slack:
            sim.violation('timeout', '%s timed out at %.6f' % (what, t))
        elif t_hit is not None and t_hit < deadline - W.EPS:
            sim.violation('false-timeout', '%s timed out, a future resolved at %.6f' % (what, t_hit))
        return
    if t_hit is None:
        sim.violation('false-success', '%s ended with %r' % (what, r['done']))
        return
    if t > t_hit + slack:
        sim.violation('late-success', '%s ended at %.6f' % (what, t))
    cand = [h[2] for h in (before or hits[:1])]
    good = any((value == i * 10 and exc is None) if w.fut_done[i][2] == 'ok' else
               (isinstance(exc, KeyError) and exc.args == ('f%d' % i,)) for i in cand)
    if not good:
        sim.violation('wrong-result', '%s ended with %r / %r, resolved: %s' % (what, value, exc, hits))
    sim.probe('until_any')


def judge_some(sim, w, r, end):
    ids, n, kw = r['arg']
    if any(w.fut_done.get(i, (0, 0, ''))[2] == 'fail' for i in ids):
        if r['done'] is None and r['timeout'] is not None and \
                r['t0'] + r['timeout'] + w.stalls + W.EPS < end:
            sim.violation('wait-hangs', 'until_some(%s) has not ended' % ids)
        return
    n = len(ids) if n is None else n
    hits = sorted((w.fut_done[i][0], max(r['t0'], w.fut_done[i][1]), i) for i in ids if i in w.fut_done)
    deadline = None if r['timeout'] is None else r['t0'] + max(0, r['timeout'])
    what = 'until_some(%s, at least %d) from %.6f timeout %r' % (ids, n, r['t0'], r['timeout'])
    t_hit = hits[n - 1][1] if len(hits) >= n else None
    slack = w.stalls + W.EPS
    if r['done'] is None:
        if t_hit is not None and t_hit + slack < end and (deadline is None or t_hit < deadline - W.EPS):
            sim.violation('wait-hangs', '%s: resolved at %.6f, the wait has not ended' % (what, t_hit))
        elif deadline is not None and deadline + slack < end:
            sim.violation('wait-hangs', '%s has not ended' % what)
        return
    t, exc, value = r['done']
    if exc is not None:
        if not isinstance(exc, tgen.TimeoutError) or deadline is None or t < deadline - 1e-4 or \
                t > deadline + slack:
            sim.violation('timeout', '%s ended with %r at %.6f' % (what, exc, t))
        elif t_hit is not None and t_hit < deadline - W.EPS:
            sim.violation('false-timeout', '%s timed out, resolved at %.6f' % (what, t_hit))
        return
    key = {('k%d' % i if kw else k): i for k, i in enumerate(ids)}
    ok = isinstance(value, list) and len(value) >= n and len(set(k for k, v in value)) == len(value) and all(
        k in key and key[k] in w.fut_done and v == key[k] * 10 for k, v in value)
    if not ok:
        sim.violation('wrong-result', '%s resolved with %r' % (what, value))
    elif t_hit is None or t < t_hit - 1e-6:
        sim.violation('false-success', '%s resolved at %.6f' % (what, t))
    elif t > t_hit + slack:
        sim.violation('late-success', '%s resolved at %.6f' % (what, t))
    sim.probe('until_some')


# -- sensors ----------------------------------------------------------------
class Manager(object):
    resource_name = 'res'

    def __init__(self, sim):
        self.sim = sim

    def time(self):
        return self.sim.now

    def get_sampling_strategy(self, name):
        return ('event',)


class SensorWorld(Base):
    def __init__(self, sim, sc):
        super(SensorWorld, self).__init__(sim, sc)
        self.sensor = kr.KATCPSensor({'name': 'x', 'description': '', 'units': '', 'sensor_type': 0,
                                      'params': []}, Manager(sim))
        self.in_update = False

    def op_update(self, status, value):
        self.watch.poll()
        self.in_update = True
        self.sensor.set(self.sim.now, katcp.Sensor.STATUS_NAMES[status], value)
        self.in_update = False
        self.watch.poll()

    def test(self, cond):
        kind = cond[0]
        if kind == 'value':
            return lambda r: r.value == cond[1]
        if kind == 'gt':
            return lambda r: isinstance(r.value, int) and r.value > cond[1]
        if kind == 'status':
            return lambda r: r.status == cond[1]
        if kind == 'both':
            return lambda r: r.status == cond[1] and r.value == cond[2]
        return lambda r: r.value == cond[1]

    def op_wait(self, cond, timeout):
        name = repr(cond)
        test = self.test(cond)
        self.watch.add(name, lambda: test(self.sensor.reading))
        box = {'rec': None}

        def condition(reading):
            rec = box['rec']
            if self.in_update and rec is not None and rec['done'] is not None:
                self.sim.violation('reacts-after-end', 'the condition of %s was evaluated after the wait '
                                   'had ended (%s)' % (rec['desc'], rec['done'][2]))
            if cond[0] == 'raise' and test(reading):
                raise ValueError('condition failed')
            return test(reading)
        arg = cond[1] if cond[0] == 'value' else condition
        box['rec'], f = self.waits.issue('sensor.wait %s' % cond, name, timeout,
                                         lambda: self.sensor.wait(arg, timeout=timeout))
        box['rec']['queued'] = True     # first looked at in the loop's next turn


def run_sensor(sim, sc):
    w = SensorWorld(sim, sc)
    before = len(getattr(w.sensor, '_listeners', ()))
    end = w.finish()
    for r in w.waits.recs:
        if 'raise' in r['pred'] and r['done'] and r['done'][2].startswith('raise ValueError'):
            sim.probe('conditions that raise')
            r['done'] = (r['done'][0], r['done'][1], 'ok', None)
        w.waits.judge_one(r, end, w.stalls)
    pending = sum(1 for r in w.waits.recs if r['done'] is None)
    if len(getattr(w.sensor, '_listeners', ())) - before > pending:
        sim.violation('left-behind', '%d waits pending but %d listeners registered' % (
            pending, len(getattr(w.sensor, '_listeners', ())) - before))


# -- client -----------------------------------------------------------------
class WaitClientWorld(K.ClientWorld):
    watch = None
    started = False

    def do_stop(self):
        if self.started and self.cl.running():
            super(WaitClientWorld, self).do_stop()

    def event(self, kind, **kw):
        if self.watch:
            self.watch.poll()
        return super(WaitClientWorld, self).event(kind, **kw)


def run_client(sim, sc):
    ops = [o for o in sc['ops'] if o[1] != 'wait']
    box = {}
    watch = W.Watch(sim)
    w = WaitClientWorld(sim, dict(sc, ops=ops), start=False)
    w.watch = watch
    waits = W.Waits(sim, watch)
    cl = w.cl
    watch.add('connected', cl.is_connected)
    watch.add('running', cl.running)

    def start():
        w.started = True
        cl.start()
        watch.poll()
    if sc['start_at']:
        sim.at(sc['start_at'], w.loop.add_callback, start)
    else:
        start()
    proto = {'t': None}
    stopped = []

    def issue(kind, timeout):
        if not w.started:
            return              # needs its ioloop
        fn = getattr(cl, 'until_' + kind)
        if kind == 'stopped':
            if not cl.running():
                return          # its thread is not known until it runs
            rec = {'t0': sim.now, 'timeout': timeout, 'done': None}
            stopped.append(rec)
            cl.until_stopped(timeout=timeout).add_done_callback(
                lambda f: rec.update(done=(sim.now, f.exception())))
            return
        if kind == 'protocol':
            watch.add('protocol', lambda: proto_known(w))
        waits.issue('until_' + kind, kind, timeout, lambda: fn(timeout=timeout))
    for o in sc['ops']:
        if o[1] == 'wait':
            sim.at(o[0], w.loop.add_callback, issue, o[2], o[3])
    tmo = [o[-1] for o in sc['ops'] if o[1] == 'wait' and o[-1]]
    end = max([o[0] for o in sc['ops']] + [0]) + max(tmo + [0]) + 5 + w.stall_total()
    w.run(end)
    watch.poll()
    stalls = w.stall_total()
    for r in waits.recs:
        if r['pred'] == 'protocol':
            judge_protocol(sim, sc, w, waits, r, end, stalls)
        else:
            judge_connected(sim, w, waits, r, end, stalls)
    for r in stopped:
        if r['done'] and isinstance(r['done'][1], tgen.TimeoutError):
            if r['timeout'] is None or r['done'][0] < r['t0'] + max(0, r['timeout']) - 1e-4 or \
                    r['done'][0] > r['t0'] + max(0, r['timeout']) + stalls + W.EPS:
                sim.violation('timeout', 'until_stopped from %.6f timeout %r timed out at %.6f' % (
                    r['t0'], r['timeout'], r['done'][0]))
        elif r['done'] is None and r['timeout'] is not None and r['t0'] + r['timeout'] + stalls + 0.01 < end:
            sim.violation('wait-hangs', 'until_stopped from %.6f timeout %r has not ended' % (
                r['t0'], r['timeout']))


def judge_connected(sim, w, waits, r, end, stalls):
    """Connected is only looked at while running: the wait is for both."""
    waits.judge_one(r, end, stalls, eps=0.01)


def proto_known(w):
    return any(t for c in w.srv.conns for t in [1] if proto_time(w, c) is not None and proto_time(w, c) <= w.sim.now)


def proto_time(w, c):
    """When the line that tells the protocol version arrived in full at the client."""
    for rec in c.sent:
        if rec['line'].startswith((b'#version-connect katcp-protocol', b'#version ', b'#build-state')):
            # the line ends at its first terminator (the carriage return, if it has one)
            for t, n in c.delivered:
                if n >= rec['end'] - 1:
                    return t
    return None


def read_times(w, watch, slack):
    """Moments at which the client had certainly been able to read the version line."""
    conns = w.srv.conns
    hist = [h for h in watch.hist['connected']]
    for k, c in enumerate(conns):
        t = proto_time(w, c)
        if t is None:
            continue
        nxt = conns[k + 1].t_open if k + 1 < len(conns) else float('inf')
        for j, (g, a, v) in enumerate(hist):
            b = hist[j + 1][1] if j + 1 < len(hist) else float('inf')
            if v and c.t_open <= a < nxt and max(a, t) + slack < b:
                yield max(a, t)


def judge_protocol(sim, sc, w, waits, r, end, stalls):
    times = [proto_time(w, c) for c in w.srv.conns]
    times = [t for t in times if t is not None]
    deadline = None if r['timeout'] is None else r['t0'] + max(0, r['timeout'])
    what = 'until_protocol from %.6f timeout %r' % (r['t0'], r['timeout'])
    known = min(times) if times else None
    slack = stalls + 0.01
    if r['done'] is None:
        if deadline is not None and deadline + slack < end:
            sim.violation('wait-hangs', '%s has not ended' % what)
    elif r['done'][2] == 'ok':
        if known is None or known > r['done'][1]:
            sim.violation('false-success', '%s succeeded at %.6f, version received %r' % (
                what, r['done'][1], known))
    elif r['done'][2] == 'timeout':
        if deadline is None or r['done'][1] < deadline - 1e-4 or r['done'][1] > deadline + slack:
            sim.violation('timeout', '%s timed out at %.6f' % (what, r['done'][1]))
        elif any(t + slack < min(deadline, r['t0']) for t in read_times(w, waits.watch, slack)) and \
                w.cl.running() and not any(o[1] == 'stop' for o in sc['ops']):
            sim.violation('false-timeout', '%s timed out, version received at %.6f' % (what, known))
    else:
        sim.violation('wait-raises', '%s: %s' % (what, r['done'][2]))


# -- resources ----------------------------------------------------------------
@tgen.coroutine
def untimed(f):
    """Resource waits report a timeout by their result."""
    if (yield f) is not True:
        raise tgen.TimeoutError()


class ResWaitWorld(L.ResWorld):
    def build(self):
        sc, w = self.sc, self
        self.watch = W.Watch(self.sim)
        self.waits = W.Waits(self.sim, self.watch)
        self.mons = []

        class Container(RC.KATCPClientResourceContainer):
            def client_resource_factory(self, res_spec, parent, logger):
                res = RC.KATCPClientResourceContainer.client_resource_factory(
                    self, res_spec, parent, logger)
                w.configure(res)
                return res
        self.sobjs = []
        watch, orig = self.watch, kr.KATCPSensor.set

        def sset(self, *args, **kw):
            try:
                return orig(self, *args, **kw)
            finally:
                watch.poll()
        kr.KATCPSensor.set = sset
        self.sim.cleanup.append(lambda: setattr(kr.KATCPSensor, 'set', orig))
        clients = {}
        for d in self.devs[:sc['n']]:
            s = dict(self.spec_of(d))
            del s['name']
            clients[d.name] = s
        self.cont = Container({'name': 'cont', 'clients': clients})
        self.cont.set_ioloop(self.loop)
        self.res = [self.cont.children[L.esc(d.name)] for d in self.devs[:sc['n']]]
        for i, r in enumerate(self.res):
            for s in ('disconnected', 'syncing', 'synced'):
                self.watch.add('%d %s' % (i, s), lambda r=r, s=s: r.state == s)
            self.watch.add('%d not synced' % i, lambda r=r: r.state != 'synced')
            self.watch.add('%d connected' % i, lambda r=r: r.state != 'disconnected')
        ic = self.ic = IC.InspectingClientAsync('127.0.0.1', self.devs[-1].spec['port'], ioloop=self.loop)
        ic.sync_timeout = sc['sync_timeout']
        ic.initial_resync_timeout = sc['resync']
        self.ic_states = sorted(ic.valid_states)
        for k, s in enumerate(self.ic_states):
            self.watch.add('ic state %d' % k, lambda s=s: ic.state == s)
        self.watch.add('ic synced', lambda: ic.synced)
        self.watch.add('ic not synced', lambda: not ic.synced)
        self.watch.add('ic data synced', lambda: ic.state.data_synced)
        self.loop.add_callback(self.cont.start)
        self.loop.add_callback(ic.connect)

    def do_wait(self, who, kind, k, timeout):
        ws = self.waits
        if who == 'ic':
            ic = self.ic
            if kind == 'until_state':
                k %= len(self.ic_states)
                ws.issue('ic.until_state', 'ic state %d' % k, timeout,
                         lambda: ic.until_state(self.ic_states[k], timeout=timeout))
            else:
                ws.issue('ic.' + kind, 'ic' + kind[5:].replace('_', ' '), timeout,
                         lambda: getattr(ic, kind)(timeout=timeout))
        elif who == 'cont':
            c, ns = self.cont, range(len(self.res))
            if kind == 'until_synced':
                ws.issue('container.until_synced', ('all', ['%d synced' % i for i in ns]), timeout,
                         lambda: c.until_synced(timeout=timeout))
            elif kind == 'until_not_synced':
                ws.issue('container.until_not_synced', ('any', ['%d not synced' % i for i in ns]), timeout,
                         lambda: c.until_not_synced(timeout=timeout))
            else:
                how, s = kind.split()
                fn = c.until_any_child_in_state if how == 'any' else c.until_all_children_in_state
                ws.issue('container.%s in' % how, (how, ['%d %s' % (i, s) for i in ns]), timeout,
                         lambda: fn(s, timeout=timeout))
        else:
            r = self.res[who]
            if kind.startswith('until_state'):
                s = kind.split()[1]
                ws.issue('resource.until_state', '%d %s' % (who, s), timeout,
                         lambda: r.until_state(s, timeout=timeout))
            else:
                p = {'until_synced': 'synced', 'until_not_synced': 'not synced',
                     'wait_connected': 'connected'}[kind]
                ws.issue('resource.' + kind, '%d %s' % (who, p), timeout,
                         lambda: getattr(r, kind)(timeout=timeout))

    def do_strat(self, i, name, strategy):
        self.res[i].set_sampling_strategy(name, strategy)

    def do_swait(self, i, name, cond, timeout):
        """Wait through the resource for a sensor that may not be there."""
        r, ws = self.res[i], self.waits
        o = r.sensor.get(L.esc(name))
        fn = lambda: untimed(r.wait(name, arg, timeout=timeout))
        if o is None or o.sampling_strategy == ('none',):
            arg = 1
            rec, f = ws.issue('resource.wait', 'never', timeout, fn)
            ws.recs.remove(rec)
            if rec['done'] is None or not rec['done'][2].startswith('raise KATCPSensorError'):
                self.sim.violation('unwaitable', 'wait for sensor %s, which %s, did not fail at once with '
                                   'KATCPSensorError: %r' % (
                                       name, 'is not there' if o is None else 'has no strategy',
                                       rec['done'] and rec['done'][2]))
            self.sim.probe('waits on sensors that are %s' % ('missing' if o is None else 'not sampled'))
            return
        if o not in self.sobjs:
            self.sobjs.append(o)
        key = '%d %s.%d %s' % (i, name, self.sobjs.index(o), cond)
        if cond[0] == 'status':
            arg = lambda reading: reading.status == cond[1]
            self.watch.add(key, lambda: o.reading.status == cond[1])
        else:
            d = self.devs[i]
            arg = L.wire_to_py(d.sens[name][0], L.value_for(d.sens[name], cond[1])) if name in d.sens else 7
            key += ' %r' % (arg,)
            self.watch.add(key, lambda: o.value == arg)
        self.sim.probe('waits on resource sensors')
        rec, f = ws.issue('resource.wait', key, timeout, fn)
        rec['queued'] = True            # first looked at in the loop's next turn

    def do_mon(self, i, stop_at):
        m = {'i': i, 'calls': [], 'exit': None, 'done': None}
        self.mons.append(m)
        ev = kc.AsyncEvent()

        def cb(synced):
            self.watch.poll()
            if m['exit'] is not None:
                self.sim.violation('monitor', 'callback(%s) after the exit event' % synced)
            m['calls'].append((self.sim.stamp(), self.sim.now, synced))

        def leave():
            m['exit'] = self.sim.now
            ev.set()
        f = RC.monitor_resource_sync_state(self.res[i], cb, ev)
        f.add_done_callback(lambda f: m.update(done=(self.sim.now, f.exception())))
        if stop_at is not None:
            self.sim.at(max(stop_at, self.sim.now), self.loop.add_callback, leave)


def run_res(sim, sc):
    w = ResWaitWorld(sim, sc)
    w.run(sc['end'])
    w.watch.poll()
    stalls = sum(d for t, d in w.stalls)
    w.waits.judge(sc['end'], stalls)
    for m in w.mons:
        judge_monitor(sim, w, m)
    settled = [r.state for r in w.res]
    if set(settled) != {'synced'}:
        sim.violation('not-synced', 'resources are %s at the end' % settled)
    elif sim.now > sc['end'] - 1:
        sim.probe('settled')


def judge_monitor(sim, w, m):
    flags = [c[2] for c in m['calls']]
    if flags != [bool(k % 2) for k in range(len(flags))] or not flags:
        sim.violation('monitor', 'callbacks do not alternate from False: %s' % flags)
        return
    for a, b in zip(m['calls'], m['calls'][1:]):
        p = '%d %s' % (m['i'], 'synced' if b[2] else 'not synced')
        f = w.watch.first_true(p, a[0], a[1])
        if f is None or f[0] > b[0]:
            sim.violation('monitor', 'callback(%s) at t=%.6f, but the resource was not' % (b[2], b[1]))
        elif b[1] > f[1] + sum(d for t, d in w.stalls) + 0.01:
            sim.violation('monitor', 'callback(%s) at t=%.6f, but the resource was so from t=%.6f' % (
                b[2], b[1], f[1]))
    if m['exit'] is not None:
        if m['done'] is None or m['done'][1] is not None:
            sim.violation('monitor', 'has not ended after its exit event: %r' % (m['done'],))
    elif m['done'] is not None:
        sim.violation('monitor', 'ended by itself: %r' % (m['done'],))
    elif flags[-1] != (w.res[m['i']].state == 'synced'):
        sim.violation('monitor', 'last callback %s, the resource is %s' % (
            flags[-1], w.res[m['i']].state))
    else:
        sim.probe('monitored')
