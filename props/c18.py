"""C18: stopping a client ends all its activity; it can be started again."""
from sim import world
from props import clientlib as K

ID = 'C18'
SHRINK = ['ops', 'cycles']
RULE = ('1-4 start/stop cycles of one client, on a shared loop or with its own loop thread '
        '(stopped and joined from another, with preemption); stopped once, twice, or right after '
        'start, while connecting, refused, unanswered, waiting to retry, connected, losing the '
        'connection or with requests outstanding; then started again; non-trivial: a stop hit a '
        'client that was connecting, retrying or had requests outstanding')
REAL = ['katcp.client', 'katcp.ioloop_manager', 'katcp.core',
        'tornado ioloop/iostream/tcpclient/gen']
STUB = ['TCP sockets and poller', 'clock', 'server (scripted)', 'OS threads (baton scheduler)']
RUNS = {'quick': 1500, 'thorough': 60000}
ASSUME = ('a stop waits for the retry delay and for the outcome of a TCP connect in progress; the '
          'client is restarted only after it has reported stopped (shared loop) or was joined '
          '(own thread)')


def gen(rng, tier):
    managed = rng.random() < 0.4
    ops = []
    cycles = []
    t = 0.0
    delay = rng.choice([0.5, 0.1])
    slowest = 0.0
    qn = 0
    mids = True
    for cy in range(rng.randint(1, 3 if tier == 'quick' else 5)):
        state = rng.choice(['connected', 'connected', 'refused', 'slow', 'slow', 'losing', 'now',
                            'flap', 'blackhole' if rng.random() < 0.3 else 'slow'])
        start = round(t, 6)
        if state in ('refused', 'flap'):
            ops.append([start, 'down'])
        if state == 'slow':
            d = round(rng.uniform(0.05, 1.5), 3)
            slowest = max(slowest, d)
            ops.append([start, 'conndelay', d])
        else:
            ops.append([start, 'conndelay', 0])
        if state == 'blackhole':
            ops.append([start, 'blackhole'])
        if state == 'now':
            stop = start + rng.choice([0, 0, 1e-6, 0.001])
        elif state == 'slow':
            stop = start + rng.choice([d, d * rng.random(), d + rng.uniform(0, 0.02),
                                       d + rng.uniform(0, 0.6)])
        else:
            stop = start + rng.uniform(0.01, 2.0)
        stop = round(stop, 6)
        if state == 'flap':
            ops.append([round(rng.uniform(start, stop), 6), 'up'])
        if state == 'losing':
            ops.append([round(max(start, stop - rng.choice([0, 0.0005, 0.002, 0.01])), 6), 'srv',
                        rng.choice(['close', 'reset', 'half', 'finish'])])
        for _ in range(rng.choice([0, 1, 3, 6])):
            tq = round(rng.choice([stop, rng.uniform(start, stop + 0.05), stop - 0.001]), 6)
            if tq < start:
                continue
            ops.append([tq, 'req'] + K.gen_req(rng, 'q%d' % qn, 0.5, mids, hostile=0))
            qn += 1
        for _ in range(rng.choice([0, 0, 2])):
            ops.append([round(rng.uniform(start, stop + 0.1), 6), 'line', rng.choice('#!?'),
                        rng.choice(['evt', 'ask', 'zz']), None, ['plain']])
        how = rng.choice(['once', 'once', 'once', 'twice', 'later'])
        end = stop + delay + slowest + 2.0 + (130 if state == 'blackhole' else 0)
        ops.append([round(end - 0.3, 6), 'up'])
        ops.append([round(end - 0.3, 6), 'unblackhole'])
        ops.append([round(end - 0.3, 6), 'conndelay', 0])
        cycles.append([start, stop, how, round(rng.uniform(0, 0.3), 6), round(end, 6),
                       rng.random() < 0.7])
        t = end + (0 if managed else rng.choice([0, 0.5]))
    ops.sort(key=lambda o: o[0])
    conf = world.gen_net(rng)
    sc = {'ops': ops, 'cycles': cycles, 'managed': managed, 'net': conf,
          'greet': rng.choice(['mi', 'mi', 'm']),
          'client': {'timeout': rng.choice([5.0, 1.0, None]),
                     'auto_reconnect': rng.random() < 0.85, 'delay': delay},
          'horizon': 3000,
          'preempt': world.gen_preempt(rng, rng.choice([0, 3, 8, 20])) if managed else []}
    if managed or rng.random() < 0.2:
        sc['asyncio_loop'] = True
    return sc


class World18(K.ClientWorld):
    t_stop = None         # when stop() was called, until the next start()
    grace = 0.05          # an attempt that was decided on before may still follow

    def __init__(self, sim, sc, **kw):
        super(World18, self).__init__(sim, sc, **kw)
        self.grace += sum(p[1] for p in sc.get('preempt') or ())
        sim.net.on_connect = self.on_connect

    def do_start(self, *args):
        self.t_stop = None
        super(World18, self).do_start(*args)

    def on_connect(self, port):
        if self.t_stop is not None and self.sim.now > self.t_stop + self.grace:
            self.sim.violation('connects-after-stop', 'a connection attempt starts at t=%.6f, '
                               'after stop() was called at t=%.6f' % (self.sim.now, self.t_stop))

    def event(self, kind, **kw):
        return super(World18, self).event(kind, nsyn=self.sim.net.nconn, **kw)


def bound(w, sc):
    c = w.sim.net.conf
    b = w.cl.auto_reconnect_delay + c.conn_lat_max + 4 * (c.lat_max + c.grid) + 0.1
    b += max([o[2] for o in sc['ops'] if o[1] == 'conndelay'] + [0])
    b += sum(p[1] for p in sc.get('preempt') or ())
    return b


def check_stopped(sim, w, sc, where):
    """Right after the client reported that it has stopped."""
    if w.cl.running():
        sim.violation('running-after-stop', '%s: running() after the client stopped' % where)
    if w.cl.is_connected():
        sim.violation('connected-after-stop', '%s: is_connected() after the client stopped' %
                      where)
    n = [c.idx for c in w.srv.conns if c.client_open()]
    if n:
        sim.violation('open-after-stop', '%s: connection(s) %r still open after the client '
                      'stopped' % (where, n))
    for r in w.reqs.values():
        if not r['done'] and r['exc'] is None:
            sim.violation('request-left', '%s: request %s issued t=%.6f has not completed after '
                          'the client stopped' % (where, r['tag'], r['t']))


def verify_fresh(sim, w, sc, where):
    """The client was started again; by now it has to work as a new one."""
    if not w.cl.is_connected() or sum(1 for c in w.srv.conns if c.client_open()) != 1:
        if w.sc['client']['auto_reconnect']:
            sim.violation('restart', '%s: not connected %.2f s after it was started again' %
                          (where, bound(w, sc)))
        return None
    tag = 'fresh-%s' % where
    plan = [[0, 'inform', 'i0'], [0, 'reply', 'ok']]
    w.plans[tag] = plan
    w.post(w.do_req, tag, 'get', {'timeout': 3.0, 'style': 'future'}, plan)
    return tag


def fresh_result(sim, w, where):
    r = w.reqs.get('fresh-%s' % where)
    d = r['done'] if r else []
    if len(d) != 1 or d[0]['serial'] is None:
        sim.violation('restart', '%s: a request on the restarted client ended with %r' %
                      (where, [x['value'] for x in d]))
    else:
        sim.probe('restarts that work')


def run(sim, sc):
    if sc['managed']:
        return run_managed(sim, sc)
    w = World18(sim, sc, start=False)
    b = bound(w, sc)
    state = {}

    def stopped(i):
        def cb(f):
            if ('stopped', i) in state:
                return
            state['stopped', i] = sim.now
            w.event('stopped', value=i)
            # callbacks queued before may still run in this iteration
            w.loop.add_callback(w.loop.add_callback, w.loop.add_callback,
                                check_stopped, sim, w, sc, 'stop %d' % i)
        return cb

    def stop(i, again):
        if w.cl.ioloop is None:
            return
        if not again:
            probe_stop(sim, w)
            w.event('stop', value=i)
            state['stop', i] = sim.now
            w.t_stop = sim.now
        w.cl.stop()
        if not again:
            if w.cl.ioloop_thread_id is None:
                w.loop.add_callback(lambda: w.cl.until_stopped().add_done_callback(stopped(i)))
            else:
                w.cl.until_stopped().add_done_callback(stopped(i))

    def start(i):
        if i and ('stopped', i - 1) not in state:
            sim.violation('stop-hangs', 'not stopped %.1f s after stop %d' %
                          (sim.now - state.get(('stop', i - 1), sim.now), i - 1))
            return
        w.do_start()
    end = 0
    for i, (t0, t1, how, dt, end, check) in enumerate(sc['cycles']):
        sim.at(t0, w.loop.add_callback, start, i)
        sim.at(t1, w.loop.add_callback, stop, i, False)
        if how == 'twice':
            sim.at(t1, w.loop.add_callback, stop, i, True)
        elif how == 'later':
            sim.at(t1 + dt, w.loop.add_callback, stop, i, True)
    n = len(sc['cycles'])
    sim.at(end, w.loop.add_callback, start, n)
    sim.at(end + b, w.loop.add_callback, verify_fresh, sim, w, sc, 'end')
    w.run(end + b + 2)
    if sc['client']['auto_reconnect']:
        fresh_result(sim, w, 'end')
    for i in range(n):
        if ('stop', i) in state:
            t = state.get(('stopped', i))
            extra = 128 if any(o[1] == 'blackhole' for o in sc['ops']) else 0
            if t is None or t - state['stop', i] > b + extra:
                sim.violation('stop-hangs', 'stop %d called t=%.3f, reported stopped %s' %
                              (i, state['stop', i], t))
    judge(sim, w, sc)


def probe_stop(sim, w):
    if w.cl.is_connected():
        if any(not r['done'] for r in w.reqs.values()):
            sim.probe('stopped with requests outstanding')
        else:
            sim.probe('stopped connected')
    else:
        sim.probe('stopped while not connected')


def judge(sim, w, sc):
    """No activity between stopped and the next start."""
    quiet = None
    for e in w.events:
        if e['kind'] == 'stopped':
            quiet = e
        elif e['kind'] == 'start':
            if quiet is not None and e['nsyn'] != quiet['nsyn']:
                sim.violation('connects-after-stop', '%d connection attempt(s) while stopped '
                              '(t=%.3f..%.3f)' % (e['nsyn'] - quiet['nsyn'], quiet['t'], e['t']))
            quiet = None
        elif quiet is not None:
            if e['kind'] in ('notify', 'handler', 'inform') or \
                    e['kind'] == 'done' and e['serial'] is not None:
                sim.violation('active-after-stop', '%s %s at t=%.6f although the client had '
                              'stopped at t=%.6f' % (e['kind'], e.get('value') or e.get('tag'),
                                                     e['t'], quiet['t']))


def run_managed(sim, sc):
    w = World18(sim, sc, start=False, managed=True)
    b = bound(w, sc)
    n = len(sc['cycles'])
    for i, (t0, t1, how, dt, end, check) in enumerate(sc['cycles']):
        if t0 > sim.now:
            sim.sleep(t0 - sim.now)
        w.event('start')
        w.t_stop = None
        w.cl.start(timeout=3 if check else None)
        if t1 > sim.now:
            sim.sleep(t1 - sim.now)
        probe_stop(sim, w)
        w.t_stop = tcall = sim.now
        w.cl.stop(timeout=2 if check else None)
        if how == 'twice':
            w.cl.stop()
        extra = 128 if any(o[1] == 'blackhole' for o in sc['ops']) else 0
        th = world.loop_thread(w.cl)
        w.cl.join(timeout=b + extra + 4)
        if th.is_alive():
            sim.violation('stop-hangs', 'the client thread is alive %.1f s after stop %d' %
                          (sim.now - tcall, i))
            return
        w.event('stopped', value=i)
        check_stopped(sim, w, sc, 'stop %d' % i)
        if how == 'later':
            sim.sleep(dt)
            w.cl.stop()
        if end > sim.now:
            sim.sleep(end - sim.now)
    w.event('start')
    w.t_stop = None
    w.cl.start(timeout=3)
    sim.sleep(b)
    verify_fresh(sim, w, sc, 'end')
    sim.sleep(2)
    if sc['client']['auto_reconnect']:
        fresh_result(sim, w, 'end')
    w.cl.stop()
    w.cl.join(timeout=b + 4)
    w.event('stopped')
    sim.sleep(1)
    judge(sim, w, sc)
