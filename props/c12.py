"""C12: sampling subscriptions live and die with request, sensor and connection."""
from sim import world
from props import samplib as L
from props import c09, c10, c11

ID = 'C12'
SHRINK = ['ops', 'threads']
RULE = ('1-4 clients set, replace, query and clear all strategies (valid and invalid, single and bulk) '
        'on sensors that are updated from the loop and from threads, removed and re-added, while clients '
        'disconnect in every way; afterwards everybody leaves and the sensors must be unobserved')
REAL = ['katcp.sampling', 'katcp.server', 'katcp.core (Sensor)', 'tornado ioloop/iostream/gen']
STUB = ['TCP sockets and poller', 'clock', 'thread scheduler', 'clients (scripted)']
RUNS = {'quick': 2000, 'thorough': 80000}
ASSUME = ['each sensor is set by one thread at a time', 'sensors are removed in the loop\'s thread']


def strategy(rng, n):
    r = rng.random()
    if r < 0.2:
        return 'none'
    if r < 0.6:
        return rng.choice(['auto', 'event'])
    if r < 0.75:
        return c10.period(1.0)(rng, n)
    if r < 0.85:
        return c11.rate(rng, n)
    return c11.diff(rng, n)


def gen(rng, tier):
    managed = rng.random() < 0.5
    bulk = rng.random() < 0.4
    names = rng.sample(['si', 'sf', 'sd', 'sb', 'ss', 'st', 'si2'], rng.randint(1, 4))
    T = rng.choice([0.05, 0.3, 1.0])
    nclients = rng.randint(1, 4)
    ops, intact = [], []
    grid = rng.choice([0, 0, 0.01, 0.05])

    def at(lo=0.0):
        t = rng.uniform(lo, T)
        if grid:
            t = max(lo, int(t / grid) * grid)
        return round(t, 6)
    for ci in range(nclients):
        name = 'c%d' % ci
        t0 = rng.choice([0.0, 0.0, at()])
        ops.append([t0, name, 'connect'])
        t = t0
        for mid in range(1, rng.randint(2, 9)):
            r = rng.random()
            n = rng.choice(names)
            if r < 0.08:
                line = '?sensor-sampling-clear[%d]' % mid
            elif r < 0.25:
                line = '?sensor-sampling[%d] %s' % (mid, n)
            elif r < 0.29:
                line = '?sensor-sampling[%d]%s' % (mid, rng.choice(['', ' nosuch', ' nosuch auto']))
            elif bulk and r < 0.6:
                k = rng.randint(1, len(names))
                ns = rng.sample(names, k)
                if rng.random() < 0.15:
                    ns.insert(rng.randint(0, k), 'nosuch')
                line = '?sensor-sampling[%d] %s %s' % (mid, ','.join(ns), strategy(rng, ns[0]))
            else:
                line = '?sensor-sampling[%d] %s %s' % (mid, n, strategy(rng, n))
            ops.append([t, name, 'send', line + '\n'])
            if rng.random() < 0.6:
                t = at(t)
        if rng.random() < 0.45:
            ops.append([rng.choice([at(t0), t]), name,
                        rng.choice(['close', 'finish', 'half', 'reset', 'noread'])])
        else:
            intact.append(name)
    threads = []
    c09.gen_updates(rng, ops, threads, names, T, managed, rng.choice([5, 15, 30]))
    rem = [n for n in names if rng.random() < 0.3]
    sc_handler = managed and rng.random() < 0.5
    if rem and not sc_handler and not any(i[1] in rem for th in threads for i in th):
        for n in rem:
            t = at()
            ops.append([t, '@', 'remove', n])
            if rng.random() < 0.7:
                ops.append([rng.choice([t, at(t)]), '@', 'readd', n])
    ops.sort(key=lambda o: o[0])
    return L.maybe_v4(rng, {'ops': ops, 'threads': threads, 'intact': intact, 'names': names, 'managed': managed,
            'bulk': bulk, 'handler_thread': sc_handler,
            'net': world.gen_net(rng), 'asyncio_loop': managed and rng.random() < 0.5,
            'preempt': world.gen_preempt(rng, rng.choice([0, 6, 20]), hi=500) if managed else [],
            'preempt_files': rng.choice([None, ['sampling.py'], ['sampling.py', 'server.py']]),
            'horizon': 300})


def run(sim, sc):
    w = L.execute(sim, sc, before_stop=lambda w: leave(sim, sc, w), on_world=watch_timers)
    L.check_streams(sim, sc, w, sim.now, timing=False)
    left = w.__dict__.get('left')
    if not left:
        sim.violation('stuck', 'the server did not get to the end of the scenario')
        return
    for n, obs in left['observers']:
        sim.violation('observer-left', 'sensor %s still has %d observers after all clients left'
                      % (n, obs))
    if left['fired']:
        sim.violation('still-sampling', '%d informs were attempted after all clients had left: %s'
                      % (len(left['fired']), left['fired'][:3]))
    if left['timers']:
        sim.violation('timer-left', 'timers left after all clients left: %s' % left['timers'][:3])


def watch_timers(w):
    """Record the loop timers that sampling strategies hold."""
    loop = w.dev.ioloop
    w.timers = timers = {}
    call_at, remove = loop.call_at, loop.remove_timeout

    def watched(when, callback, *args, **kw):
        owner = getattr(callback, '__self__', None)
        if not isinstance(owner, L.katcp.sampling.SampleStrategy):
            return call_at(when, callback, *args, **kw)

        def fire():
            timers.pop(id(h), None)
            return callback(*args, **kw)
        h = call_at(when, fire)
        timers[id(h)] = (h, callback.__name__, type(owner).__name__, owner._sensor.name)
        return h

    def watched_remove(h):
        timers.pop(id(h), None)
        return remove(h)
    loop.call_at, loop.remove_timeout = watched, watched_remove


def leave(sim, sc, w):
    """All clients leave; two seconds later the sensors are updated once more."""
    dev = w.dev
    w.left_at = sim.stamp()
    for c in list(w.clients.conns.values()):
        if c.eof is None:
            c.start_reading()
        c.close()
    out = w.left = {'observers': [], 'fired': [], 'timers': []}

    def later():
        for conn in list(getattr(dev, '_client_conns', ())):
            sim.log('still connected', conn.address)
        orig = L.katcp.sampling.SampleStrategy.inform
        seen = []

        def spy(self, reading):
            seen.append((round(sim.now, 4), type(self).__name__, self._sensor.name))
            return orig(self, reading)
        L.katcp.sampling.SampleStrategy.inform = spy
        sim.cleanup.append(lambda: setattr(L.katcp.sampling.SampleStrategy, 'inform', orig))
        out['fired'] = seen
        out['timers'] = [x[1:] for x in w.timers.values()]
        for name in sorted(dev.objs):
            if dev.has_sensor(name) and dev.get_sensor(name) is dev.objs[name]:
                dev.do_set(name, 'failure', dev.objs[name].value())
        for s in dev.all_objs:
            if getattr(s, '_observers', ()):
                out['observers'].append((s.name, len(s._observers)))
    dev.ioloop.call_later(2.0, later)
