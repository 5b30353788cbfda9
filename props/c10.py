"""C10: periodic sampling sends the current reading every period, without drift."""
from sim import world
from props import samplib as L
from props import c09

ID = 'C10'
SHRINK = ['ops', 'threads']
RULE = ('1-4 clients set period strategies (0.003-3 s, replaced, cleared, invalid ones in between) on '
        '1-4 sensors that are updated all the time, while the server stalls, other clients fail and '
        'other strategies run')
REAL = ['katcp.sampling', 'katcp.server', 'katcp.core (Sensor)', 'tornado ioloop/iostream/gen']
STUB = ['TCP sockets and poller (no latency)', 'clock', 'thread scheduler', 'clients (scripted)']
RUNS = {'quick': 1600, 'thorough': 60000}
ASSUME = ['the wall clock is not stepped (tornado 4.5 timers follow the wall clock)']
QUIET = dict(lat_min=0.0, lat_max=0.0, conn_lat_max=0.0)
BAD = ['period 0', 'period -1', 'period', 'period 1 2', 'period x', 'period nan', 'auto 1',
       'perriod 1', 'event 1']


def period(scale):
    def f(rng, n):
        if rng.random() < 0.1:
            return rng.choice(BAD)
        p = rng.choice([0.01, 0.05, 0.1, 0.25, 0.5, 1, 1.5, 3, rng.uniform(0.003, 2)])
        return 'period %s' % rng.choice(['%g' % (p * scale), '%.3f' % max(p * scale, 0.004),
                                         '%g' % max(1, round(p * scale))])
    return f


def gen_stalls(rng, ops, T):
    for _ in range(rng.choice([0, 0, 1, 2, 3])):
        ops.append([round(rng.uniform(0, T), 6), '@', 'stall',
                    rng.choice([0.001, 0.02, 0.1, 0.6, 2.0, rng.uniform(0, 1)])])


def gen(rng, tier):
    names = rng.sample(['si', 'sf', 'sd', 'sb', 'ss', 'st', 'si2'], rng.randint(1, 4))
    T = rng.choice([0.5, 2.0, 5.0, 5.0])
    pf = period(rng.choice([0.3, 1.0, 1.0]))
    strategies = [pf] * 6 + ['none', 'auto', 'event']
    ops, intact = c09.gen_ops(rng, names, strategies, T, rng.randint(1, 4), latency=False)
    threads = []
    managed = rng.random() < 0.25
    c09.gen_updates(rng, ops, threads, names, T, managed, rng.choice([0, 5, 15, 30]))
    if not managed:
        gen_stalls(rng, ops, T)
    ops.sort(key=lambda o: o[0])
    return L.maybe_v4(rng, {'ops': ops, 'threads': threads, 'intact': intact, 'names': names, 'managed': managed,
            'handler_thread': managed and rng.random() < 0.4, 'net': dict(QUIET),
            'asyncio_loop': managed and rng.random() < 0.5, 'tail': rng.choice([1.0, 3.0]),
            'horizon': 300})


def run(sim, sc):
    end = []
    w = L.execute(sim, sc, tail=sc['tail'], before_stop=lambda w: end.append(sim.now))
    L.check_streams(sim, sc, w, end[0] if end else sim.now, kinds=(b'period',))
