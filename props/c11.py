"""C11: rate-limited and differential sampling honour limits yet end up current."""
from props import samplib as L
from props import c09, c10

ID = 'C11'
SHRINK = ['ops', 'threads']
RULE = ('1-3 clients set event-rate, differential-rate and differential strategies (with boundary and '
        'invalid parameters, replaced, cleared) on 1-4 sensors whose values move in small and large '
        'steps at times on and off the timers\' grid, while the server stalls and other clients fail')
REAL = ['katcp.sampling', 'katcp.server', 'katcp.core (Sensor)', 'tornado ioloop/iostream/gen']
STUB = ['TCP sockets and poller (no latency)', 'clock', 'thread scheduler', 'clients (scripted)']
RUNS = {'quick': 2000, 'thorough': 80000}
ASSUME = ['the wall clock is not stepped (tornado 4.5 timers follow the wall clock)',
          'the longest period is positive']
BAD_RATE = ['event-rate 2 1', 'event-rate -1 1', 'event-rate 1', 'event-rate 0.1 1 3', 'event-rate a 1',
            'event-rate nan 1', 'event-rate 0 nan', 'event-rate']
BAD_DIFF = ['differential 0', 'differential -1', 'differential', 'differential x', 'differential nan',
            'differential 1 2', 'differential-rate 0 0.1 1', 'differential-rate -1 0.1 1',
            'differential-rate nan 0.1 1', 'differential-rate 1 2 1', 'differential-rate 1 0.1',
            'differential-rate x 0 1']


def periods(rng):
    r = rng.random()
    if r < 0.25:
        lo = 0
        hi = rng.choice([0.1, 0.5, 1, 3, 1e9, '1e99', 'inf'])
    elif r < 0.4:
        lo = hi = rng.choice([0.1, 0.5, 1])
    elif r < 0.8:
        lo = rng.choice([0.1, 0.2, 0.5])
        hi = rng.choice([0.5, 1, 3, 1e9])
    else:
        lo = round(rng.uniform(0.01, 1), 3)
        hi = round(lo + rng.uniform(0, 2), 3)
    return '%s %s' % (lo, hi)


def rate(rng, n):
    if rng.random() < 0.1:
        return rng.choice(BAD_RATE)
    return 'event-rate ' + periods(rng)


def diff(rng, n):
    if n[1] not in 'ift':
        return rng.choice(BAD_DIFF + ['differential 1', 'differential-rate 1 0 1']) \
            if rng.random() < 0.3 else rate(rng, n)
    if rng.random() < 0.12:
        return rng.choice(BAD_DIFF)
    thr = rng.choice([1, 2, 5]) if n[1] == 'i' else rng.choice([0.25, 0.5, 1, 1e-9, 3])
    if rng.random() < 0.35:
        return 'differential %s' % thr
    if n[1] == 't':
        return rng.choice(['differential %s' % thr, rate(rng, n),
                           'differential-rate %s 0 1' % thr])
    return 'differential-rate %s %s' % (thr, periods(rng))


def gen_walks(rng, ops, names, T):
    """Small steps, jumps and returns, at times on the timers' grid and off it."""
    for n in names:
        v = 0
        for _ in range(rng.choice([3, 10, 25])):
            grid = rng.choice([0, 0.1, 0.1, 0.5])
            t = rng.uniform(0, T)
            if grid:
                t = round(t / grid) * grid + rng.choice([0, 0, 1e-5, -1e-5])
            if n[1] == 'i':
                v = rng.choice([v + 1, v - 1, v + 2, 0, 10, v])
            elif n[1] in 'ft':
                v = rng.choice([v + 0.25, v + 0.5, v - 0.25, 0.0, 7.5, v])
            else:
                v = L.gen_value(rng, n)
            if n[1] == 't' and v < 0:
                v = 0.0
            st = rng.choice(['nominal'] * 6 + ['warn', 'error'])
            if rng.random() < 0.2:
                ops.append([max(0, round(t, 6)), '@', 'sets',
                            [[n, st, v], [n] + L.gen_update(rng, n)]])
            else:
                ops.append([max(0, round(t, 6)), '@', 'set', n, st, v, rng.randrange(3), 1])


def gen(rng, tier):
    names = rng.sample(['si', 'sf', 'sd', 'ss', 'st', 'si2', 'sf2'], rng.randint(1, 3))
    T = rng.choice([0.5, 2.0, 4.0])
    fam = rng.choice([[rate], [diff], [rate, diff], [rate, diff, 'none', 'auto']])
    # align the subscriptions with the grid of the updates now and then
    ops, intact = c09.gen_ops(rng, names, fam, T, rng.randint(1, 3), latency=False, repl=2)
    threads = []
    managed = rng.random() < 0.2
    if managed and rng.random() < 0.5:
        c09.gen_updates(rng, ops, threads, names, T, True, rng.choice([5, 15, 30]))
    else:
        gen_walks(rng, ops, names, T)
    if not managed:
        c10.gen_stalls(rng, ops, T)
    ops.sort(key=lambda o: o[0])
    return L.maybe_v4(rng, {'ops': ops, 'threads': threads, 'intact': intact, 'names': names, 'managed': managed,
            'handler_thread': managed and rng.random() < 0.4, 'net': dict(c10.QUIET),
            'asyncio_loop': managed and rng.random() < 0.5, 'tail': rng.choice([1.0, 4.0]),
            'horizon': 300})


def run(sim, sc):
    end = []
    w = L.execute(sim, sc, tail=sc['tail'], before_stop=lambda w: end.append(sim.now))
    L.check_streams(sim, sc, w, end[0] if end else sim.now,
                    kinds=(b'event-rate', b'differential-rate', b'differential'))
