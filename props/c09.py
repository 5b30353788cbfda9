"""C09: auto and event sampling deliver the right updates, in order, none lost."""
from sim import world
from props import samplib as L

ID = 'C09'
SHRINK = ['ops', 'threads']
RULE = ('1-4 clients set auto and event strategies on 1-4 sensors of all types (replacing, clearing, '
        'with other strategies mixed in) while the sensors are updated from the loop, from request '
        'handlers and from other threads, other clients fail, and the wall clock steps')
REAL = ['katcp.sampling', 'katcp.server', 'katcp.core (Sensor)', 'tornado ioloop/iostream/gen']
STUB = ['TCP sockets and poller', 'clock', 'thread scheduler', 'clients (scripted)']
RUNS = {'quick': 2000, 'thorough': 80000}
ASSUME = ['each sensor is set by one thread at a time']


def gen_ops(rng, names, strategies, T, nclients, bad=0.3, query=0.15, clear=0.05, repl=3,
            latency=True):
    ops, intact = [], []
    for ci in range(nclients):
        name = 'c%d' % ci
        t = round(rng.choice([0.0, 0.0, rng.uniform(0, T / 2)]), 6)
        ops.append([t, name, 'connect'])
        mid = 1
        for n in names:
            if rng.random() < 0.3 and len(names) > 1:
                continue
            ts = rng.choice([t, rng.uniform(t, T)])
            for _ in range(rng.randint(1, repl)):
                s = rng.choice(strategies)
                s = s(rng, n) if callable(s) else s
                ops.append([round(ts, 6), name, 'send', '?sensor-sampling[%d] %s %s\n' % (mid, n, s)])
                mid += 1
                if rng.random() < query:
                    ops.append([round(ts, 6), name, 'send', '?sensor-sampling[%d] %s\n' % (mid, n)])
                    mid += 1
                ts = rng.choice([ts, rng.uniform(ts, T)])
        if rng.random() < clear:
            ops.append([round(rng.uniform(t, T), 6), name, 'send',
                        '?sensor-sampling-clear[%d]\n' % mid])
        if rng.random() < bad and ci:
            ops.append([round(rng.uniform(t, T), 6), name,
                        rng.choice(['close', 'finish', 'half', 'reset', 'vanish', 'noread'])])
        else:
            intact.append(name)
            if latency and rng.random() < 0.2:
                t0 = rng.uniform(t, T)
                a, b = rng.choice([('noread', 'read'), ('hold', 'heal')])
                ops.append([round(t0, 6), name, a])
                ops.append([round(t0 + rng.uniform(0, 1), 6), name, b])
    return ops, intact


def gen_updates(rng, ops, threads, names, T, managed, count):
    """Updates; each sensor belongs to the loop or to one thread."""
    grid = rng.choice([0, 0, 0.01])
    owners = {}
    nthreads = rng.randint(1, 3) if managed else 0
    for n in names:
        owners[n] = rng.randrange(nthreads) if managed and rng.random() < 0.8 else None
    for k in range(nthreads):
        mine = [n for n in names if owners[n] == k]
        if not mine:
            continue
        seq = []
        burst = 0
        for _ in range(count):
            if burst:
                dt, burst = 0, burst - 1
            else:
                dt = round(rng.choice([0, 0.0005, rng.uniform(0, 2 * T / count)]), 6)
                burst = rng.choice([0, 0, 2])
            n = rng.choice(mine)
            seq.append([dt, n] + L.gen_update(rng, n) + [rng.randrange(3)])
        threads.append(seq)
    mine = [n for n in names if owners[n] is None]
    if mine:
        for _ in range(count):
            t = rng.uniform(0, T)
            if grid:
                t = int(t / grid) * grid
            r = rng.random()
            n = rng.choice(mine)
            if r < 0.7:
                ops.append([round(t, 6), '@', 'set', n] + L.gen_update(rng, n) +
                           [rng.randrange(3), rng.choice([1, 1, 1, 2])])
            else:
                ops.append([round(t, 6), '@', 'sets',
                            [[m] + L.gen_update(rng, m)
                             for m in [rng.choice(mine) for _ in range(rng.randint(2, 4))]]])
    return owners


def gen(rng, tier):
    managed = rng.random() < 0.5
    race = managed and rng.random() < 0.3       # updates right within the start of a subscription
    names = rng.sample(['si', 'sf', 'sd', 'sb', 'ss', 'st', 'si2'], rng.randint(1, 2 if race else 4))
    T = 0.2 if race else rng.choice([0.2, 1.0, 2.0])
    strategies = ['auto', 'auto', 'event', 'event', 'event', 'none',
                  lambda r, n: 'differential 1' if n[1] in 'ift' else 'event']
    ops, intact = gen_ops(rng, names, strategies, T, 8 if race else rng.randint(1, 4))
    threads = []
    gen_updates(rng, ops, threads, names, T, managed, rng.choice([5, 15, 30] if not race else [20, 60]))
    if not managed and rng.random() < 0.2:
        ops.append([round(rng.uniform(0, T), 6), '@', 'stall', rng.choice([0.05, 0.3])])
    clock = []
    if rng.random() < 0.2:
        clock.append([round(rng.uniform(0, T), 6), rng.choice([-5.0, -0.5, 3.0, 100.0])])
    ops.sort(key=lambda o: o[0])
    conf = world.gen_net(rng)
    preempt = world.gen_preempt(rng, rng.choice([0, 6, 20]), hi=500) if managed else []
    files = rng.choice([None, ['sampling.py'], ['sampling.py', 'core.py']])
    if race:
        preempt, files = world.gen_preempt(rng, 60, hi=25, stall_prob=0.6, max_stall=0.01), ['sampling.py']
    return L.maybe_v4(rng, {'ops': ops, 'threads': threads, 'intact': intact, 'names': names, 'managed': managed,
            'handler_thread': managed and rng.random() < 0.4, 'net': conf, 'clock': clock,
            'asyncio_loop': managed and rng.random() < 0.5,
            'preempt': preempt, 'preempt_files': files,
            'horizon': 300})


def run(sim, sc):
    w = L.execute(sim, sc)
    L.check_streams(sim, sc, w, sim.now)
