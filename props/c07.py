"""C07: stopping and restarting a device server."""
from sim import world, net as simnet
from sim.world import katcp
from props import serverlib as S

ID = 'C07'
SHRINK = ['ops', 'hooks']
RULE = ('0-6 clients with requests of every kind in flight, sampling, output backlog, stalled, dead '
        'or partitioned peers and late connects; the server is stopped at a random moment by call '
        '(once or twice) or by ?halt, with the loop shared or managed in its own thread, then '
        'restarted on the same port (same or new object), up to three cycles; connect and '
        'disconnect hooks that take time or fail')
REAL = ['katcp.server', 'katcp.sampling', 'katcp.ioloop_manager', 'katcp.core',
        'tornado ioloop/iostream/tcpserver/gen']
STUB = ['TCP sockets and poller', 'clock', 'clients (scripted)']
RUNS = {'quick': 1500, 'thorough': 60000}
ASSUME = ['output backlog of reading clients small enough to drain within the 1 s disconnect timeout']


ASKED = ('halt', 'restart')         # stopped because a client asked


def gen(rng, tier):
    ops = []
    cycles = rng.choice([1, 1, 2, 3])
    grid = rng.choice([0, 0, 0.01])
    stops = []
    base = 0.0
    idx = 0
    managed = rng.random() < 0.3
    for cy in range(cycles):
        T = base + rng.choice([0.0, 0.001, 0.01, rng.uniform(0, 0.5), rng.uniform(0.2, 2.0)])
        if grid:
            T = int(T / grid) * grid
        T = round(T, 6)
        how = rng.choice(['call', 'call', 'call', 'double', 'halt', 'restart'])
        if how in ASKED:
            T = max(T, round(base + 0.5, 6))
        n = rng.randint(0, 6)
        for _ in range(n):
            name = 'c%d' % idx
            idx += 1
            t0 = round(rng.uniform(base, T + 0.02), 6)
            if rng.random() < 0.2:
                t0 = T
            ops.append([t0, name, 'connect'])
            if rng.random() < 0.3:
                ops.append([t0, name, 'send', '?sensor-sampling[900] si %s\n' % rng.choice(
                    ['auto', 'event', 'period 0.05', 'event-rate 0.01 0.1'])])
            mid = 1
            for b in range(rng.randint(0, 3)):
                data = ''
                for _k in range(rng.randint(1, 3)):
                    kind = rng.choice(S.OK_KINDS + ('r-afail', 'r-craise', 'r-never', 'r-cnever',
                                                    'r-fail'))
                    data += S.req_line(kind, str(mid), '%s.%d' % (name, mid),
                                       rng.choice([0, 1, 5, 20, 300, 3000]), rng.choice([0, 0, 3]))
                    mid += 1
                ops.append([round(rng.uniform(t0, T + 0.02), 6), name, 'send', data])
            r = rng.random()
            if r < 0.12:
                ops.append([round(rng.uniform(t0, T + 0.05), 6), name,
                            rng.choice(['noread', 'hold', 'vanish'])])
            elif r < 0.25:
                ops.append([round(rng.uniform(t0, T + 0.05), 6), name,
                            rng.choice(['close', 'reset', 'finish', 'half'])])
        for _ in range(rng.choice([0, 0, 1, 4])):
            ops.append([round(max(0, T - rng.choice([0.001, 0.01, 0.1])), 6), '@', 'mass',
                        rng.choice([10, 1000])])
        for j in range(rng.choice([0, 0, 3])):
            ops.append([round(rng.uniform(base, T + 0.1), 6), '@', 'set', cy * 100 + j])
        if rng.random() < 0.1:
            ops.append([round(max(0, T - rng.uniform(0, 0.1)), 6), '@', 'stall', 0.2])
        if how in ASKED:
            name = 'h%d' % cy
            ops.append([round(base + 0.1, 6), name, 'connect'])
            ops.append([T, name, 'send', '?%s[7]\n' % how])
        stops.append([T, how])
        base = T + 1.0 * (n + 1) + 6
    ops.sort(key=lambda o: o[0])
    conf = world.gen_net(rng)
    conf.pop('conn_lat_max', None)
    conf['lat_max'] = min(conf.get('lat_max', 0.002), 0.03)
    if rng.random() < 0.4:
        conf['bufsize'] = rng.choice([1000, 3000])
        conf['seg'] = 0
    hooks = []
    if rng.random() < 0.5 and not any(how in ASKED for T, how in stops):
        hooks = [[rng.choice([0, 0, 0.01, 0.1, 0.5, 1.5, 5.0]), rng.random() < 0.15,
                  rng.choice([0, 0, 0.01, 0.3, 2.5])] for _ in range(rng.randint(1, 4))]
    return {'ops': ops, 'stops': stops, 'hooks': hooks, 'net': conf, 'managed': managed,
            'asyncio_loop': managed and rng.random() < 0.5, 'same': rng.random() < 0.6,
            'preempt': world.gen_preempt(rng, rng.choice([0, 3, 8])) if managed else [],
            'horizon': 600}


class World7(S.ServerWorld):
    def dev_mass(self, size):
        if self.dev.running():
            self.dev.mass_inform(katcp.Message.inform('mass', 'x' * size))

    def dev_set(self, v):
        self.dev.get_sensor('si').set_value(v)

    def in_loop(self, fn, *args):
        loop = getattr(self.dev, 'ioloop', None)
        if self.managed and (loop is None or not self.dev.running()):
            return
        (loop if self.managed else self.loop).add_callback(fn, *args)

    managed = False


class Dev7(S.HookPlan, S.Dev):
    pass


def make(sim, sc):
    dev = make_dev(sim, sc)
    dev.plan = sc.get('hooks') or []
    return dev


def make_dev(sim, sc):
    if not sc['managed']:
        return Dev7('127.0.0.1', S.PORT)

    class MDev(Dev7, katcp.DeviceServer):
        def __init__(self, *a, **kw):
            katcp.DeviceServer.__init__(self, *a, **kw)
            self.set_concurrency_options(thread_safe=True, handler_thread=False)
    return MDev('127.0.0.1', S.PORT)


def run(sim, sc):
    w = World7.__new__(World7)
    w.sim = sim
    w.managed = sc['managed']
    w.loop = None
    if not w.managed:
        w.loop = world.SimIOLoop()
        w.loop.make_current()
    w.clients = world.Clients(sim, S.PORT)
    w.schedule([o for o in sc['ops'] if o[2] != 'stall'])
    for o in sc['ops']:
        if o[2] == 'stall' and not w.managed:
            sim.at(o[0], w.loop.stall, o[3])
    if w.managed:
        run_managed(sim, sc, w)
    else:
        run_loop(sim, sc, w)


class RestartQueue(object):
    """Where ?restart puts the device; whoever owns it then stops it."""
    def __init__(self, sim, cyc, managed):
        self.sim, self.cyc, self.managed = sim, cyc, managed

    def put_nowait(self, dev):
        cyc, sim = self.cyc, self.sim
        sim.probe('restarts asked for')
        if dev is not cyc.dev:
            sim.violation('restart-queue', 'another device was queued for a restart')
        cyc.queued += 1
        f = dev.stop() if self.managed else dev.stop(None)
        f.add_done_callback(lambda f_: cyc.acks.append(sim.now))


class Cycle(object):
    def __init__(self, dev, T, how, first_hook):
        self.dev = dev
        self.T = T                 # planned stop time
        self.how = how
        self.first_hook = first_hook
        self.acks = []             # times the stop future resolved
        self.called = None
        self.not_running = None
        self.nconn = 0
        self.refused = None
        self.queued = 0


def live_conns(dev, first):
    live = []
    for g, what, conn in dev.hooks[first:]:
        if what == 'connect':
            live.append(conn.address)
        elif conn.address in live:
            live.remove(conn.address)
    return live


def watch(sim, w, cyc):
    """Polls the running flag; probes the port once it is down."""
    if cyc.called is not None and not cyc.dev.running() and cyc.not_running is None:
        cyc.not_running = sim.now
        cyc.probe = simnet.RawConn.connect(sim.net, S.PORT, 'probe')
        return
    sim.after(0.05, watch, sim, w, cyc)


def note_called(sim, cyc):
    if cyc.called is None:
        cyc.called = sim.now
        cyc.nconn = len(live_conns(cyc.dev, cyc.first_hook))


def run_loop(sim, sc, w):
    devs = []
    cycles = []

    def begin(i):
        if i and sc['same']:
            dev = devs[0]
        else:
            dev = make(sim, sc)
            devs.append(dev)
        w.dev = dev
        T, how = sc['stops'][i]
        cyc = Cycle(dev, T, how, len(dev.hooks))
        cycles.append(cyc)
        dev.set_restart_queue(RestartQueue(sim, cyc, False) if how == 'restart' else None)
        dev.start()
        watch(sim, w, cyc)

        def stop():
            note_called(sim, cyc)
            if how in ASKED:
                return
            f = dev.stop(None)
            f.add_done_callback(lambda f_: cyc.acks.append(sim.now))
            if how == 'double':
                dev.stop(None)
        sim.at(T, w.loop.add_callback, stop)
    begin(0)
    for i in range(1, len(sc['stops'])):
        prev = sc['stops'][i - 1][0]
        nops = 8
        t = restart_time(sc, i)
        sim.at(t, w.loop.add_callback, begin, i)
    end = restart_time(sc, len(sc['stops']))
    # a final server must behave as a fresh one
    sim.at(end, w.loop.add_callback, lambda: fresh(sim, sc, w, devs))
    world.run_loop(sim, w.loop, end + 3)
    check(sim, sc, w, cycles)


def restart_time(sc, i):
    T = sc['stops'][i - 1][0]
    n = sum(1 for o in sc['ops'] if o[2] == 'connect')
    if i < len(sc['stops']):
        nxt = min([o[0] for o in sc['ops'] if o[0] > T + 0.5] + [sc['stops'][i][0]])
        return max(T + 1, nxt - 0.3)
    return T + n + 6


def fresh(sim, sc, w, devs):
    dev = devs[0] if sc['same'] else make(sim, sc)
    w.dev = dev
    w.fresh_from = len(dev.hooks)
    dev.plan = []
    dev.start()
    w.clients.op('fresh', 'connect')
    w.clients.op('fresh', 'send', '?r-sync[1] f 0 0\n?client-list[2]\n')


def run_managed(sim, sc, w):
    devs = []
    cycles = []
    for i, (T, how) in enumerate(sc['stops']):
        if i == 0 or not sc['same']:
            dev = make(sim, sc)
            devs.append(dev)
        w.dev = dev
        cyc = Cycle(dev, T, how, len(dev.hooks))
        cycles.append(cyc)
        dev.set_restart_queue(RestartQueue(sim, cyc, True) if how == 'restart' else None)
        if i:
            t = restart_time(sc, i)
            if t > sim.now:
                sim.sleep(t - sim.now)
        dev.start(timeout=5)
        if not dev.wait_running(5):
            sim.violation('restart', 'server not running 5 s after start (cycle %d)' % i)
            return
        watch(sim, w, cyc)
        if T > sim.now:
            sim.sleep(T - sim.now)
        note_called(sim, cyc)
        if how not in ASKED:
            f = dev.stop()
            f.add_done_callback(lambda f_, cyc=cyc: cyc.acks.append(sim.now))
            if how == 'double':
                dev.stop()
        t0 = sim.now
        dev.join(timeout=20)
        if dev.running():
            sim.violation('stop-hangs', 'join gave up after %.1f s, server still running'
                          % (sim.now - t0))
    end = restart_time(sc, len(sc['stops']))
    if end > sim.now:
        sim.sleep(end - sim.now)
    devs = devs if sc['same'] else [make(sim, sc)]
    devs[0].sim = sim
    fresh(sim, sc, w, devs)
    sim.sleep(3)
    check(sim, sc, w, cycles)
    w.dev.stop()
    w.dev.join(5)


def check(sim, sc, w, cycles):
    stalls = sum(o[3] for o in sc['ops'] if o[2] == 'stall')
    ops = {}
    for o in sc['ops']:
        ops.setdefault(o[1], []).append(o)
    conn_by_addr = {}
    for name, c in w.clients.conns.items():
        if c.ep.laddr:
            conn_by_addr['%s:%d' % c.ep.laddr] = (name, c)
    for i, cyc in enumerate(cycles):
        dev = cyc.dev
        bound = cyc.nconn * 1.0 + 1.0 + stalls + (0.5 if sc['managed'] else 0)
        if sc.get('hooks'):
            bound += 1.0        # connections that are being disconnected already
        # connections may still arrive between the call and the uninstall
        bound += 1.0
        if cyc.called is None:
            continue
        if cyc.how in ASKED:
            c = w.clients.conns.get('h%d' % i)
            if c is not None and c.connected and not halted(w, i):
                sim.violation('no-reply', '?%s was not answered: %r' % (cyc.how, [l for t, g, l in c.lines][-3:]))
        if cyc.queued != (cyc.how == 'restart' and halted(w, i)):
            sim.violation('restart-queue', 'the device was queued %d times for a restart' % cyc.queued)
        if cyc.how not in ASKED or cyc.queued:
            if len(cyc.acks) != 1:
                sim.violation('stop-ack', 'stop %d acknowledged %d times (called at %.3f)' % (
                    i, len(cyc.acks), cyc.called))
            elif cyc.acks[0] - cyc.called > bound:
                sim.violation('stop-slow', 'stop %d with %d connections took %.2f s' % (
                    i, cyc.nconn, cyc.acks[0] - cyc.called))
        if cyc.not_running is None:
            if cyc.how not in ASKED or halted(w, i):
                sim.violation('stop-hangs', 'server %d still running (stopped at %.3f)' % (
                    i, cyc.called))
            continue
        if cyc.not_running - cyc.called > bound + 0.1:
            sim.violation('stop-slow', 'server %d not running only %.2f s after stop' % (
                i, cyc.not_running - cyc.called))
        sim.probe('stops via ' + cyc.how)
        if cyc.probe.eof is None or cyc.probe.eof[1] != 'refused':
            if i + 1 < len(cycles) and restart_time(sc, i + 1) < cyc.not_running + 0.1:
                pass
            else:
                sim.violation('not-refused', 'connect after stop %d: %r, connected=%r' % (
                    i, cyc.probe.eof, cyc.probe.connected))
    # hooks, over every device object
    for dev in set(c.dev for c in cycles) | {w.dev}:
        led = {}
        for g, what, conn in dev.hooks:
            led.setdefault(conn.address, []).append(what)
        for addr, whats in led.items():
            name, c = conn_by_addr.get(addr, (addr, None))
            if name == 'fresh':
                continue
            if whats != ['connect', 'disconnect']:
                sim.violation('hooks', '%s: hooks %r' % (name, whats))
                continue
            if c is None:
                continue
            myops = [o[2] for o in ops.get(name, [])]
            if set(myops) & {'noread', 'hold', 'vanish', 'close', 'reset', 'finish', 'half'}:
                continue
            if addr in dev.failed:
                continue                # its connect hook failed
            lines = [l for t, g, l in c.lines if l]
            if not lines or not lines[-1].startswith(b'#disconnect'):
                sim.violation('no-disconnect-notice', '%s was connected and reading when the '
                              'server stopped; last line %r' % (name, lines[-1:]))
            elif c.eof is None:
                sim.violation('not-closed', '%s was notified but its connection is open' % name)
            else:
                sim.probe('clients notified')
    for name, c in w.clients.conns.items():
        seen = False
        for t, g, l in c.lines:
            if l and seen:
                sim.violation('after-disconnect', '%s: %r after #disconnect' % (name, l[:100]))
                break
            seen = seen or l.startswith(b'#disconnect')
        if name != 'fresh' and c.eof is None and not c.closed_locally and c.reading and \
                c.ep.held is None:
            sim.violation('not-closed', '%s is still connected (or connecting) after the stop'
                          % name)
    c = w.clients.conns['fresh']
    got = [world.parse_line(l) for t, g, l in c.lines if l]
    names = [(p[0], p[1]) for p in got]
    if names != [('#', 'version-connect')] * 3 + [('!', 'r-sync'), ('#', 'client-list'),
                                                  ('!', 'client-list')]:
        sim.violation('not-fresh', 'after restart a new client sees %r' % [
            l for t, g, l in c.lines])
    elif got[-2][3][0].decode() != '%s:%d' % c.ep.laddr:
        sim.violation('not-fresh', 'client list after restart: %r' % (got[-2],))


def halted(w, i):
    c = w.clients.conns.get('h%d' % i)
    return c is not None and any(l in (b'!halt[7] ok', b'!restart[7] ok') for t, g, l in c.lines)
