"""C13: sensor readings are atomic and observers see updates in order."""
import threading
from sim import world
from sim.world import katcp
from props import samplib as L

ID = 'C13'
SHRINK = ['writers', 'readers', 'observers', 'ops']
RULE = ('one writer thread per sensor sets it in every way while reader threads, request handlers of a '
        'running server (sensor-value, sensor-list) and observers that come and go from other threads and '
        'from inside update calls look at it; preemption at any line of katcp')
REAL = ['katcp.core (Sensor)', 'katcp.server', 'katcp.sampling', 'tornado ioloop/iostream/gen']
STUB = ['TCP sockets and poller', 'clock', 'thread scheduler', 'clients (scripted)']
RUNS = {'quick': 2000, 'thorough': 80000}
ASSUME = ['each sensor is set by one thread at a time',
          'threads are preempted between lines of katcp code (not inside a builtin call)']


def gen(rng, tier):
    names = rng.sample(['si', 'sf', 'sd', 'sb', 'ss', 'st', 'si2'], rng.randint(1, 3))
    T = 0.3
    server = rng.random() < 0.4
    writers = []
    nupd = rng.choice([3, 8, 20])
    for n in names:
        for _ in range(nupd):
            writers.append([n, round(rng.choice([0, 0, 0.0005, rng.uniform(0, 2 * T / nupd)]), 6)] +
                           L.gen_update(rng, n) + [rng.randrange(3)])
    readers = []
    for k in range(rng.randint(1, 3)):
        for _ in range(rng.choice([5, 20])):
            readers.append([k, round(rng.choice([0, 0.0005, rng.uniform(0, T / 10)]), 6),
                            rng.choice(names), rng.choice(['read', 'read', 'formatted', 'v5', 'value',
                                                           'status'])])
    observers = []
    for k in range(rng.randint(1, 5)):
        # attach time, detach time, behaviour in update number n
        a = rng.choice([0, 0, round(rng.uniform(0, T), 6)])
        d = rng.choice([None, None, round(rng.uniform(0, T), 6)])
        observers.append([rng.choice(names), a, d,
                          rng.choice([None, None, None, ['detach-self', rng.randint(1, 4)],
                                      ['attach-new', rng.randint(1, 4)],
                                      ['detach-other', rng.randint(1, 4)], ['detach-all', rng.randint(1, 4)],
                                      ['slow', rng.choice([0.0, 0.001, 0.01])]])])
    ops = []
    if server:
        for ci in range(rng.randint(1, 2)):
            ops.append([0.0, 'c%d' % ci, 'connect'])
            for mid in range(1, rng.randint(3, 12)):
                ops.append([round(rng.uniform(0, T), 6), 'c%d' % ci, 'send', '?%s[%d]%s\n' % (
                    rng.choice(['sensor-value', 'sensor-value', 'sensor-list']), mid,
                    rng.choice(['', ' ' + rng.choice(names), ' ' + rng.choice(names), ' /./']))])
            if rng.random() < 0.5:
                ops.append([0.0, 'c%d' % ci, 'send',
                            '?sensor-sampling[100] %s auto\n' % rng.choice(names)])
        ops.sort(key=lambda o: o[0])
    return {'names': names, 'writers': writers, 'readers': readers, 'observers': observers, 'ops': ops,
            'server': server, 'managed': True, 'handler_thread': server and rng.random() < 0.5,
            'intact': ['c0', 'c1'], 'net': world.gen_net(rng),
            'preempt': world.gen_preempt(rng, rng.choice([3, 10, 40]), hi=rng.choice([30, 300])),
            'preempt_files': rng.choice([['core.py'], ['core.py'], None]), 'horizon': 100}


class Holder(L.SampMixin):
    """The ledger of updates without a server."""
    def __init__(self, sim, names):
        self.sim, self.names = sim, names
        self._sensors = {}
        self.sensors_cfg(None)

    def add_sensor(self, s):
        self._sensors[s.name] = s


class Observer(object):
    def __init__(self, world, sim, led, name, behave):
        self.world, self.sim, self.led, self.name, self.behave = world, sim, led, name, behave
        self.sensor = led.objs[name]
        self.calls = []             # (index, stamp)
        self.spans = []             # [a0, a1, d0, d1, told of this update by whoever detached it]

    def attach(self):
        span = [self.sim.stamp(), L.BIG, L.BIG, L.BIG, None]
        self.spans.append(span)
        self.sensor.attach(self)
        span[1] = self.sim.stamp()

    def detach(self, during=None):
        if not self.spans or self.spans[-1][1] == L.BIG or self.spans[-1][2] != L.BIG:
            return
        span = self.spans[-1]
        span[2] = self.sim.stamp()
        span[4] = during
        self.sensor.detach(self)
        span[3] = self.sim.stamp()

    def update(self, sensor, reading):
        i = self.world.index(self.sim, self.led, self.name, reading, 'an observer')
        if sensor is not self.sensor:
            self.sim.violation('observer', 'observer of %s was called with another sensor' % self.name)
        self.calls.append((i, self.sim.stamp()))
        now = self.world.index(self.sim, self.led, self.name, self.sensor.read(), 'an observer')
        if i is not None and now is not None and now < i:
            self.sim.violation('stale', 'observer of %s called for update %d reads update %d' % (
                self.name, i, now))
        b = self.behave
        if not b:
            return
        if b[0] == 'slow':
            self.sim.sleep(b[1])
        elif len(self.calls) == b[1]:
            if b[0] == 'detach-self':
                self.detach(i)
            elif b[0] == 'attach-new':
                o = Observer(self.world, self.sim, self.led, self.name, None)
                self.world.observers.append(o)
                o.attach()
            elif b[0] in ('detach-other', 'detach-all'):
                for o in self.world.observers:
                    if o is not self and o.name == self.name:
                        o.detach(i)
                        if b[0] == 'detach-other':
                            break


class World(object):
    def __init__(self):
        self.observers = []

    @staticmethod
    def index(sim, led, name, reading, who):
        """The update a reading belongs to, checking that it is not a mixture."""
        ts, status, value = reading
        for i, u in enumerate(led.ledger[(name, 0)]):
            if abs(u['ts'] - ts) < 1e-5:
                if status != L.ST[u['status']] or value != u['value']:
                    sim.violation('torn', '%s of %s got %r, but the update at that time was %r' % (
                        who, name, tuple(reading), (u['ts'], u['status'], u['value'])))
                return i
        sim.violation('torn', '%s of %s got %r, which was never set' % (who, name, tuple(reading)))
        return None


def run(sim, sc):
    w = World()
    names = sc['names']
    if sc['server']:
        sw = L.world_for(sim, sc)
        led = sw.dev
        sw.schedule([[o[0] + sim.now] + o[1:] for o in sc['ops']])
    else:
        led = Holder(sim, names)
    reads = []

    def writer(n):
        for item in sc['writers']:
            if item[0] == n:
                if item[1]:
                    sim.sleep(item[1])
                led.do_set(n, *item[2:])

    def reader(k):
        for item in sc['readers']:
            if item[0] != k:
                continue
            if item[1]:
                sim.sleep(item[1])
            n, how = item[2], item[3]
            s = led.objs[n]
            g0 = sim.stamp()
            if how == 'read':
                r = s.read()
            elif how == 'formatted':
                r = s.read_formatted()
            elif how == 'v5':
                r = s.format_reading(s.read(), 5)
            elif how == 'value':
                r = s.value()
            else:
                r = s.status()
            g1 = sim.stamp()
            reads.append((n, how, r, g0, g1))

    def churn(k):
        n, a, d, b = sc['observers'][k]
        o = Observer(w, sim, led, n, b)
        w.observers.append(o)
        if a:
            sim.sleep(a)
        o.attach()
        if d is not None:
            sim.sleep(d)
            o.detach()
    ts = []
    for fn, keys in ((churn, range(len(sc['observers']))), (writer, names),
                     (reader, sorted(set(x[0] for x in sc['readers'])))):
        for k in keys:
            t = threading.Thread(target=guarded, args=(sim, fn, k))
            t.start()
            ts.append(t)
    for t in ts:
        t.join()
    sim.sleep(1)
    if sc['server']:
        sw.stop_called = sim.stamp()
        led.stop()
        led.join(20)
        check_server(sim, sc, sw)
    check_reads(sim, led, reads)
    for o in w.observers:
        check_observer(sim, led, o)


def guarded(sim, fn, k):
    try:
        fn(k)
    except Exception as e:
        sim.violation('exception', '%s(%r) raised %s: %s' % (fn.__name__, k, type(e).__name__, e))


def check_reads(sim, led, reads):
    for n, how, r, g0, g1 in reads:
        upd = led.ledger[(n, 0)]
        lo, hi = L.idx_lo(upd, g0), L.idx_hi(upd, g1)
        if how == 'value':
            if not any(upd[i]['value'] == r for i in range(lo, hi + 1)):
                sim.violation('stale', 'value() of %s returned %r' % (n, r))
        elif how == 'status':
            if not any(L.ST[upd[i]['status']] == r for i in range(lo, hi + 1)):
                sim.violation('stale', 'status() of %s returned %r' % (n, r))
        else:
            if how == 'read':
                i = World.index(sim, led, n, r, 'a reader')
            else:
                hit = L.parse_status(led, {(n, round(u['ts'] * 4)): (0, i) for i, u in enumerate(upd)},
                                     [r[0], b'1', n.encode(), r[1], r[2]], {})
                if isinstance(hit, str):
                    sim.violation('torn', 'formatted reading of %s is %r: %s' % (n, r, hit))
                    continue
                i = hit[2]
            if i is not None and not lo <= i <= hi:
                sim.violation('stale', 'a reading of %s was update %d, expected %d..%d' % (n, i, lo, hi))
        sim.probe('reads')


def check_observer(sim, led, o):
    upd = led.ledger[(o.name, 0)]
    got = [i for i, _ in o.calls if i is not None]
    if got != sorted(got) or len(set(got)) != len(got):
        sim.violation('observer', 'observer of %s was called with updates %s' % (o.name, got))
        return
    must, may = set(), set()
    for i, u in enumerate(upd[1:], 1):
        for a0, a1, d0, d1, during in o.spans:
            # detached while update i was being delivered: only later ones are affected
            if a1 < u['g0'] and (d0 > u['g1'] or during == i):
                must.add(i)
            if a0 < u['g1'] and d1 > u['g0']:
                may.add(i)
    # whoever is detached by others while an update is being delivered may or may not get it
    sim.probe('observed updates', len(got))
    if not must <= set(got):
        sim.violation('observer', 'observer of %s attached %s missed updates %s (got %s)' % (
            o.name, o.spans, sorted(must - set(got)), got))
    elif not set(got) <= may:
        sim.violation('observer', 'observer of %s attached %s was called for %s' % (
            o.name, o.spans, sorted(set(got) - may)))


def check_server(sim, sc, sw):
    dev = sw.dev
    ix = {(n, round(u['ts'] * 4)): (0, i) for n in sc['names']
          for i, u in enumerate(dev.ledger[(n, 0)])}
    for cname, c in sw.clients.conns.items():
        last = {}
        sent = {}
        for t, g, p, line in world.parsed(c):
            if p is None:
                sim.violation('garbled', '%s received %r' % (cname, line[:200]))
                continue
            mt, nm, mid, args = p
            if mt == '#' and nm in ('sensor-value', 'sensor-status'):
                hit = L.parse_status(dev, ix, args, sc)
                if isinstance(hit, str):
                    sim.violation('torn', '%s received %r: %s' % (cname, line[:200], hit))
                    continue
                n, _, i = hit
                if nm == 'sensor-value' and n in last and i < last[n]:
                    sim.violation('stale', '%s was told update %d of %s after update %d' % (
                        cname, i, n, last[n]))
                if nm == 'sensor-value':
                    last[n] = i
                upd = dev.ledger[(n, 0)]
                if upd[i]['g0'] > g:
                    sim.violation('torn', 'update from the future')
                sim.probe('lines')
