"""Resource clients (single or in a container) against scripted sampling devices."""
from sim import world
from sim.world import fmt, run_loop
from props import clientlib as K
from props import inspectlib as I
from tornado import gen
from katcp import resource_client as RC
from katcp import resource as R
from katcp.core import Sensor

STATUSES = ['nominal', 'warn', 'error', 'failure', 'unreachable', 'inactive', 'unknown']
SN = ['s0', 'a.b', 'c-d', 'agg_x', 's4', 'dev.sub.temp', 'aggro']
RN = ['r0', 'set-up', 'r2', 'clear', 'update']


def esc(n):
    return n.replace('.', '_').replace('-', '_')


def gen_value(rng, d):
    """Some wire value for sensor definition d."""
    t = d[0]
    if t == 'integer':
        return str(rng.randint(-100, 100))
    if t == 'float':
        return str(rng.randint(-50, 50) / 4.0)
    if t == 'boolean':
        return rng.choice(['0', '1'])
    if t == 'discrete':
        return rng.choice(d[3])
    if t == 'lru':
        return rng.choice(['nominal', 'error'])
    if t == 'timestamp':
        return '%d.5' % rng.randint(1, 10 ** 9)
    if t == 'address':
        return '1.2.3.4:%d' % rng.randint(1, 60000)
    return rng.choice(['x', 'y z', '', 'caf\xe9', '%d' % rng.randint(0, 9)])


def wire_to_py(stype, v):
    """What the client should make of wire value v (str), for the types compared."""
    if stype == 'integer':
        return int(v)
    if stype == 'float' or stype == 'timestamp':
        return float(v)
    if stype == 'boolean':
        return v == '1'
    if stype in ('discrete', 'string'):
        return v
    return None


def normalise(strat):
    return R.normalize_strategy_parameters(strat)


class RDevice(I.IDevice):
    """Adds sensor-sampling, sensor-value and plain requests."""
    def __init__(self, w, spec):
        self.spec = spec
        self.name = spec['name']
        self.values = {}            # name -> [ts, status, value]
        self.sbehav = list(spec.get('sbehav') or [])
        self.sets = []              # accepted and rejected strategy requests
        self.updates = []           # dict per emitted reading
        self.calls = []             # plain requests received
        self.tick = 0
        I.IDevice.__init__(self, w, spec.get('greet', 'mi'), spec['port'],
                           spec.get('greet_delay', 0.0), spec['reqs'], spec['sensors'],
                           spec.get('behav'), None)
        for n in self.sens:
            self.initial(n)

    def initial(self, n):
        d = self.sens[n]
        v = d[3][0] if d[0] == 'discrete' else {'integer': '0', 'float': '0', 'boolean': '0',
                                                'lru': 'nominal', 'timestamp': '0.5',
                                                'address': '1.2.3.4:5', 'string': ''}[d[0]]
        self.values[n] = [self.stamp(), 'unknown', v]

    def stamp(self):
        """Unique reading times, in ms."""
        self.tick += 1
        return 1000000 + self.tick

    def ts(self, ms):
        if self.greet == 'v4':
            return str(ms)
        return '%.3f' % (ms / 1000.0)

    def val(self, n, v):
        if self.greet == 'v4' and self.sens.get(n, [''])[0] == 'timestamp':
            return str(int(float(v) * 1000))
        return v.encode('utf-8')

    def edit(self, edits):
        I.IDevice.edit(self, edits)
        for e in edits:
            if e[0] in ('s+', 's-'):
                for c in self.conns:
                    c.__dict__.setdefault('strats', {}).pop(e[1], None)
                self.edited(e[1])
                if e[1] in self.sens:
                    self.initial(e[1])
                else:
                    self.values.pop(e[1], None)

    def edited(self, n):
        self.w.edited.setdefault((self.name, n), []).append((self.sim.now, self.sim.stamp()))

    def strats(self, c):
        return c.__dict__.setdefault('strats', {})

    def emit_readings(self, c, names, inform='sensor-status', mid=None):
        """One inform with the current readings of names."""
        args = [self.ts(self.values[names[0]][0]), str(len(names))]
        ups = []
        for n in names:
            ms, st, v = self.values[n]
            args += [n, st, self.val(n, v)]
            ups.append((n, self.values[names[0]][0], st, v))
        rec = c.send(fmt('#', inform, mid, *args))
        if rec is not None:
            for n, ms, st, v in ups:
                self.updates.append({'dev': self, 'name': n, 'ms': ms, 'status': st, 'value': v,
                                     'rec': rec, 'conn': c, 't': self.sim.now,
                                     'g': self.sim.stamp(), 'stype': self.sens[n][0],
                                     'poll': inform == 'sensor-value'})

    def update(self, n, status, value, force=False):
        """A new reading of sensor n."""
        if n not in self.sens:
            return
        self.values[n] = [self.stamp(), status, value]
        for c in self.conns:
            st = self.strats(c).get(n)
            if st and st[0] in ('event', 'auto'):
                self.emit_readings(c, [n])

    def update_many(self, items):
        """New readings of several sensors reported in one inform."""
        ms = self.stamp()
        names = []
        for n, status, value in items:
            if n in self.sens and n not in names:
                self.values[n] = [ms, status, value]
                names.append(n)
        for c in self.conns:
            l = [n for n in names if (self.strats(c).get(n) or [''])[0] in ('event', 'auto')]
            if l:
                self.emit_readings(c, l)

    # -- other requests -------------------------------------------------
    def other(self, c, p):
        sim = self.sim
        kind, mid = p[1], p[2]
        args = [a.decode('utf-8') for a in p[3]]
        if kind == 'sensor-sampling':
            b = self.sbehav.pop(0) if self.sbehav else ['ok', 0]
            rec = {'t': sim.now, 'g': sim.stamp(), 'conn': c, 'name': args[0],
                   'strat': tuple(args[1:]), 'ok': None, 'reply': None}
            self.sets.append(rec)
            if b[1]:
                sim.fault('slow_answer')
                sim.after(b[1], self.sampling, c, mid, rec, b[0])
            else:
                self.sampling(c, mid, rec, b[0])
        elif kind == 'sensor-value':
            n = args[0]
            if n in self.sens:
                self.emit_readings(c, [n], 'sensor-value', mid)
                c.send(fmt('!', kind, mid, 'ok', '1'))
            else:
                c.send(fmt('!', kind, mid, 'fail', 'Unknown sensor name.'))
            self._done(c)
        elif kind in self.reqs:
            self.calls.append({'t': sim.now, 'g': sim.stamp(), 'conn': c, 'name': kind,
                               'args': args})
            c.send(fmt('!', kind, mid, 'fail' if 'fail' in args else 'ok',
                       *[a.encode('utf-8') for a in args]))
            self._done(c)
        else:
            c.send(fmt('!', kind, mid, 'invalid', 'Unknown request.'))
            self._done(c)

    def sampling(self, c, mid, rec, how):
        n, st = rec['name'], rec['strat']
        rec['t_done'], rec['g_done'] = self.sim.now, self.sim.stamp()
        if how == 'fail' or n not in self.sens or not valid_strategy(st):
            if how == 'fail':
                self.sim.fault('strategy_rejected')
            rec['ok'] = False
            rec['reply'] = c.send(fmt('!', 'sensor-sampling', mid, 'fail', 'Cannot do that.'))
        else:
            rec['ok'] = True
            self.strats(c)[n] = st
            first = st[0] != 'none' and self.spec.get('first', True)
            late = st[0] != 'none' and not first
            if first:
                self.emit_readings(c, [n])
            if how == 'cut':
                self.sim.fault('cut_after_set')
                self.conn_op(c, 'close')
                return
            if how != 'drop':
                rec['reply'] = c.send(fmt('!', 'sensor-sampling', mid, 'ok', n, *st))
            else:
                self.sim.fault('answer_dropped')
            if late:
                self.emit_readings(c, [n])
        self._done(c)


def valid_strategy(st):
    need = {'none': 0, 'auto': 0, 'event': 0, 'period': 1, 'event-rate': 2, 'differential': 1,
            'differential-rate': 3}
    return bool(st) and st[0] in need and len(st) == 1 + need[st[0]]


class ResWorld(object):
    Device = RDevice

    def __init__(self, sim, sc):
        self.sim = sim
        self.sc = sc
        self.loop = world.SimIOLoop()
        self.loop.make_current()
        self.plans, self.reqs = {}, {}
        self.edited = {}
        self.stalls = []
        self.devs = [self.Device(self, s) for s in sc['devs']]
        for d in self.devs:
            if d.spec.get('down'):
                d.listener.down()
        self.results = []           # ledger of set/drop/listen calls
        self.heard = []             # listener calls
        self.listeners = {}
        self.desired = {}           # (dev name, escaped) -> normalised strategy
        self.checks = []
        self.build()
        for op in sc['ops']:
            sim.at(op[0], self._op, op[1], *op[2:])

    def build(self):
        raise NotImplementedError

    def configure(self, res):
        """Give resources their timeouts once they have their inspecting client."""
        sc = self.sc
        orig = res.inspecting_client_factory

        def factory(host, port, ioloop_set_to):
            ic = orig(host, port, ioloop_set_to)
            if 'sync_timeout' in sc:
                ic.sync_timeout = sc['sync_timeout']
            if 'resync' in sc:
                ic.initial_resync_timeout = sc['resync']
            return ic
        res.inspecting_client_factory = factory

    def on_server_conn(self, c):
        pass

    def spec_of(self, d):
        s = dict(name=d.name, address=('127.0.0.1', d.spec['port']), controlled=True)
        s.update(d.spec.get('res') or {})
        return s

    def event(self, *a):
        pass

    def _op(self, kind, *a):
        sim = self.sim
        sim.ops_done += 1
        sim.log('op', kind, a[:2])
        if kind == 'stall':
            sim.fault('loop_stall')
            self.stalls.append((sim.now, a[0]))
            self.loop.stall(a[0])
        elif kind in ('chg', 'ann', 'srv', 'down', 'up', 'upd', 'updm', 'calm', 'raw'):
            d = self.devs[a[0]]
            if kind == 'chg':
                d.edit(a[1])
            elif kind == 'ann':
                d.announce(*a[1:])
            elif kind == 'srv':
                if d.conns:
                    d.conn_op(d.conns[-1], a[1])
            elif kind == 'down':
                sim.fault('server_down')
                d.listener.down()
            elif kind == 'up':
                d.listener.up()
            elif kind == 'upd':
                n = a[1]
                if n in d.sens:
                    d.update(n, a[2], value_for(d.sens[n], a[3]))
            elif kind == 'updm':
                d.update_many([(n, st, value_for(d.sens[n], v)) for n, st, v in a[1]
                               if n in d.sens])
            elif kind == 'raw':
                if d.conns:
                    sim.fault('malformed_line')
                    d.conns[-1].send(a[1].encode('latin-1'))
            elif kind == 'calm':
                d.behav, d.sbehav = [], []
        else:
            self.loop.add_callback(getattr(self, 'do_' + kind), *a)

    def run(self, until):
        run_loop(self.sim, self.loop, until)


def value_for(d, seed):
    import random
    return gen_value(random.Random(seed), d)


def gen_spec(rng, name, port, mids_only=False, hostile=0.3, sync_timeout=20):
    greet = rng.choice(['mi', 'mi', 'mit'] if mids_only else ['mi', 'mi', 'mit', 'm', 'v4'])
    mids = greet in ('mi', 'mit')
    reqs = {'help': ['Help.', 0], 'sensor-list': ['List.', 0]}
    if greet == 'mit':
        reqs['request-timeout-hint'] = ['Hints.', 0]
    for n in RN:
        if rng.random() < 0.5:
            reqs[n] = I.gen_request(rng)
    sens = {n: I.gen_sensor(rng) for n in SN if rng.random() < 0.6}
    sb = []
    for _ in range(rng.choice([0, 0, 3, 8])):
        k = 'ok'
        if rng.random() < hostile:
            k = rng.choice(['fail', 'cut', 'ok'] + (['drop'] if mids else []))
        sb.append([k, rng.choice([0, 0, 0.01, 0.3])])
    return {'name': name, 'port': port, 'greet': greet, 'reqs': reqs, 'sensors': sens,
            'behav': I.gen_behav(rng, mids, rng.choice([0, 0, 3, 6]), sync_timeout, hostile),
            'sbehav': sb, 'first': rng.random() < 0.6}


def gen_edits(rng, live_s, live_r):
    out = []
    for _ in range(rng.choice([1, 1, 2])):
        if rng.random() < 0.7:
            n = rng.choice(SN)
            if n in live_s and rng.random() < 0.5:
                out.append(['s-', n])
                live_s.pop(n)
                if rng.random() < 0.3:
                    live_s[n] = I.gen_sensor(rng)
                    out.append(['s+', n, live_s[n]])
            else:
                live_s[n] = I.gen_sensor(rng)
                out.append(['s+', n, live_s[n]])
        else:
            n = rng.choice(RN)
            if n in live_r and rng.random() < 0.5:
                live_r.pop(n)
                out.append(['r-', n])
            else:
                live_r[n] = I.gen_request(rng)
                out.append(['r+', n, live_r[n]])
    return out


def gen_faults(rng, T, t0, di, live_s, live_r, heavy=1.0):
    """Interface changes and connection faults of device di within [t0, t0+T]."""
    ops = []
    for _ in range(int(rng.choice([0, 1, 2, rng.randint(0, 6)]) * heavy)):
        t = round(t0 + rng.uniform(0, T), 6)
        ops.append([t, 'chg', di, gen_edits(rng, live_s, live_r)])
        if rng.random() < 0.7:
            ops.append([round(t + rng.choice([0, 0, 0.05, rng.uniform(0, 2)]), 6), 'ann', di])
    for _ in range(int(rng.choice([0, 0, 1, 2, rng.randint(0, 4)]) * heavy)):
        t = round(t0 + rng.uniform(0, T), 6)
        k = rng.choice(['close', 'finish', 'half', 'reset', 'hold', 'down', 'stall', 'ann'])
        if k == 'hold':
            ops.append([t, 'srv', di, 'hold'])
            ops.append([round(t + rng.choice([0.1, 1.0, 10.0]), 6), 'srv', di, 'heal'])
        elif k == 'down':
            ops.append([t, 'down', di])
            if rng.random() < 0.8:
                ops.append([t, 'srv', di, rng.choice(['close', 'reset'])])
            if rng.random() < 0.5:
                ops.append([t, 'chg', di, gen_edits(rng, live_s, live_r)])
            ops.append([round(t + rng.choice([0.1, 2.0, 30.0]), 6), 'up', di])
        elif k == 'stall':
            ops.append([t, 'stall', rng.choice([0.01, 0.5, 2.0])])
        elif k == 'ann':
            ops.append([t, 'ann', di])
        else:
            ops.append([t, 'srv', di, k])
    return ops
