"""Scripted inspectable device and a recording inspecting client on a simulated loop."""
from sim import world, net
from sim.world import fmt, run_loop
from props import clientlib as K
import tornado.gen
from tornado import gen
from katcp import inspecting_client as IC
from katcp.inspecting_client import InspectingClientAsync

PORT = K.PORT
SETTLE = 0.5

GREETS = dict(K.GREETS)
GREETS['mit'] = [b'#version-connect katcp-protocol 5.1-MIT\n']
K.GREETS['mit'] = GREETS['mit']

STYPES = [
    ('integer', [['0', '10'], [], ['-5', '5']]),
    ('float', [[], ['-1.5', '2.5']]),
    ('boolean', [[]]),
    ('discrete', [['a', 'b'], ['a', 'b', 'c'], ['on']]),
    ('string', [[]]),
    ('lru', [[]]),
    ('timestamp', [[]]),
    ('address', [[]]),
]
DESCS = ['A thing.', '', 'Other thing', 'line one\nline two', 'caf\xe9 \\ tab\t', 'x' * 50]
UNITS = ['', 'm', 'deg C']


def gen_sensor(rng):
    t, ps = rng.choice(STYPES)
    return [t, rng.choice(DESCS), rng.choice(UNITS) if t != 'timestamp' else '', rng.choice(ps)]


def gen_request(rng):
    return [rng.choice(DESCS), rng.choice([0, 0, 2.5, 40, 0.25])]


def u(s):
    return s.encode('utf-8')


class Snap(object):
    """A complete answer to an inspection request."""
    def __init__(self, kind, name, data, conn, rec, begun):
        self.kind, self.name, self.data, self.conn, self.rec = kind, name, data, conn, rec
        self.begun = begun


class IDevice(K.Srv):
    """Device with requests and sensors that answers inspection, one request at a time."""
    BASE_REQS = ('help', 'sensor-list')

    def __init__(self, w, greet='mi', port=PORT, greet_delay=0.0, reqs=None, sensors=None,
                 behav=None, lbehav=None):
        self.reqs = dict(reqs or {})
        self.sens = dict(sensors or {})
        self.behav = list(behav or [])
        self.lbehav = list(lbehav or [])
        self.snaps = []
        self.asked = []           # (t, g, conn, kind, name)
        self.failures = []        # (t, conn, kind, how)
        self.changed_g = 0
        K.Srv.__init__(self, w, greet, port, greet_delay)

    def edit(self, edits):
        self.changed_t = self.sim.now
        self.changed_g = self.sim.stamp()
        for e in edits:
            if e[0] == 's+':
                self.sens[e[1]] = e[2]
            elif e[0] == 's-':
                self.sens.pop(e[1], None)
            elif e[0] == 'r+':
                self.reqs[e[1]] = e[2]
            elif e[0] == 'r-':
                self.reqs.pop(e[1], None)

    def announce(self, name='interface-changed'):
        if self.conns:
            self.conns[-1].send(fmt('#', name, None))

    # -- answering ------------------------------------------------------
    def _on_line(self, c, line):
        if not line:
            return
        try:
            p = world.parse_line(line)
        except world.BadLine:
            self.sim.violation('garbled-request', 'device received %r' % (line,))
            return
        c.requests.append((self.sim.now, self.sim.stamp(), p))
        if p[0] != '?':
            return
        name = p[3][0].decode() if p[3] else None
        self.asked.append((self.sim.now, self.sim.stamp(), c, p[1], name))
        self.sim.log('asked', c.idx, p[1], name)
        q = c.__dict__.setdefault('iq', [])
        q.append(p)
        if len(q) == 1:
            self._next(c)

    def _next(self, c):
        if c.iq:
            self.answer(c, c.iq[0])

    def _done(self, c):
        c.iq.pop(0)
        self._next(c)

    def inspection(self, p):
        return p[1] in ('help', 'sensor-list', 'request-timeout-hint')

    def answer(self, c, p):
        if not self.inspection(p):
            return self.other(c, p)
        lst = self.lbehav if p[3] else self.behav
        b = lst.pop(0) if lst else ['ok', 0, 0]
        how, delay, gap = b
        if delay:
            self.sim.fault('slow_answer')
            self.sim.after(delay, self._answer, c, p, how, gap)
        else:
            self._answer(c, p, how, gap)

    def other(self, c, p):
        c.send(fmt('!', p[1], p[2], 'invalid', 'Unknown request.'))
        self._done(c)

    def table(self, kind, name):
        """Rows of the answer, and the data they describe."""
        if kind == 'help':
            d = self.reqs
            rows = [[n, u(v[0])] for n, v in sorted(d.items())]
        elif kind == 'sensor-list':
            d = self.sens
            rows = [[n, u(v[1]), u(v[2]), v[0]] + list(v[3]) for n, v in sorted(d.items())]
        else:
            d = {n: v for n, v in self.reqs.items() if v[1]}
            rows = [[n, str(v[1])] for n, v in sorted(d.items())]
        if name is not None:
            rows = [r for r in rows if r[0] == name]
            d = {n: v for n, v in d.items() if n == name}
            if kind == 'request-timeout-hint' and name in self.reqs and not rows:
                rows = [[name, '0.0']]
        return rows, {n: list(v) for n, v in d.items()}

    def _answer(self, c, p, how, gap):
        sim = self.sim
        kind, mid = p[1], p[2]
        name = p[3][0].decode() if p[3] else None
        if how == 'fail':
            sim.fault('inspection_fails')
            rec = c.send(fmt('!', kind, mid, 'fail', 'Busy.'))
            self.failures.append((sim.now, c, kind, rec, name))
            return self._done(c)
        if how == 'drop':
            sim.fault('answer_dropped')
            self.failures.append((sim.now, c, kind, None, name))
            return self._done(c)
        rows, data = self.table(kind, name)
        if name is not None and not rows:
            text = 'Unknown sensor name.' if kind == 'sensor-list' else 'Unknown request method.'
            rec = c.send(fmt('!', kind, mid, 'fail', text))
            if rec is not None:
                self.snaps.append(Snap(kind, name, {}, c, rec, sim.stamp()))
            return self._done(c)
        lines = [fmt('#', kind, mid, *r) for r in rows]
        if how == 'partial':
            sim.fault('partial_answer')
            for ln in lines[:len(lines) // 2]:
                c.send(ln)
            self.failures.append((sim.now, c, kind, None, name))
            self.conn_op(c, 'close')
            return
        if how == 'malformed':
            sim.fault('malformed_answer')
            k = len(lines) // 2
            lines.insert(k, fmt('#', kind, mid, 'bad'))
            how = 'mal'
        begun = sim.stamp()
        end = fmt('!', kind, mid, 'ok', str(len(lines)))

        def fin():
            rec = c.send(end)
            if how == 'mal':
                self.failures.append((sim.now, c, kind, rec, name))
            elif rec is not None:
                self.snaps.append(Snap(kind, name, data, c, rec, begun))
            self._done(c)
        if not gap:
            for ln in lines:
                c.send(ln)
            return fin()
        sim.fault('slow_answer')

        def step():
            if lines:
                c.send(lines.pop(0))
                sim.after(gap, step)
            else:
                fin()
        step()


class IC_(InspectingClientAsync):
    pass


class InspWorld(object):
    """One inspecting client, one scripted device."""
    def __init__(self, sim, sc):
        self.sim = sim
        self.sc = sc
        self.loop = world.SimIOLoop()
        self.loop.make_current()
        self.plans, self.reqs = {}, {}
        self.stalls = []
        self.dev = self.srv = self.make_device(sc)
        if sc.get('down'):
            self.dev.listener.down()
        self.cbs = []            # callback ledger
        self.lookups = []
        self.running_cb = 0
        self.calm = False
        self.cl = self.make_client()
        for op in sc['ops']:
            sim.at(op[0], self._op, op[1], *op[2:])
        self.started = self.cl.connect()

    def make_device(self, sc):
        return IDevice(self, sc.get('greet', 'mi'), greet_delay=sc.get('greet_delay', 0.0),
                       reqs=sc['reqs'], sensors=sc['sensors'], behav=sc.get('behav'),
                       lbehav=sc.get('lbehav'))

    def make_client(self):
        sc = self.sc
        cl = IC_('127.0.0.1', PORT, ioloop=self.loop,
                 initial_inspection=sc.get('initial_inspection'))
        if 'sync_timeout' in sc:
            cl.sync_timeout = sc['sync_timeout']
        if 'resync' in sc:
            cl.initial_resync_timeout = sc['resync']
        cl.set_state_callback(self.state_cb)
        return cl

    def on_server_conn(self, c):
        pass

    # -- callback -------------------------------------------------------
    def state_cb(self, state, changes):
        sim = self.sim
        n = len(self.cbs)
        ch = {}
        for k in ('requests', 'sensors'):
            d = (changes or {}).get(k) or {}
            ch[k] = {'added': set(d.get('added') or ()), 'removed': set(d.get('removed') or ())}
        e = {'n': n, 't': sim.now, 'g': sim.stamp(), 'state': tuple(state), 'ch': ch,
             'none': changes is None, 'sensors': set(self.cl.sensors),
             'requests': set(self.cl.requests), 'end': None, 'nconn': len(self.dev.conns),
             'overlap': self.running_cb, 'conn': self.client_conn(),
             'lookups': len(self.lookups)}
        self.cbs.append(e)
        sim.log('cb', tuple(state), sorted((k, kk, sorted(v)) for k, d in ch.items()
                                           for kk, v in d.items()))
        bs = self.sc.get('cb') or []
        b = bs[n] if n < len(bs) and not self.calm else ['plain']
        e['how'] = b[0]
        if b[0] == 'plain':
            e['end'], e['gend'] = sim.now, sim.stamp()
            return None
        if b[0] == 'raise':
            sim.fault('callback_raises')
            e['end'], e['gend'] = sim.now, sim.stamp()
            raise RuntimeError('state callback failed')
        return self._slow_cb(e, b)

    @gen.coroutine
    def _slow_cb(self, e, b):
        self.running_cb += 1
        try:
            if b[0] in ('sleep', 'sleepraise'):
                self.sim.fault('slow_callback')
                yield gen.sleep(b[1])
                if b[0] == 'sleepraise':
                    self.sim.fault('callback_raises')
                    raise RuntimeError('state callback failed later')
            elif b[0] == 'lookup' and e['state'][3]:
                yield self.lookup(b[1], b[2])
        finally:
            self.running_cb -= 1
            e['end'], e['gend'] = self.sim.now, self.sim.stamp()

    def client_conn(self):
        """Index of the connection the client holds (None: none)."""
        for c in reversed(self.dev.conns):
            if c.client_open():
                return c.idx
        return None

    # -- operations -------------------------------------------------------
    def _op(self, kind, *a):
        sim = self.sim
        sim.ops_done += 1
        sim.log('op', kind)
        if kind == 'chg':
            self.dev.edit(a[0])
        elif kind == 'ann':
            self.dev.announce(*a)
        elif kind == 'srv':
            if self.dev.conns:
                self.dev.conn_op(self.dev.conns[-1], a[0])
        elif kind == 'down':
            sim.fault('server_down')
            self.dev.listener.down()
        elif kind == 'up':
            self.dev.listener.up()
        elif kind == 'stall':
            sim.fault('loop_stall')
            self.stalls.append((sim.now, a[0]))
            self.loop.stall(a[0])
        elif kind == 'lookup':
            self.loop.add_callback(self.lookup, *a)
        elif kind == 'raw':
            if self.dev.conns:
                sim.fault('malformed_line')
                self.dev.conns[-1].send(a[0].encode('latin-1'))
        elif kind == 'stop':
            self.loop.add_callback(self.do_stop)
        elif kind == 'calm':
            self.calm = True
            self.dev.behav = []
            self.dev.lbehav = []
        else:
            getattr(self, 'do_' + kind)(*a)

    def do_stop(self):
        self.t_stop = self.sim.now
        self.cl.stop()

    @gen.coroutine
    def lookup(self, what, name):
        sim = self.sim
        e = {'what': what, 'name': name, 't': sim.now, 'g': sim.stamp(), 'end': None,
             'obj': None, 'exc': None}
        self.lookups.append(e)
        try:
            if what == 's':
                e['obj'] = yield self.cl.future_get_sensor(name)
            else:
                e['obj'] = yield self.cl.future_get_request(name)
        except Exception as x:
            e['exc'] = repr(x)
        e['end'], e['gend'] = sim.now, sim.stamp()
        sim.log('lookup', what, name, e['obj'] is not None, e['exc'])
        raise gen.Return(e)

    def run(self, until):
        run_loop(self.sim, self.loop, until)


# -- oracle helpers -------------------------------------------------------
def parsed_params(stype, params):
    if stype == 'integer':
        return [int(p) for p in params]
    if stype == 'float':
        return [float(p) for p in params]
    if stype == 'discrete':
        return list(params)
    return None


def sensor_mismatch(obj, name, d):
    """What of sensor object obj does not describe definition d (None: all fine)."""
    stype, desc, units, params = d
    if obj.name != name:
        return 'name %r' % (obj.name,)
    if obj.stype != stype:
        return 'type %r instead of %r' % (obj.stype, stype)
    if obj.description != desc:
        return 'description %r instead of %r' % (obj.description, desc)
    if obj.units != units:
        return 'units %r instead of %r' % (obj.units, units)
    want = parsed_params(stype, params)
    if want and list(obj.params or []) != want:
        return 'params %r instead of %r' % (obj.params, want)
    return None


def request_mismatch(obj, name, d, hints):
    desc, hint = d
    if obj.name != name:
        return 'name %r' % (obj.name,)
    if obj.description != desc:
        return 'description %r instead of %r' % (obj.description, desc)
    want = float(hint) if hint and hints else None
    if obj.timeout_hint != want:
        return 'timeout hint %r instead of %r' % (obj.timeout_hint, want)
    return None


# -- generators -----------------------------------------------------------
SN = ['s%d' % k for k in range(6)]
RN = ['r%d' % k for k in range(5)]


def gen_edits(rng, live_s, live_r):
    """Edits applied to the device model held in live_s, live_r."""
    out = []
    for _ in range(rng.choice([1, 1, 1, 2, 3])):
        if rng.random() < 0.6:
            n = rng.choice(SN)
            if n in live_s and rng.random() < 0.5:
                del live_s[n]
                out.append(['s-', n])
            else:
                d = gen_sensor(rng)
                if n in live_s and rng.random() < 0.5:      # small change
                    d = list(live_s[n])
                    d[1 if d[0] == 'timestamp' else rng.choice([1, 2])] = rng.choice(UNITS + DESCS)
                live_s[n] = d
                out.append(['s+', n, d])
        else:
            n = rng.choice(RN)
            if n in live_r and rng.random() < 0.5:
                del live_r[n]
                out.append(['r-', n])
            else:
                live_r[n] = gen_request(rng)
                out.append(['r+', n, live_r[n]])
    return out


def gen_base(rng, hints):
    reqs = {'help': ['Help.', 0], 'sensor-list': ['List.', 0]}
    if hints:
        reqs['request-timeout-hint'] = ['Hints.', 0]
    for n in RN:
        if rng.random() < 0.5:
            reqs[n] = gen_request(rng)
    sens = {n: gen_sensor(rng) for n in SN if rng.random() < 0.5}
    return reqs, sens


def gen_behav(rng, mids, n, sync_timeout, hostile):
    out = []
    for _ in range(n):
        if rng.random() > hostile:
            out.append(['ok', rng.choice([0, 0, 0, 0.01, 0.3]), rng.choice([0, 0, 0, 0.02])])
            continue
        kinds = ['fail', 'fail', 'partial', 'malformed', 'ok']
        if mids:
            kinds += ['drop', 'late']
        k = rng.choice(kinds)
        d = rng.choice([0, 0, 0.05, 1.0])
        g = rng.choice([0, 0, 0.05])
        if k == 'late':
            k, d = 'ok', rng.choice([0.5, 1.0, 1.2]) * sync_timeout
        out.append([k, round(d, 6), g])
    return out


def gen_scenario(rng, tier, churn=1.0, hostile=0.35):
    greet = rng.choice(['mi', 'mi', 'mit', 'mit', 'm', 'v4'])
    mids = greet in ('mi', 'mit')
    hints = greet == 'mit'
    reqs, sens = gen_base(rng, hints)
    live_s, live_r = dict(sens), dict(reqs)
    st = rng.choice([20, 20, 5, 2])
    T = rng.choice([2.0, 10.0, 60.0, 300.0])
    ops = []
    times = sorted(round(rng.uniform(0, T), 6) for _ in range(
        int(rng.choice([0, 1, 2, rng.randint(0, 8 if tier == 'quick' else 25)]) * churn)))
    last = -1
    for t in times:
        ops.append([t, 'chg', gen_edits(rng, live_s, live_r)])
        last = t
        if rng.random() < 0.7:
            ta = round(t + rng.choice([0, 0, 0.001, 0.05, rng.uniform(0, 2)]), 6)
            ops.append([ta, 'ann', rng.choice(['interface-changed', 'interface-changed',
                                               'device-changed'])])
    for _ in range(rng.choice([0, 0, 1, 2, rng.randint(0, 6)])):
        t = round(rng.uniform(0, T), 6)
        k = rng.choice(['close', 'finish', 'half', 'reset', 'hold', 'down', 'stall', 'ann',
                        'raw'])
        if k == 'hold':
            ops.append([t, 'srv', 'hold'])
            ops.append([round(t + rng.choice([0.1, 1.0, 10.0]), 6), 'srv', 'heal'])
        elif k == 'down':
            ops.append([t, 'down'])
            if rng.random() < 0.8:
                ops.append([t, 'srv', rng.choice(['close', 'reset'])])
            if rng.random() < 0.5:
                ops.append([t, 'chg', gen_edits(rng, live_s, live_r)])
            ops.append([round(t + rng.choice([0.1, 2.0, 30.0]), 6), 'up'])
        elif k == 'stall':
            ops.append([t, 'stall', rng.choice([0.01, 0.5, 3.0])])
        elif k == 'ann':
            for _ in range(rng.choice([1, 3])):
                ops.append([t, 'ann'])
        elif k == 'raw':
            ops.append([t, 'raw', rng.choice(K.BAD_LINES) + '\n'])
        else:
            ops.append([t, 'srv', k])
    for _ in range(rng.choice([0, 0, 1, 2, rng.randint(0, 6)])):
        t = round(rng.choice([rng.uniform(0, T), rng.uniform(0, 0.5)]), 6)
        ops.append([t, 'lookup', *(['s', rng.choice(SN)] if rng.random() < 0.6
                                   else ['r', rng.choice(RN)])])
        if rng.random() < 0.3:         # something that exists on the device but is not announced
            n = rng.choice(SN)
            live_s[n] = gen_sensor(rng)
            ops.append([t, 'chg', [['s+', n, live_s[n]]]])
            ops.append([t, 'lookup', 's', n])
        elif rng.random() < 0.2:
            n = rng.choice(RN)
            live_r[n] = gen_request(rng)
            ops.append([t, 'chg', [['r+', n, live_r[n]]]])
            ops.append([t, 'lookup', 'r', n])
    cb = []
    for _ in range(rng.choice([0, 0, 5, 20])):
        if rng.random() < 0.7:
            cb.append(['plain'])
        else:
            k = rng.choice(['sleep', 'sleep', 'sleep', 'raise', 'sleepraise', 'lookup'])
            if k == 'lookup':
                cb.append(['lookup'] + rng.choice([['s', rng.choice(SN)], ['r', rng.choice(RN)]]))
            elif k == 'raise':
                cb.append(['raise'])
            else:
                cb.append([k, rng.choice([0.01, 0.5, 3.0, 10.0])])
    ops.sort(key=lambda o: o[0])
    end = max([o[0] for o in ops] + [0])
    ops.append([round(end + 0.01, 6), 'ann', rng.choice(['interface-changed'] * 3 + ['device-changed'])])
    ops.append([round(end + 0.01, 6), 'calm'])
    n = rng.choice([0, 4, 12])
    sc = {'greet': greet, 'reqs': reqs, 'sensors': sens, 'ops': ops, 'cb': cb,
          'sync_timeout': st, 'net': world.gen_net(rng),
          'behav': gen_behav(rng, mids, n, st, hostile),
          'lbehav': gen_behav(rng, mids, rng.choice([0, 0, 3]), 5.0, hostile / 2)}
    if rng.random() < 0.2:
        sc['greet_delay'] = rng.choice([0.01, 0.5, 4.0])
    if rng.random() < 0.2:
        sc['down'] = True
        sc['ops'].insert(0, [rng.choice([0.1, 1.5, 20.0]), 'up'])
        sc['ops'].sort(key=lambda o: o[0])
    return sc
