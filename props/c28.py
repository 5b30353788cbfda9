"""C28: introspection replies match the device's actual sensors and requests."""
import functools
import re
import threading
from sim import world
from sim.world import katcp, fmt
from katcp import Sensor, ProtocolFlags
from katcp.kattypes import request_timeout_hint
from props import serverlib as S
from props.samplib import ST, BIG, idx_lo, idx_hi, num

ID = 'C28'
SHRINK = ['ops', 'threads']
RULE = ('1-4 clients ask for help, sensors, values, clients, versions and timeout hints with and '
        'without ids, with exact, unknown, regular expression and invalid names, one after another '
        'and pipelined, while 1-8 sensors of all types are added, removed, redefined and updated '
        'from the loop, from request handlers and from other threads and clients come and go; '
        'KATCP 5 and 4 servers, handlers in the loop or in their own thread; non-trivial: a '
        'request overlapped a change or a filter was used')
REAL = ['katcp.server', 'katcp.core', 'katcp.kattypes', 'tornado ioloop/iostream/gen']
STUB = ['TCP sockets and poller', 'clock', 'thread scheduler', 'clients (scripted)']
RUNS = {'quick': 1800, 'thorough': 70000}
ASSUME = ['each sensor is added, removed and set by one thread at a time',
          'the name filter is the regular expression dialect of the standard library']

NAMES = ['a', 'a.b', 'A', 'psu.volt', 'psu.volt2', 'x/y', '/z', 'z/', 'b-c_d', '\u00e9t\u00e9',
         'a.*', '[x]']
DESCS = ['', 'a sensor', 'tab\tand\nline', '\\ back', '\u00b5m wide', 'x' * 300]
FILTERS = ['/a/', '/^a$/', '/./', '//', '/volt/', '/volt$/', '/x/y/', '/^$/', '/A|b/', '/\\./',
           '/[/', '/(/', '/(?i)^a/', '/\u00e9/', '/a.*/', '/nothing/', '/\\d$/']
TYPES = ['integer', 'float', 'boolean', 'discrete', 'string', 'timestamp', 'lru', 'address']
V5 = ProtocolFlags(5, 0, [ProtocolFlags.MULTI_CLIENT, ProtocolFlags.MESSAGE_IDS])
V51 = ProtocolFlags(5, 1, [ProtocolFlags.MULTI_CLIENT, ProtocolFlags.MESSAGE_IDS,
                           ProtocolFlags.REQUEST_TIMEOUT_HINTS])
V4 = ProtocolFlags(4, 0, [ProtocolFlags.MULTI_CLIENT])
BASE = ['client-list', 'halt', 'help', 'log-level', 'restart', 'sensor-list', 'sensor-sampling',
        'sensor-sampling-clear', 'sensor-value', 'version-list', 'watchdog', 'request-timeout-hint']
JUDGED = ('help', 'sensor-list', 'sensor-value', 'client-list', 'version-list',
          'request-timeout-hint')


def gen_def(rng):
    typ = rng.choice(TYPES)
    d = {'type': typ, 'desc': rng.choice(DESCS),
         'units': '' if typ == 'timestamp' else rng.choice(['', 'V', 'm/s', '\u00b0 C'])}
    if typ in ('integer', 'float'):
        d['params'] = rng.choice([[-100, 100], [-1e9, 5e8], [0, 10], []])
        if typ == 'integer':
            d['params'] = [int(x) for x in d['params']]
    if typ == 'discrete':
        d['params'] = rng.choice([['on', 'off'], ['a b', 'c', ''], ['only']])
    return d


def gen_value(rng, d):
    t = d['type']
    if t == 'integer':
        return rng.choice([0, 1, -7, 10 ** 12, rng.randint(-99, 99)])
    if t == 'float':
        return rng.choice([0.0, -1.5, 1e-9, 12345.678, 3e8])
    if t == 'boolean':
        return rng.random() < 0.5
    if t == 'discrete':
        return rng.choice(d['params'])
    if t == 'string':
        return rng.choice(['', 'a b', 'x\ny\t\\', '\u00e9', 'z' * 200])
    if t == 'timestamp':
        return rng.choice([0.0, 1.5e9, 1.5e9 + 0.25])
    if t == 'lru':
        return rng.choice(['nominal', 'error'])
    return rng.choice([['192.168.1.1', 80], ['1.2.3.4', None], ['0.0.0.0', 7147]])


def gen(rng, tier):
    managed = rng.random() < 0.55
    proto = rng.choice(['5', '5', '5.1', '5.1', '4'])
    names = rng.sample(NAMES, rng.randint(1, 8))
    T = rng.choice([0.05, 0.5, 2.0])
    ops = []
    nclients = rng.randint(1, 4)
    for ci in range(nclients):
        c = 'c%d' % ci
        t0 = rng.choice([0.0, 0.0, round(rng.uniform(0, T), 6)])
        ops.append([t0, c, 'connect'])
        mid = 0
        for _ in range(rng.randint(1, 12)):
            t = round(rng.choice([t0, rng.uniform(t0, T + 0.1)]), 6)
            kind = rng.choice(['help', 'sensor-list', 'sensor-list', 'sensor-list', 'sensor-value',
                               'sensor-value', 'sensor-value', 'client-list', 'version-list',
                               'request-timeout-hint', 'r-upd', 'r-churn', 'r-conc'])
            mid += 1
            m = str(mid) if proto[0] == '5' and rng.random() < 0.7 else None
            args = []
            if kind in ('sensor-list', 'sensor-value'):
                r = rng.random()
                if r < 0.35:
                    args = [rng.choice(names)]
                elif r < 0.7:
                    args = [rng.choice(FILTERS)]
                elif r < 0.78:
                    args = [rng.choice(['nope', '', 'a', 'psu', '/x', '\xff'])]
            elif kind in ('help', 'request-timeout-hint'):
                r = rng.random()
                if r < 0.5:
                    args = [rng.choice(BASE + ['r-sync', 'r-hint', 'r-hint0', 'nope', '', 'help '])]
            elif kind in ('r-upd', 'r-churn'):
                n = rng.choice(names)
                d = gen_def(rng)
                args = [str(names.index(n)), str(rng.randrange(1000))]
            elif kind == 'r-conc':
                args = ['t%d' % mid, str(rng.choice([0, 5, 100])), '3']
            enc = [a.encode('latin-1') if a == '\xff' else a.encode('utf-8') for a in args]
            ops.append([t, c, 'send', fmt('?', kind, m, *enc).decode('latin-1')])
        if ci and rng.random() < 0.4:
            ops.append([round(rng.uniform(t0, T), 6), c,
                        rng.choice(['close', 'finish', 'half', 'reset', 'vanish', 'noread'])])
    initial = {n: gen_def(rng) for n in names if rng.random() < 0.7}
    # each sensor belongs to the loop or to one thread
    nth = rng.randint(1, 3) if managed else 0
    owner = {n: rng.randrange(nth) if nth and rng.random() < 0.75 else None for n in names}
    busy = rng.choice([5, 15, 40])

    def change(n):
        r = rng.random()
        if r < 0.3:
            return ['add', n, gen_def(rng)]
        if r < 0.5:
            return ['remove', n, rng.random() < 0.5]
        d = gen_def(rng)
        return ['set', n, rng.randrange(1000), rng.choice(list(ST))]
    threads = []
    for k in range(nth):
        mine = [n for n in names if owner[n] == k]
        if mine:
            threads.append([[round(rng.choice([0, 0, 0.0005, rng.uniform(0, 8 * T / busy)]), 6)] +
                            change(rng.choice(mine)) for _ in range(busy)])
    mine = [n for n in names if owner[n] is None]
    if mine:
        for _ in range(busy):
            ops.append([round(rng.uniform(0, T), 6), '@'] + change(rng.choice(mine)))
    if not managed and rng.random() < 0.2:
        ops.append([round(rng.uniform(0, T), 6), '@', 'stall', rng.choice([0.05, 0.3])])
    ops.sort(key=lambda o: o[0])
    return {'ops': ops, 'threads': threads, 'names': names, 'initial': initial, 'proto': proto,
            'owner': owner, 'managed': managed, 'net': world.gen_net(rng),
            'handler_thread': managed and rng.random() < 0.5,
            'preempt': world.gen_preempt(rng, rng.choice([0, 20, 60, 120]), hi=rng.choice([50, 500]),
                                         stall_prob=0.6, max_stall=max(0.01, T / 20))
            if managed else [],
            'preempt_files': rng.choice([None, ['server.py'], ['server.py'],
                                         ['server.py', 'core.py']]),
            'pauses': [round(rng.choice([0, 0, 0, rng.uniform(0, T / 3)]), 6)
                       for _ in range(rng.choice([0, 40, 100]))] if managed else [],
            'horizon': 300}


class Mixin(object):
    def sensors_cfg(self, dev):
        self.objs = {}
        self.cur = {}           # name -> record of the registered sensor
        self.recs = {}          # name -> [record]
        self.intro = []
        self.serial = 0
        for n, d in sorted(self.initial.items()):
            self.do_add(n, d)

    def do_add(self, n, d):
        if n in self.cur:
            self.do_remove(n, True)
        typ = d['type']
        kw = {'params': list(d['params'])} if 'params' in d else {}
        s = getattr(Sensor, typ)(n, d['desc'], d['units'], **kw)
        rec = {'def': d, 'sensor': s, 'a0': 0, 'a1': BIG, 'r0': BIG, 'r1': BIG, 'upd': []}
        self.update(rec, 0, 'unknown')
        rec['a0'] = self.sim.stamp()
        self.recs.setdefault(n, []).append(rec)
        self.cur[n] = rec
        self.add_sensor(s)
        rec['a1'] = self.sim.stamp()
        self.sim.log('add', n)

    def do_remove(self, n, by_name):
        rec = self.cur.pop(n, None)
        if rec is None:
            return
        rec['r0'] = self.sim.stamp()
        self.remove_sensor(n if by_name else rec['sensor'])
        rec['r1'] = self.sim.stamp()
        self.sim.log('remove', n)

    def do_set(self, n, seed, status):
        rec = self.cur.get(n)
        if rec is not None:
            self.update(rec, seed, status)

    def update(self, rec, seed, status):
        import random
        v = gen_value(random.Random(seed), rec['def'])
        self.serial += 1
        ts = 1.4e9 + self.serial * 0.25
        u = {'g0': self.sim.stamp(), 'g1': BIG, 'ts': ts, 'status': status, 'value': v}
        rec['upd'].append(u)
        if rec['def']['type'] == 'lru':
            v = {'nominal': Sensor.LRU_NOMINAL, 'error': Sensor.LRU_ERROR}[v]
        elif rec['def']['type'] == 'address':
            v = tuple(v)
        rec['sensor'].set(ts, ST[status], v)
        u['g1'] = self.sim.stamp()

    def _mine(self, msg):
        n = self.scnames[int(msg.arguments[0])]
        return n if self.scowner[n] is None and not self.in_thread else None

    def request_r_upd(self, req, msg):
        """update a sensor"""
        n = self._mine(msg)
        if n:
            self.do_set(n, int(msg.arguments[1]), 'warn')
        return req.make_reply('ok')

    def request_r_churn(self, req, msg):
        """remove or add a sensor"""
        n = self._mine(msg)
        if n:
            if n in self.cur:
                self.do_remove(n, True)
            else:
                self.do_add(n, {'type': 'integer', 'desc': 'from a handler', 'units': '',
                                'params': [0, 5]})
        return req.make_reply('ok')

    @request_timeout_hint(12.5)
    def request_r_hint(self, req, msg):
        """slow one"""
        return req.make_reply('ok')

    @request_timeout_hint(None)
    def request_r_hint0(self, req, msg):
        """no hint"""
        return req.make_reply('ok')


def wrap(name, fn):
    @functools.wraps(fn)
    def handler(self, req, msg):
        rec = {'name': name, 'mid': msg.mid, 'args': list(msg.arguments),
               'addr': req.client_connection.address, 'g0': self.sim.stamp(), 'g1': BIG,
               't0': self.sim.now}
        self.intro.append(rec)
        self.sim.log('intro', name, msg.mid)
        inform = req.inform

        def slow_inform(*args):
            if self.pauses:
                d = self.pauses.pop()
                if d:
                    self.sim.fault('thread_paused')
                    self.sim.sleep(d)
            return inform(*args)
        if self.pauses and name.startswith('sensor'):
            req.inform = slow_inform
        try:
            return fn(self, req, msg)
        finally:
            rec['g1'] = self.sim.stamp()
            rec['t1'] = self.sim.now
    return handler


def device_class(sc):
    info = {'5': V5, '5.1': V51, '4': V4}[sc['proto']]
    base = (Mixin, S.Dev, katcp.DeviceServer) if sc['managed'] else (Mixin, S.Dev)
    ns = {'PROTOCOL_INFO': info, 'initial': sc['initial'], 'scnames': sc['names'],
          'scowner': sc['owner'], 'pauses': list(sc['pauses']), 'in_thread': sc['handler_thread']}
    if sc['managed']:
        def init(self, *a, **kw):
            katcp.DeviceServer.__init__(self, *a, **kw)
        ns['__init__'] = init
    D = type(S.Dev)('D', base, ns)
    for name in JUDGED:
        if name in D._request_handlers:
            D._request_handlers[name] = wrap(name, D._request_handlers[name])
    return D


class World(S.ServerWorld):
    managed = False

    def in_loop(self, fn, *args):
        loop = self.dev.ioloop if self.managed else self.loop
        if loop is not None:
            loop.add_callback(fn, *args)

    def dev_add(self, n, d):
        self.dev.do_add(n, d)

    def dev_remove(self, n, by_name):
        self.dev.do_remove(n, by_name)

    def dev_set(self, n, seed, status):
        self.dev.do_set(n, seed, status)


def run(sim, sc):
    D = device_class(sc)
    end = max([o[0] for o in sc['ops']] + [0]) + 3 + sum(sc['pauses'])
    if not sc['managed']:
        w = World(sim, D)
        w.schedule(sc['ops'])
        w.run(end)
        judge(sim, sc, w, D)
        return
    w = World.__new__(World)
    w.sim, w.managed, w.loop = sim, True, None
    w.clients = world.Clients(sim, S.PORT)
    w.dev = D('127.0.0.1', S.PORT)
    w.dev.set_concurrency_options(thread_safe=True, handler_thread=sc['handler_thread'])
    w.dev.start(timeout=5)
    t0 = sim.now
    w.schedule([[o[0] + t0] + o[1:] for o in sc['ops']])

    def worker(seq):
        for dt, kind, n, *args in seq:
            if dt:
                sim.sleep(dt)
            try:
                getattr(w.dev, 'do_' + kind)(n, *args)
            except world.core.SimAbort:
                raise
            except Exception as e:
                sim.violation('raised', '%s %s raised %s: %s' % (kind, n, type(e).__name__, e))
    ts = [threading.Thread(target=worker, args=(seq,)) for seq in sc['threads']]
    for th in ts:
        th.start()
    for th in ts:
        th.join()
    if t0 + end > sim.now:
        sim.sleep(t0 + end - sim.now)
    judge(sim, sc, w, D)
    w.dev.stop()
    w.dev.join(20)


# -- oracle -------------------------------------------------------------------
def expected_params(d):
    return d.get('params', [])


def params_ok(d, args):
    want = d.get('params', [])
    if len(args) != len(want):
        return False
    if d['type'] == 'integer':
        return all(re.match(b'-?[0-9]+$', a) and int(a) == p for a, p in zip(args, want))
    if d['type'] == 'float':
        return all(num(a) == p for a, p in zip(args, want))
    return [a.decode('utf-8') for a in args] == want


def value_ok(d, u, args, major):
    ts, status, value = args
    scale = 1000.0 if major < 5 else 1.0
    t = num(ts)
    if t is None or abs(t / scale - u['ts']) > 1e-3 or status != u['status'].encode():
        return False
    v, typ = u['value'], d['type']
    if typ == 'integer':
        return value == str(v).encode()
    if typ == 'float':
        return num(value) is not None and abs(num(value) - v) <= 1e-9 * max(1, abs(v))
    if typ == 'boolean':
        return value == (b'1' if v else b'0')
    if typ == 'timestamp':
        return num(value) is not None and abs(num(value) / scale - v) < 1e-3
    if typ == 'address':
        return value == (v[0] if v[1] is None else '%s:%d' % tuple(v)).encode()
    return value == v.encode('utf-8')


def selects(args):
    """-> (exact, predicate) or None when the request has to fail"""
    if not args:
        return False, lambda n: True
    try:
        p = args[0].decode('utf-8')
    except UnicodeDecodeError:
        return None
    if len(p) > 1 and p[0] == '/' and p[-1] == '/':
        try:
            r = re.compile(p[1:-1])
        except re.error:
            return None
        return False, lambda n: r.search(n) is not None
    return True, lambda n: n == p


def judge(sim, sc, w, D):
    dev = w.dev
    major = int(sc['proto'][0])
    for cname, c in w.clients.conns.items():
        addr = '%s:%d' % c.ep.laddr if c.ep.laddr else None
        mine = [r for r in dev.intro if r['addr'] == addr]
        pend, answers = {}, []
        for t, g, p, line in world.parsed(c):
            if p is None:
                sim.violation('garbled', '%s received %r' % (cname, line[:200]))
                continue
            mt, nm, mid, args = p
            if nm not in JUDGED:
                continue
            if mt == '#':
                pend.setdefault((nm, mid), []).append(args)
            elif mt == '!':
                answers.append((nm, mid, args, pend.pop((nm, mid), [])))
        gone = c.eof is not None or c.closed_locally or c.fin_after_flush
        known = [x for x in answers if x[0] in D._request_handlers]
        for nm, mid, args, inf in answers:
            if nm not in D._request_handlers and args[:1] != [b'invalid']:
                sim.violation('unknown', '%s: %s is not offered but was answered %r' % (
                    cname, nm, args))
        if pend and not gone and not paused(sc, cname):
            sim.violation('stray', '%s received informs without a reply: %r' % (
                cname, sorted(pend)[:3]))
        if len(known) != len(mine) and not gone and not paused(sc, cname):
            sim.violation('unanswered', '%s: %d requests handled, %d replies' % (
                cname, len(mine), len(known)))
        for r, a in zip(mine, known):
            nm, mid, args, inf = a
            rmid = r['mid'].decode() if isinstance(r['mid'], bytes) else r['mid']
            if (nm, mid) != (r['name'], rmid):
                sim.violation('order', '%s: the answer to %s[%s] is %s[%s]' % (
                    cname, r['name'], r['mid'], nm, mid))
                break
            err = check(sim, sc, w, D, r, args, inf, major)
            if err:
                kind, text = err
                sim.violation(kind, '%s: ?%s %r answered %r with %d informs: %s' % (
                    cname, nm, r['args'], args[:3], len(inf), text))
            sim.probe('answers checked')


def paused(sc, cname):
    return any(o[1] == cname and o[2] in ('noread', 'vanish') for o in sc['ops'])


def check(sim, sc, w, D, r, args, inf, major):
    nm = r['name']
    if args[:1] == [b'ok']:
        if len(args) != 2 or args[1] != str(len(inf)).encode():
            return 'count', 'the count is not the number of informs'
    elif args[:1] != [b'fail'] or len(args) != 2:
        return 'reply', 'neither ok nor a failure'
    elif inf:
        return 'informs', 'a failure with informs %r' % (inf[:2],)
    ok = args[0] == b'ok'
    dev = w.dev
    if nm == 'help':
        return check_help(sc, D, r, ok, inf)
    if nm == 'request-timeout-hint':
        if r['args'] and r['args'][0]:
            known = r['args'][0].decode('utf-8') in offered(sc, D)
            want = [[r['args'][0], 12.5 if r['args'][0] == b'r-hint' else 0]] if known else None
        else:
            want = [[b'r-hint', 12.5]]
        if (want is None) == ok:
            return 'reply', 'expected %s' % ('ok' if want else 'a failure')
        got = [[i[0], num(i[1])] for i in inf]
        return None if not ok or got == want else ('hint', 'informs %r' % (inf,))
    if nm == 'version-list':
        got = [i[0] for i in inf]
        if not ok or got[:3] != [b'katcp-protocol', b'katcp-library', b'katcp-device'] or \
                len(got) != 3:
            return 'versions', 'informs %r' % (inf,)
        dv = inf[2]
        if inf[0][1:] != [str(D.PROTOCOL_INFO).encode()] or dv[1:] != [
                b'simdev-1.2', b'simdev-3.4x']:
            return 'versions', 'informs %r' % (inf,)
        return None
    if nm == 'client-list':
        return check_clients(sim, w, r, ok, inf)
    return check_sensors(sim, sc, dev, r, ok, inf, major)


def offered(sc, D):
    names = set(BASE) | set(['r-upd', 'r-churn', 'r-hint', 'r-hint0'])
    for k in dir(S.Dev):
        if k.startswith('request_r_'):
            names.add(k[8:].replace('_', '-'))
    if sc['proto'] != '5.1':
        names.discard('request-timeout-hint')
    if sc['proto'] == '4':
        names.discard('version-list')
    return names


def check_help(sc, D, r, ok, inf):
    names = offered(sc, D)
    if r['args']:
        want = [r['args'][0].decode('utf-8')] if r['args'][0].decode('utf-8') in names else None
    else:
        want = sorted(names)
    if (want is None) == ok:
        return 'reply', 'expected %s' % ('ok' if want else 'a failure')
    if not ok:
        return None
    got = [i[0].decode() for i in inf]
    if got != want:
        return 'help', 'requests listed: %s, offered: %s' % (
            sorted(set(got) - set(want)) or got, sorted(set(want) - set(got)))
    for i in inf:
        doc = getattr(D, 'request_' + i[0].decode().replace('-', '_')).__doc__
        if len(i) != 2 or i[1].decode('utf-8').strip() != doc.strip():
            return 'help', 'description of %r' % (i[0],)
    return None


def check_clients(sim, w, r, ok, inf):
    if not ok:
        return 'reply', 'expected ok'
    got = [i[0].decode() for i in inf]
    if len(set(got)) != len(got):
        return 'clients', 'a client listed twice: %r' % got
    hooks = {}
    for g, kind, conn in w.dev.hooks:
        hooks.setdefault(conn.address, {})[kind] = g
    must, may = set(), set()
    for cname, c in w.clients.conns.items():
        if not c.ep.laddr:
            continue
        addr = '%s:%d' % c.ep.laddr
        h = hooks.get(addr, {})
        left = c.closed_locally or c.eof is not None or c.fin_after_flush or h.get('disconnect')
        if not left and any(x['addr'] == addr and x['g1'] < r['g0'] for x in w.dev.intro):
            must.add(addr)
        may.add(addr)
    must.add(r['addr'])
    if not must <= set(got):
        return 'clients', 'connected but not listed: %s' % sorted(must - set(got))
    extra = set(got) - may
    left = [g for g, kind, conn in w.dev.hooks if kind == 'disconnect']
    if extra and not any(g < r['g1'] for g in left) and not any(
            c.closed_locally for c in w.clients.conns.values()):
        return 'clients', 'listed but never connected: %s' % sorted(extra)
    for addr in got:
        h = hooks.get(addr, {})
        if h.get('disconnect') and h['disconnect'] < r['g0'] and addr != r['addr']:
            after = [x for x in w.dev.intro if h['disconnect'] < x['g0'] and x['t0'] < r['t0'] - 1]
            if after:
                return 'clients', '%s is listed long after it disconnected' % addr
    return None


def check_sensors(sim, sc, dev, r, ok, inf, major):
    sel = selects(r['args'])
    if sel is None:
        return None if not ok else ('reply', 'an invalid filter was accepted')
    exact, pred = sel
    off = 0 if r['name'] == 'sensor-list' else 2
    got = []
    for i in inf:
        if len(i) < off + 3 or (off and (len(i) != 5 or i[1] != b'1')):
            return 'inform', 'malformed inform %r' % (i,)
        got.append(i[off].decode('utf-8'))
    if r['args']:
        sim.probe('filtered')
    if got != sorted(got) or len(set(got)) != len(got):
        return 'sorted', 'names %s are not sorted' % got
    bad = [n for n in got if not pred(n)]
    if bad:
        return 'filter', '%s does not match' % bad
    g0, g1 = r['g0'], r['g1']
    # possible stretches of stamps for what is claimed about each name
    claims = {}
    overlap = False
    for n, recs in dev.recs.items():
        if not pred(n):
            continue
        if n in got:
            i = inf[got.index(n)]
            poss = []
            why = 'no such sensor was registered'
            for rec in recs:
                d = rec['def']
                if rec['a0'] > g1 or rec['r1'] < g0:
                    continue
                if off:
                    cand = rec['upd'][idx_lo(rec['upd'], g0):idx_hi(rec['upd'], g1) + 1]
                    if not any(value_ok(d, u, [i[0], i[3], i[4]], major) for u in cand):
                        why = 'the reading %r was not current (candidates %r)' % (i, [
                            (u['ts'], u['status'], u['value']) for u in cand])
                        continue
                else:
                    if i[1:4] != [d['desc'].encode('utf-8'), d['units'].encode('utf-8'),
                                  d['type'].encode()] or not params_ok(d, i[4:]):
                        why = '%r does not describe the sensor %r' % (i, d)
                        continue
                poss.append((rec['a0'], rec['r1']))
            if not poss:
                return 'sensor', '%s: %s' % (n, why)
        else:
            poss, at = [], 0
            for rec in recs:
                poss.append((at, rec['a1']))
                at = rec['r0']
            poss.append((at, BIG))
        claims[n] = poss
        if any(g0 < g < g1 for rec in recs for g in (rec['a1'], rec['r0'], rec['a0'], rec['r1'])):
            overlap = True
    for n in got:
        if n not in dev.recs:
            return 'sensor', '%s was never registered' % n
    if overlap:
        sim.probe('requests overlapping changes')
    if exact and not got:
        if ok:
            return 'reply', 'an unknown name was accepted'
    elif not ok:
        return 'reply', 'the request failed'
    if exact and not ok and not any(True for n in claims):
        return None
    points = set([g0, g1])
    for poss in claims.values():
        for a, b in poss:
            points.update(x for x in (a, b) if g0 <= x <= g1)
    for x in sorted(points):
        if all(any(a <= x <= b for a, b in poss) for poss in claims.values()):
            return None
    wrong = [n for n, poss in claims.items() if not any(a <= g1 and b >= g0 for a, b in poss)]
    return 'set', 'the sensors listed %s were not those registered at any moment of the request%s' \
        % (got, ' (wrong: %s)' % ', '.join('%s %s' % (
            n, 'listed' if n in got else 'missing') for n in wrong) if wrong else '')
