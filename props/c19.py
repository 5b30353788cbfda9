"""C19: the threaded server handles one request at a time and loses no reply."""
import threading
import concurrent.futures
from sim import world, core
from sim.world import katcp, fmt
from katcp import Sensor, Message, AsyncReply, FailReply
from katcp.kattypes import request, return_reply, Str, Int
from props import serverlib as S

ID = 'C19'
SHRINK = ['ops', 'threads']
RULE = ('1-6 clients pipeline blocking, failing, future-returning, asynchronously replying and built-in '
        'requests at a server with a handler thread while other threads send informs and mass informs and '
        'update sampled sensors, clients come, go, stall and vanish, and the server is stopped at a random '
        'moment and started again; preemption at any line of katcp')
REAL = ['katcp.server (MessageHandlerThread, KATCPServer, DeviceServer)', 'katcp.ioloop_manager',
        'katcp.sampling', 'katcp.core', 'katcp.kattypes', 'tornado ioloop/iostream/tcpserver/gen']
STUB = ['TCP sockets and poller', 'clock', 'thread scheduler', 'clients (scripted)']
RUNS = {'quick': 1500, 'thorough': 60000}
ASSUME = ['request handlers end (blocking ones after a bounded time)',
          'threads are preempted between lines of katcp code (not inside a builtin call)']

ECHO = ('b-sync', 'b-fut', 'b-async', 'b-mass', 'b-slowasync')
TYPED = ('b-typed', 'b-tfut')
FAIL = ('b-fail', 'b-ffail')
BOOM = ('b-raise', 'b-fraise')
BUILTIN = ('watchdog', 'client-list', 'sensor-list', 'sensor-value', 'sensor-sampling', 'log-level',
           'sensor-sampling-clear', 'version-list', 'nosuch', 'help')
KINDS = ECHO + TYPED + FAIL + BOOM


def gen(rng, tier):
    ops = []
    nclients = rng.randint(1, 6)
    T = rng.choice([0.0, 0.2, 1.0])
    total = 0.0
    for ci in range(nclients):
        name = 'c%d' % ci
        t = rng.choice([0.0, 0.01, rng.uniform(0, T)])
        ops.append([t, name, 'connect'])
        if rng.random() < 0.5:
            ops.append([t, name, 'send', '?sensor-sampling[900] si event\n'])
        mid = 1
        pace = rng.choice([0, 0.001, 0.02, 0.2])
        left = rng.randint(1, 10)
        kinds = [rng.choice(KINDS) for _ in range(3)] + [rng.choice(BUILTIN)]
        while left > 0:
            data = ''
            for _ in range(rng.choice([1, 1, 2, 5])):
                left -= 1
                kind = rng.choice(kinds)
                m = str(mid)
                mid += 1
                if kind in BUILTIN:
                    args = {'sensor-value': ['si'], 'sensor-sampling': ['si', 'auto'],
                            'help': ['watchdog']}.get(kind, [])
                    if kind == 'sensor-sampling' and m != '1':
                        args = ['si']
                    if kind == 'sensor-sampling-clear':
                        kind, args = 'sensor-sampling', ['sf', 'auto']
                    data += fmt('?', kind, m, *args).decode()
                else:
                    d = rng.choice([0, 0, 1, 10, rng.randint(0, 100), rng.randint(0, 1500)])
                    n = rng.choice([0, 0, 1, 3])
                    total += d / 1000.0
                    tag = '%s.%s' % (name, m)
                    data += fmt('?', kind, m, tag, str(d), str(n)).decode()
            t += rng.uniform(0, pace)
            ops.append([round(t, 6), name, 'send', data])
        r = rng.random()
        if r < 0.25:
            ops.append([round(rng.uniform(0, t + 0.3), 6), name,
                        rng.choice(['close', 'reset', 'finish', 'half', 'vanish', 'noread'])])
        elif r < 0.4:
            t0 = round(rng.uniform(0, t + 0.3), 6)
            ops.append([t0, name, 'hold'])
            ops.append([round(t0 + rng.uniform(0, 2), 6), name, 'heal'])
    crowd = rng.random() < 0.01
    if crowd:           # one slow request of each of very many clients
        ops = []
        total = 2.0
        for ci in range(rng.randint(290, 330)):
            name = 'c%d' % ci
            ops.append([round(ci and rng.uniform(0.01, 0.05), 6), name, 'connect'])
            ops.append([ops[-1][0], name, 'send', fmt('?', 'b-sync', '1', name + '.1', '1000' if ci == 0 else '0',
                                                      '0').decode()])
    threads = []
    for k in range(rng.randint(0, 3)):
        kind = rng.choice(['mass', 'mass', 'inform', 'set', 'mix'])
        for i in range(rng.choice([2, 6, 15])):
            threads.append([k, round(rng.choice([0, 0.0005, rng.uniform(0, 0.3)]), 6),
                            rng.choice(['mass', 'inform', 'set', 'sync']) if kind == 'mix' else kind])
    ops.sort(key=lambda o: o[0])
    last = max(o[0] for o in ops)
    r = rng.random()
    if r < 0.4:
        stop = None
    else:
        stop = [round(rng.choice([0, 0.001, rng.uniform(0, 0.5), rng.uniform(0, last + total)]), 6),
                rng.choice([1.0, 1.0, None, 0.01])]
    conf = world.gen_net(rng)
    if crowd:
        stop, conf, threads = None, {'lat_max': 0.001}, []
    elif rng.random() < 0.2:
        conf['bufsize'] = rng.choice([300, 2000])
    return {'ops': ops, 'threads': threads, 'total': round(total, 3), 'stop': stop, 'start': rng.choice([5, 5, None]), 'lead': rng.choice([0, 0.001, 0.1]),
           
            'restart': rng.random() < 0.5, 'net': conf,
            'preempt': world.gen_preempt(rng, rng.choice([3, 10, 40]), hi=rng.choice([30, 300, 2000])),
            'preempt_files': rng.choice([['server.py'], ['server.py', 'ioloop_manager.py'], None]),
            'asyncio_loop': rng.random() < 0.5, 'lock_yield': rng.choice([0, 0, 0.2]),
            'horizon': 600}


class Dev(katcp.DeviceServer):
    VERSION_INFO = ("simdev", 1, 2)
    BUILD_INFO = ("simdev", 3, 4, "x")

    def setup_sensors(self):
        self.sim = core.SIM
        self.calls = []
        self.hooks = []
        self.masses = []
        self.add_sensor(Sensor.integer('si', 'int sensor', 'count', [-100000, 100000]))
        self.add_sensor(Sensor.integer('sf', 'other sensor', 'count', [-100000, 100000]))

    def on_client_connect(self, conn):
        self.hooks.append((self.sim.stamp(), 'connect', conn))
        return super(Dev, self).on_client_connect(conn)

    def on_client_disconnect(self, conn, msg, valid):
        self.hooks.append((self.sim.stamp(), 'disconnect', conn))
        return super(Dev, self).on_client_disconnect(conn, msg, valid)

    def handle_message(self, conn, msg):
        rec = {'kind': msg.name, 'mid': msg.mid, 'conn': conn, 'start': self.sim.stamp(), 'end': None,
               'thread': core.get_ident(), 't0': self.sim.now}
        self.calls.append(rec)
        self.sim.log('call', msg.name, msg.mid)
        try:
            return super(Dev, self).handle_message(conn, msg)
        finally:
            rec['end'] = self.sim.stamp()
            rec['t1'] = self.sim.now

    def _p(self, msg):
        a = msg.arguments
        return a[0].decode(), int(a[1]) / 1000.0, int(a[2])

    def _nap(self, d):
        if d:
            self.sim.sleep(d)

    def _informs(self, req, tag, n, base=0):
        for i in range(base, base + n):
            req.inform(tag, str(i))

    def _spawn(self, fn):
        def body():
            try:
                fn()
            except Exception as e:
                self.sim.violation('exception', 'reply from a thread raised %s: %s' % (type(e).__name__, e))
        threading.Thread(target=body).start()

    def request_b_sync(self, req, msg):
        """blocking"""
        tag, d, n = self._p(msg)
        self._informs(req, tag, n // 2)
        self._nap(d)
        self._informs(req, tag, n - n // 2, n // 2)
        return req.make_reply('ok', *msg.arguments)

    @request(Str(), Int(), Int())
    @return_reply(Str(), Int())
    def request_b_typed(self, req, tag, d, n):
        """blocking with types"""
        self._informs(req, tag, n)
        self._nap(d / 1000.0)
        return ('ok', tag, n)

    def request_b_mass(self, req, msg):
        """mass informs"""
        tag, d, n = self._p(msg)
        self._informs(req, tag, n)
        self._nap(d)
        self.mass('h', req.mass_inform)
        return req.make_reply('ok', *msg.arguments)

    def request_b_fail(self, req, msg):
        """fails"""
        tag, d, n = self._p(msg)
        self._informs(req, tag, n)
        self._nap(d)
        raise FailReply('because ' + tag)

    def request_b_raise(self, req, msg):
        """raises"""
        tag, d, n = self._p(msg)
        self._informs(req, tag, n)
        self._nap(d)
        raise ValueError('boom ' + tag)

    def _future(self, req, msg, result):
        tag, d, n = self._p(msg)
        f = concurrent.futures.Future()
        rec = self.calls[-1]            # handlers run one at a time
        rec['answered'] = None

        def work():
            self._nap(d)
            self._informs(req, tag, n)
            rec['answered'] = self.sim.stamp()
            if isinstance(result, Exception):
                f.set_exception(result)
            else:
                f.set_result(result)
        self._spawn(work)
        return f

    def request_b_fut(self, req, msg):
        """thread-safe future resolved by another thread"""
        return self._future(req, msg, req.make_reply('ok', *msg.arguments))

    def request_b_ffail(self, req, msg):
        """future fails"""
        return self._future(req, msg, FailReply('because ' + self._p(msg)[0]))

    def request_b_fraise(self, req, msg):
        """future raises"""
        return self._future(req, msg, KeyError('boom ' + self._p(msg)[0]))

    @request(Str(), Int(), Int(), include_msg=True)
    @return_reply(Str(), Int())
    def request_b_tfut(self, req, msg, tag, d, n):
        """future with types"""
        return self._future(req, msg, ('ok', tag, n))

    def request_b_async(self, req, msg):
        """reply from another thread"""
        tag, d, n = self._p(msg)

        def work():
            self._nap(d)
            self._informs(req, tag, n)
            req.reply('ok', *msg.arguments)
        self._spawn(work)
        raise AsyncReply

    def request_b_slowasync(self, req, msg):
        """reply from another thread while the handler is still blocked"""
        tag, d, n = self._p(msg)

        def work():
            self._informs(req, tag, n)
            req.reply('ok', *msg.arguments)
        self._spawn(work)
        self._nap(d)
        raise AsyncReply

    # -- informs from any thread
    def mass(self, who, send=None):
        n = len([m for m in self.masses if m['who'] == who])
        rec = {'who': who, 'n': n, 'g0': self.sim.stamp(), 'g1': 1 << 60}
        self.masses.append(rec)
        (send or self.mass_inform)(Message.inform('mass', who, str(n), 'x' * (n % 7) * 10))
        rec['g1'] = self.sim.stamp()


class World(S.ServerWorld):
    pass


def run(sim, sc):
    w = World.__new__(World)
    w.sim = sim
    w.clients = world.Clients(sim, S.PORT)
    w.dev = dev = Dev('127.0.0.1', S.PORT)
    w.informs = []          # directed informs: (conn, who, n, stamp)
    w.sets = []
    dev.start(timeout=sc['start'])
    w.loop_thread = None
    base = sim.now + (0 if sc['start'] else sc['lead'])
    w.base = base
    w.schedule([[o[0] + base] + o[1:] for o in sc['ops']])
    w.stop_time = None
    ts = []
    for k in sorted(set(x[0] for x in sc['threads'])):
        t = threading.Thread(target=sender, args=(sim, sc, w, k))
        t.start()
        ts.append(t)
    last = max([o[0] for o in sc['ops']] + [0])
    settle = base + last + sc['total'] + 8
    if sc['stop'] is None:
        sim.sleep(settle - sim.now)
        w.complete = True
        timeout = 1.0
    else:
        w.complete = False
        if sc['stop'][0] > sim.now - base:
            sim.sleep(sc['stop'][0] - (sim.now - base))
        timeout = sc['stop'][1]
    w.stop_time = sim.now
    w.stop_stamp = sim.stamp()
    nconn = len(getattr(dev._server, '_connections', ()))
    sim.log('stop')
    f = dev.stop(timeout)
    w.stop_end = sim.now
    dev.join(60)
    took = sim.now - w.stop_time
    queued = sum(sorted([int(o) / 1000.0 for o in durations(sc)])[-6:])
    bound = 1.0 * max(nconn, len(w.clients.conns)) + queued + 3 + stalls(sc)
    if dev.running() or world.loop_thread(dev._server).is_alive():
        sim.violation('stop-hangs', 'the server is still running %.1f s after stop (bound %.1f)' % (took, bound))
        return
    dev._handler_thread.join(60)
    if dev._handler_thread.isAlive():
        sim.violation('stop-hangs', 'the handler thread is alive %.1f s after stop' % (sim.now - w.stop_time))
        return
    took = sim.now - w.stop_time
    if took > bound:
        sim.violation('stop-slow', 'stop took %.2f s (bound %.2f)' % (took, bound))
    if not f.done():
        sim.violation('stop-ack', 'the stop future is not resolved after join')
    for t in ts:
        t.join()
    sim.sleep(2)
    check(sim, sc, w)
    if sc['restart']:
        restart(sim, sc, w)


def stalls(sc):
    return sum(p[1] for p in sc['preempt'])


def durations(sc):
    for o in sc['ops']:
        if o[2] == 'send':
            for l in o[3].split('\n'):
                p = l.split(' ')
                if p[0].startswith('?b-'):
                    yield p[2]


def restart(sim, sc, w):
    dev = w.dev
    n = len(dev.calls)
    dev.start(timeout=5)
    if not dev.wait_running(5):
        sim.violation('restart', 'not running 5 s after a second start')
        return
    w.clients.op('fresh', 'connect')
    w.clients.op('fresh', 'send', '?b-sync[1] f 0 0\n?client-list[2]\n')
    sim.sleep(3)
    c = w.clients.conns['fresh']
    names = [(p[0], p[1]) for _, _, p, _ in world.parsed(c) if p]
    if names != [('#', 'version-connect')] * 3 + [('!', 'b-sync'), ('#', 'client-list'),
                                                  ('!', 'client-list')]:
        sim.violation('not-fresh', 'after restart a new client sees %r' % [l for t, g, l in c.lines])
    for rec in dev.calls[n:]:
        if conn_name(w, rec['conn']) != 'fresh':
            sim.violation('not-fresh', 'a request of the previous life (%s) was executed after the restart' % (
                rec['kind'],))
    sim.probe('restarts')
    dev.stop()
    dev.join(20)
    if dev.running() or dev._handler_thread.isAlive():
        sim.violation('stop-hangs', 'the second stop did not end the server')


def sender(sim, sc, w, k):
    who = 't%d' % k
    n = 0
    for item in sc['threads']:
        if item[0] != k:
            continue
        if item[1]:
            sim.sleep(item[1])
        if w.stop_time is not None:
            return
        try:
            if item[2] == 'mass':
                w.dev.mass(who)
            elif item[2] == 'set':
                rec = {'who': who, 'v': len(w.sets) + 1, 't0': sim.now, 'g0': sim.stamp()}
                w.sets.append(rec)
                w.dev.get_sensor('si').set_value(rec['v'], timestamp=1.4e9 + rec['v'])
                rec['t1'], rec['g1'] = sim.now, sim.stamp()
            elif item[2] == 'sync':
                ran, t0 = [], sim.now
                w.dev.ioloop.add_callback(ran.append, 1)
                try:
                    w.dev.sync_with_ioloop(5 + stalls(sc))
                except concurrent.futures.TimeoutError:
                    ran = ran or w.stop_time is not None
                else:
                    sim.probe('synced with the loop')
                if not ran:
                    sim.violation('sync', 'sync_with_ioloop() ended after %.3f s before the loop '
                                  'ran what it was handed' % (sim.now - t0))
            else:
                conns = list(w.dev._client_conns)
                conns.sort(key=lambda c: str(conn_name(w, c)))
                for c in conns:
                    w.informs.append((c, who, n))
                    c.inform(Message.inform('direct', who, str(n)))
                    n += 1
        except Exception as e:
            if w.stop_time is None:
                sim.violation('exception', '%s from a thread raised %s: %s' % (item[2], type(e).__name__, e))


def conn_name(w, conn):
    for name, c in list(w.clients.conns.items()):
        if c.ep.laddr and conn.address == '%s:%d' % c.ep.laddr:
            return name
    return conn.address


def check(sim, sc, w):
    dev = w.dev
    # one at a time, in one thread, in each client's order
    threads = set(c['thread'] for c in dev.calls)
    if len(threads) > 1:
        sim.violation('threads', 'request handlers ran in %d threads' % len(threads))
    if dev._server.ioloop_thread_id in threads:
        sim.violation('threads', 'a request handler ran in the ioloop thread')
    for a, b in zip(dev.calls, dev.calls[1:]):
        if a['end'] is None or a['end'] > b['start']:
            sim.violation('overlap', '%s started while %s was running' % (b['kind'], a['kind']))
    last = {}
    for c in dev.calls:
        prev = last.get(c['conn'])
        if prev is not None and 'answered' in prev and not (prev['answered'] and prev['answered'] < c['start']):
            sim.violation('overlap', '%s of a connection started before %s of the same connection was '
                          'answered' % (c['kind'], prev['kind']))
        if prev is not None and 'answered' in prev:
            sim.probe('requests that waited for a future')
        last[c['conn']] = c
    order = {}
    for c in dev.calls:
        order.setdefault(conn_name(w, c['conn']), []).append((c['kind'], c['mid'] and c['mid'].decode()))
    faulty = {}
    for o in sc['ops']:
        if o[2] in ('close', 'reset', 'finish', 'half', 'vanish', 'noread', 'hold'):
            faulty.setdefault(o[1], []).append(o)
    slack = stalls(sc) + 1.0
    for name, c in w.clients.conns.items():
        if name == 'fresh':
            continue
        reqs = [world.parse_line(l) for l in S.parse_sent(w.clients.sent[name])[0]]
        want = [(r[1], r[2]) for r in reqs]
        got = order.get(name, [])
        if got != want[:len(got)]:
            sim.violation('order', '%s sent %s, handled %s' % (name, want, got))
        check_conn(sim, sc, w, name, c, reqs, faulty.get(name, []), slack)
    for name in order:
        if name not in w.clients.conns:
            sim.violation('stray', 'handled requests of %r' % (name,))
    check_live(sim, sc, w, faulty, slack)


def expected(nm, args):
    """-> (predicate on the reply's arguments, number of informs or None)"""
    tag = args[0] if args else b''
    n = int(args[2]) if len(args) > 2 else 0
    if nm in ECHO:
        return (lambda a: a == [b'ok'] + args), n
    if nm in TYPED:
        return (lambda a: a == [b'ok', tag, args[2]]), n
    if nm in FAIL:
        return (lambda a: a == [b'fail', b'because ' + tag]), n
    if nm in BOOM:
        return (lambda a: len(a) == 2 and a[0] == b'fail' and b'boom ' + tag in a[1]), n
    if nm == 'nosuch':
        return (lambda a: a[0] == b'invalid'), 0
    if nm in ('client-list', 'sensor-list', 'version-list', 'sensor-value', 'help'):
        return (lambda a: a[0] == b'ok' and len(a) == 2), None
    return (lambda a: a[0] == b'ok'), 0


def check_conn(sim, sc, w, name, c, reqs, faults, slack):
    by_mid = {r[2]: r for r in reqs}
    replies, informs = {}, {}
    last_mass, last_direct = {}, {}
    last_si = None
    directs = []
    for t, g, p, line in world.parsed(c):
        if p is None:
            sim.violation('garbled', '%s received %r' % (name, line[:200]))
            continue
        mt, nm, mid, args = p
        if nm in ('version-connect', 'disconnect', 'log'):
            continue
        if nm == 'mass' and mt == '#':
            who, n = args[0].decode(), int(args[1])
            if args[2] != b'x' * (n % 7) * 10:
                sim.violation('garbled', '%s received %r' % (name, line[:200]))
            if n <= last_mass.get(who, -1):
                sim.violation('inform-order', '%s: mass inform %d of %s after %d' % (
                    name, n, who, last_mass[who]))
            last_mass[who] = n
            informs.setdefault('mass', set()).add((who, n))
            continue
        if nm == 'direct' and mt == '#':
            who, n = args[0].decode(), int(args[1])
            if n <= last_direct.get(who, -1):
                sim.violation('inform-order', '%s: inform %d of %s after %d' % (
                    name, n, who, last_direct[who]))
            last_direct[who] = n
            directs.append((who, n))
            continue
        if nm == 'sensor-status':
            continue
        r = by_mid.get(mid)
        if r is None or r[1] != nm or mid is None:
            sim.violation('stray', '%s received %r' % (name, line[:200]))
            continue
        if mt == '#':
            if mid in replies:
                sim.violation('inform-after-reply', '%s: %r' % (name, line[:200]))
            informs.setdefault(mid, []).append(args)
            continue
        if mid in replies:
            sim.violation('duplicate-reply', '%s: %r' % (name, line[:200]))
        replies[mid] = args
        pred, n = expected(nm, r[3])
        if not pred(args):
            sim.violation('wrong-reply', '%s: %r to %r' % (name, line[:300], r))
            continue
        got = informs.get(mid, [])
        if n is None:
            if len(got) != int(args[1]):
                sim.violation('informs', '%s: %d informs before %r' % (name, len(got), line[:200]))
        elif got != [[r[3][0], str(k).encode()] for k in range(n)]:
            sim.violation('informs', '%s: informs %r before the reply to %r' % (name, got, r))
        sim.probe('replies')
    addr = '%s:%d' % c.ep.laddr if c.ep.laddr else None
    mine = [(who, n) for conn, who, n in w.informs if conn.address == addr]
    if not set(directs) <= set(mine):
        sim.violation('stray', '%s received directed informs %r' % (name, sorted(set(directs) - set(mine))))
    intact = not [o for o in faults if o[2] != 'hold']
    if not intact or not w.complete:
        return
    if c.eof is not None and c.eof[0] < w.stop_time:
        sim.violation('dropped', 'the server closed the connection of %s: %r' % (name, c.eof))
        return
    for r in reqs:
        if r[2] not in replies:
            sim.violation('missing-reply', '%s: no reply to %r' % (name, r))
    if set(directs) != set(mine):
        sim.violation('missing-inform', '%s did not receive directed informs %r' % (
            name, sorted(set(mine) - set(directs))))
    hook = [g for g, what, conn in w.dev.hooks if what == 'connect' and conn.address == addr]
    if hook:
        for m in w.dev.masses:
            got = (m['who'], m['n']) in informs.get('mass', ())
            if m['g0'] > hook[0] and m['g1'] < w.stop_stamp and not got:
                sim.violation('missing-inform', '%s did not receive mass inform %d of %s' % (
                    name, m['n'], m['who']))


def check_live(sim, sc, w, faulty, slack):
    """Sampling and accepting go on while a handler blocks."""
    lat = sc['net'].get('lat_max', 0.002) + sc['net'].get('conn_lat_max', 0.002) + 0.3
    end = w.stop_time
    for name, c in w.clients.conns.items():
        if name in faulty or name == 'fresh' or c.eof is not None and c.eof[0] < end:
            continue
        t0 = min(o[0] for o in sc['ops'] if o[1] == name) + w.base
        segs = slow(sc)
        vc = [t for t, g, p, l in world.parsed(c) if p and p[1] == 'version-connect']
        if t0 + lat + slack + segs < end and (len(vc) < 3 or vc[2] > t0 + lat + slack + segs):
            sim.violation('accept-slow', '%s connected at %.3f, greeted at %s' % (name, t0, vc))
        # sampling of si
        active = None
        seen = []
        for t, g, p, l in world.parsed(c):
            if p and p[1] == 'sensor-status' and p[3][2] == b'si':
                seen.append((t, g, int(p[3][4])))
            elif p and p[0] == '!' and p[2] == '900' and p[3][0] == b'ok':
                active = g
        # another strategy may have been chosen for the sensor by a later request
        others = [r for r in S.parse_sent(w.clients.sent[name])[0]
                  if r.startswith(b'?sensor-sampling') and b'[900]' not in r and b'auto' in r and b' si' in r]
        if active is None or others:
            continue
        vals = {v: t for t, g, v in seen}
        for s in w.sets:
            if s['g0'] > active and s.get('g1') and s['t1'] + lat + slack + segs < end:
                if s['v'] not in vals:
                    sim.violation('sampling', '%s was not told of update %d made at %.3f' % (
                        name, s['v'], s['t1']))
                elif vals[s['v']] > s['t1'] + lat + slack + segs:
                    sim.violation('sampling', '%s was told of update %d made at %.3f at %.3f' % (
                        name, s['v'], s['t1'], vals[s['v']]))
                else:
                    sim.probe('sampled during requests')


def slow(sc):
    """Extra time for byte-wise delivery and tiny buffers."""
    n = sc['net']
    return 2.0 if n.get('seg') or n.get('bufsize') or n.get('short_send') or n.get('short_recv') else 0.0
