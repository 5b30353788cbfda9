"""C08: mass informs and device log messages reach every connected client once, in order."""
import threading
from sim import world
from sim.world import katcp
from katcp import Message
from katcp.server import DeviceLogger
from props import serverlib as S

ID = 'C08'
SHRINK = ['ops', 'threads']
RULE = ('mass informs and device log messages issued from the loop, from request handlers and from '
        'other threads while 1-6 clients connect, change the log level, stop reading, fail or are '
        'partitioned; shared loop, managed loop and handler-thread servers')
REAL = ['katcp.server (KATCPServer, DeviceServer, DeviceLogger)', 'katcp.core',
        'tornado ioloop/iostream/tcpserver/gen']
STUB = ['TCP sockets and poller', 'clock', 'thread scheduler', 'clients (scripted)']
RUNS = {'quick': 2500, 'thorough': 60000}
ASSUME = ['unread output of well-behaved clients stays below the write buffer limit']

LEVELS = DeviceLogger.LEVELS
NAMES = [None, 'a.b', 'x y', 'dev\u00e9', '']
TEXTS = [('plain %d', 1), ('two %s %r', 2), ('no args', 0), ('missing %s %s', 1),
         ('100%', 0), ('5%! of %d', 1), ('half%', 1), ('extra', 1), ('nl\n\t %s', 1), ('uni \u00e9\u4e2d %s', 1)]


def gen_issue(rng, big):
    r = rng.random()
    if r < 0.5:
        return ['mass', rng.choice([0, 5, 5, big])]
    return ['log', rng.randint(1, 6), rng.randrange(len(TEXTS)), rng.randrange(len(NAMES)),
            rng.random() < 0.3]


def gen(rng, tier):
    managed = rng.random() < 0.4
    wlimit = rng.random() < 0.3
    big = 3000 if wlimit else rng.choice([50, 1000])
    T = rng.choice([0.3, 1.0, 3.0])
    ops = []
    intact = []
    n = rng.randint(1, 6)
    for ci in range(n):
        name = 'c%d' % ci
        t = round(rng.choice([0.0, 0.0, rng.uniform(0, T)]), 6)
        ops.append([t, name, 'connect'])
        for k in range(rng.choice([0, 0, 1, 3])):
            lv = rng.choice(LEVELS + LEVELS + ['bogus', None])
            line = '?log-level[%d]%s\n' % (k + 1, '' if lv is None else ' ' + lv)
            ops.append([round(rng.uniform(t, T), 6), name, 'send', line])
        for k in range(rng.choice([0, 0, 0, 2])):
            ops.append([round(rng.uniform(t, T), 6), name, 'send',
                        '?bcast[%d] %s.%d\n' % (100 + k, name, k)])
        r = rng.random()
        if r < 0.35 and ci:
            kind = rng.choice(['close', 'finish', 'half', 'reset', 'vanish', 'noread', 'hold'])
            ops.append([round(rng.uniform(t, T), 6), name, kind])
            if kind == 'hold' or (kind == 'noread' and not wlimit and rng.random() < 0.5):
                ops.append([round(ops[-1][0] + rng.uniform(0, 1), 6), name,
                            'heal' if kind == 'hold' else 'read'])
                if not wlimit:
                    intact.append(name)
        else:
            intact.append(name)
    cnt = rng.choice([3, 10, 25])
    grid = rng.choice([0, 0, 0.01])
    threads = []
    if managed:
        for _ in range(rng.randint(1, 3)):
            t, seq = 0.0, []
            for _k in range(rng.randint(1, max(2, cnt // 2))):
                t = round(rng.choice([0, 0, 0.001, rng.uniform(0, 2 * T / cnt)]), 6)
                seq.append([t] + gen_issue(rng, big))
            threads.append(seq)
    for _ in range(cnt if not managed else cnt // 3):
        t = rng.uniform(0, T)
        if wlimit:
            t = (_ + 1) * 0.1
        elif grid:
            t = int(t / grid) * grid
        burst = 1 if wlimit else rng.choice([1, 1, 1, 3])
        for _k in range(burst):
            ops.append([round(t, 6), '@', 'issue', gen_issue(rng, big)])
    if not managed and rng.random() < 0.3:
        ops.append([round(rng.uniform(0, T), 6), '@', 'setlevel', rng.choice(LEVELS)])
    if not managed and rng.random() < 0.15:
        ops.append([round(rng.uniform(0, T), 6), '@', 'stall', 0.2])
    ops.sort(key=lambda o: o[0])
    conf = world.gen_net(rng)
    if wlimit:
        conf['bufsize'] = 4000
        conf['seg'] = 0
    return {'ops': ops, 'threads': threads, 'intact': intact, 'net': conf, 'managed': managed,
            'handler_thread': managed and rng.random() < 0.5, 'wlimit': wlimit,
            'asyncio_loop': managed and rng.random() < 0.5,
            'preempt': world.gen_preempt(rng, rng.choice([0, 4, 12])) if managed else [],
            'horizon': 300}


class DevMixin(object):
    def setup_sensors(self):
        S.Dev.setup_sensors(self)
        self.issues = []
        self.levels = []        # (g0, g1, new level name or None, conn, reply tuple)
        self.counts = {}

    def issue(self, who, spec):
        k = self.counts[who] = self.counts.get(who, 0) + 1
        ident = '%s#%d' % (who, k)
        sim = self.sim
        rec = {'who': who, 'id': ident, 'g0': sim.stamp(), 't0': sim.now}
        if spec[0] == 'mass':
            args = [ident, 'x' * spec[1]]
            rec['msg'] = ('mass', [ident.encode(), b'x' * spec[1]])
            self.issues.append(rec)
            self.mass_inform(Message.inform('mass', *args))
        else:
            _, lev, ti, ni, ts = spec
            text, n = TEXTS[ti]
            args = (k, ident)[:n]
            try:
                full = (ident + ' ' + text) % args
            except (TypeError, ValueError):
                full = '{} {}'.format(ident + ' ' + text, args if args else '').strip()
            kw = {}
            if NAMES[ni] is not None:
                kw['name'] = NAMES[ni]
            stamp = None
            if ts:
                stamp = kw['timestamp'] = 1.4e9 + k + 0.25
            rec['level'] = lev
            rec['stamp'] = stamp
            rec['msg'] = ('log', [LEVELS[lev].encode(), None,
                                  (NAMES[ni] if NAMES[ni] is not None else 'root').encode(),
                                  full.encode()])
            self.issues.append(rec)
            getattr(self.log, LEVELS[lev])(ident + ' ' + text, *args, **kw)
        rec['g1'] = sim.stamp()
        rec['t1'] = sim.now

    def request_bcast(self, req, msg):
        """mass inform from a request handler"""
        ident = msg.arguments[0].decode()
        rec = {'who': req.client_connection.address, 'id': ident, 'g0': self.sim.stamp(),
               't0': self.sim.now, 'msg': ('mass', [ident.encode()])}
        self.issues.append(rec)
        req.mass_inform(Message.inform('mass', ident))
        rec['g1'] = self.sim.stamp()
        rec['t1'] = self.sim.now
        return req.make_reply('ok')

    def request_log_level(self, req, msg):
        """query or set the log level"""
        rec = [self.sim.stamp(), None, msg.arguments[0].decode() if msg.arguments else None,
               req.client_connection]
        self.levels.append(rec)
        try:
            return super(DevMixin, self).request_log_level(req, msg)
        finally:
            rec[1] = self.sim.stamp()


class LoopDev(DevMixin, S.Dev):
    pass


class ThreadDev(DevMixin, S.Dev, katcp.DeviceServer):
    handler_thread = True

    def __init__(self, *a, **kw):
        katcp.DeviceServer.__init__(self, *a, **kw)
        self.set_concurrency_options(thread_safe=True, handler_thread=self.handler_thread)


class World8(S.ServerWorld):
    managed = False

    def in_loop(self, fn, *args):
        loop = self.dev.ioloop if self.managed else self.loop
        loop.add_callback(fn, *args)

    def dev_issue(self, spec):
        self.dev.issue('loop', spec)

    def dev_setlevel(self, name):
        g = self.sim.stamp()
        self.dev.log.set_log_level_by_name(name)
        self.dev.levels.append([g, self.sim.stamp(), name, None])


def run(sim, sc):
    until = max([o[0] for o in sc['ops']] + [0]) + 6
    if not sc['managed']:
        w = World8(sim, LoopDev, start=False)
        if sc['wlimit']:
            w.dev._server.MAX_WRITE_BUFFER_SIZE = 40000
        w.dev.start()
        w.schedule(sc['ops'])
        w.run(until)
        check(sim, sc, w)
        return
    w = World8.__new__(World8)
    w.sim, w.managed, w.loop = sim, True, None
    w.clients = world.Clients(sim, S.PORT)
    w.dev = ThreadDev('127.0.0.1', S.PORT)
    w.dev.set_concurrency_options(thread_safe=True, handler_thread=sc['handler_thread'])
    if sc['wlimit']:
        w.dev._server.MAX_WRITE_BUFFER_SIZE = 40000
    if not w.dev.start(timeout=5) and not w.dev.wait_running(5):
        sim.violation('start', 'server is not running 5 s after start')
        return
    w.schedule([[o[0] + sim.now] + o[1:] for o in sc['ops']])

    def worker(k, seq):
        for item in seq:
            if item[0]:
                sim.sleep(item[0])
            w.dev.issue('t%d' % k, item[1:])
    ts = []
    for k, seq in enumerate(sc['threads']):
        th = threading.Thread(target=worker, args=(k, seq))
        th.start()
        ts.append(th)
    for th in ts:
        th.join()
    if until > sim.now:
        sim.sleep(until - sim.now)
    sim.sleep(3)
    w.dev.stop()
    w.dev.join(20)
    check(sim, sc, w)


def level_windows(levels):
    """[(g0, g1, level index)] of effective level changes."""
    out = []
    for g0, g1, name, conn in sorted(levels, key=lambda r: r[0]):
        if name in LEVELS:
            out.append((g0, g1, LEVELS.index(name)))
    return out


def possible_levels(changes, g0, g1):
    cur = {LEVELS.index('warn')}
    for a, b, lv in changes:
        if b is None or b > g1:
            b = 1 << 60
        if b < g0:
            cur = {lv}
        elif a < g1:
            cur.add(lv)
    return cur


def check(sim, sc, w):
    dev = w.dev
    changes = level_windows(dev.levels)
    issues = []
    for r in dev.issues:
        r.setdefault('g1', 1 << 60)
        r.setdefault('t1', 1e9)
        r['may'] = r['must'] = True
        if r['msg'][0] == 'log':
            pl = possible_levels(changes, r['g0'], r['g1'])
            r['may'] = any(r['level'] >= p for p in pl)
            r['must'] = all(r['level'] >= p for p in pl)
        issues.append(r)
    by_id = {r['id']: r for r in issues}
    conn_at = {}
    disc_at = {}
    hook_t = {}
    for g, what, conn in dev.hooks:
        (conn_at if what == 'connect' else disc_at)[conn.address] = g
    for name, c in w.clients.conns.items():
        addr = '%s:%d' % c.ep.laddr if c.ep.laddr else None
        gc = conn_at.get(addr)
        got = []
        replies = []
        n_versions = 0
        for t, g, p, line in world.parsed(c):
            if p is None:
                sim.violation('garbled', '%s received %r' % (name, line[:200]))
                continue
            if p[0] == '#' and p[1] == 'version-connect':
                n_versions += 1
                continue
            if p[1] == 'log-level' and p[0] == '!':
                replies.append(p)
                continue
            if p[0] == '!' or p[1] == 'disconnect':
                continue
            ident = None
            if p[1] == 'mass' and p[3]:
                ident = p[3][0].decode()
            elif p[1] == 'log' and len(p[3]) == 4:
                ident = p[3][3].decode('utf-8', 'replace').split(' ')[0]
            r = by_id.get(ident)
            if r is None:
                sim.violation('stray', '%s received %r which was never issued' % (name, line[:200]))
                continue
            if any(r is x for x in got):
                sim.violation('duplicate', '%s received %r twice' % (name, line[:200]))
                continue
            if n_versions < 3:
                sim.violation('too-early', '%s received %r before the version informs'
                              % (name, line[:100]))
            got.append(r)
            exp = r['msg'][1]
            if p[1] != r['msg'][0]:
                sim.violation('altered', '%s: %r, issued %r' % (name, line[:200], r['msg']))
            elif p[1] == 'mass' and p[3] != exp:
                sim.violation('altered', '%s: %r, issued %r' % (name, line[:200], r['msg']))
            elif p[1] == 'log':
                if [p[3][0]] + p[3][2:] != [exp[0]] + exp[2:]:
                    sim.violation('altered', '%s: %r, issued %r' % (name, line[:200], r['msg']))
                lo, hi = ((r['stamp'],) * 2 if r['stamp'] is not None else
                          (1.5e9 + r['t0'], 1.5e9 + r['t1']))
                try:
                    ok = lo - 2e-6 <= float(p[3][1]) <= hi + 2e-6
                except ValueError:
                    ok = False
                if not ok:
                    sim.violation('log-timestamp', '%s: %r, expected %.6f..%.6f' % (
                        name, line[:200], lo, hi))
                if not r['may']:
                    sim.violation('below-threshold', '%s received %r, below the log level'
                                  % (name, line[:200]))
        # membership and order
        if gc is None:
            if got:
                sim.violation('stray', '%s was never announced but received %d' % (name, len(got)))
            continue
        intact = name in sc['intact'] and not c.closed_locally
        if intact and c.eof is not None and not sc['managed']:
            sim.violation('dropped', 'connection of %s closed: %r' % (name, c.eof))
            continue
        sim.probe('delivered', len(got))
        if not sc['managed']:
            exp = [r for r in issues if r['g0'] > gc and r['must']]
            if intact and [r['id'] for r in got] != [r['id'] for r in exp] or \
                    [r['id'] for r in got] != [r['id'] for r in exp[:len(got)]]:
                sim.violation('delivery', '%s received %s, expected %s%s' % (
                    name, [r['id'] for r in got], '' if intact else 'a prefix of ',
                    [r['id'] for r in exp]))
        else:
            for r in got:
                if r['g0'] < gc and r['t1'] < c.lines[0][0] - 2:
                    sim.violation('too-early', '%s received %s issued long before it connected'
                                  % (name, r['id']))
            whos = set(r['who'] for r in issues)
            for who in sorted(whos):
                mine = [r['id'] for r in got if r['who'] == who]
                exp = [r for r in issues if r['who'] == who]
                must = [r['id'] for r in exp if r['g0'] > gc and r['must']]
                order = [r['id'] for r in exp]
                if sorted(mine, key=order.index) != mine:
                    sim.violation('order', '%s received %s in the wrong order' % (name, mine))
                if intact:
                    miss = [i for i in must if i not in mine]
                else:
                    last = max([order.index(i) for i in mine] or [-1])
                    miss = [i for i in must if order.index(i) < last and i not in mine]
                if miss:
                    sim.violation('delivery', '%s did not receive %s (got %s)' % (
                        name, miss, mine))
        # log-level replies
        cur = 'warn'
        k = 0
        want = []
        for g0, g1, nm, conn in sorted(dev.levels, key=lambda r: r[0]):
            ok = nm is None or nm in LEVELS
            if nm in LEVELS:
                cur = nm
            if conn is not None and conn.address == addr:
                want.append([b'ok', cur.encode()] if ok else [b'fail'])
        have = [p[3] if p[3][:1] == [b'ok'] else p[3][:1] for p in replies]
        if have != want[:len(have)] or intact and len(have) != len(want):
            sim.violation('log-level', '%s: replies %r, expected %r' % (name, replies, want))
        sim.probe('level requests', len(have))
