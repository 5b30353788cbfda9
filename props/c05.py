"""C05: connect and disconnect hooks, client-list and version announcement."""
from sim import world
from sim.world import katcp
from props import serverlib as S

ID = 'C05'
SHRINK = ['ops', 'hooks']
RULE = ('2-6 clients connecting, requesting (sync, async, concurrent, client-list), closing, half '
        'closing, resetting, vanishing, stalling, being disconnected by the device, by send failure '
        'or by server stop, on a coarse time grid so that causes coincide; accept() failing; '
        'connect and disconnect hooks that take time or fail')
REAL = ['katcp.server', 'katcp.core', 'katcp.ioloop_manager', 'tornado ioloop/iostream/tcpserver/gen']
STUB = ['TCP sockets and poller', 'clock', 'clients (scripted)']
RUNS = {'quick': 1500, 'thorough': 80000}
ASSUME = ['a peer that vanishes without FIN or RST is only noticed when the server stops']


class Dev5(S.HookPlan, S.Dev):
    def setup_sensors(self):
        super(Dev5, self).setup_sensors()
        self.lists = []

    def request_client_list(self, req, msg):
        """client list with a snapshot of the hook ledger"""
        live = []
        for g, what, conn in self.hooks:
            if what == 'connect':
                live.append(conn.address)
            else:
                live.remove(conn.address)
        self.lists.append((req.client_connection.address, msg.mid, sorted(live)))
        return super(Dev5, self).request_client_list(req, msg)

    def request_kick(self, req, msg):
        """the device disconnects the requesting client"""
        self.sim.fault('device_disconnects_client')
        req.client_connection.disconnect('kicked')
        return req.make_reply('ok')


def gen(rng, tier):
    grid = rng.choice([0, 0.01, 0.05])
    n = rng.randint(2, 6)
    span = rng.choice([0.1, 0.5, 2.0])

    def t_(lo=0.0, hi=None):
        t = rng.uniform(lo, span if hi is None else hi)
        if grid:
            t = int(t / grid) * grid
        return round(t, 6)
    ops = []
    for ci in range(n):
        name = 'c%d' % ci
        t0 = t_(0, span / 2)
        ops.append([t0, name, 'connect'])
        k = 0
        mid = 1
        for b in range(rng.randint(0, 4)):
            data = ''
            for _ in range(rng.randint(1, 3)):
                r = rng.random()
                k += 1
                tag = '%s.%d' % (name, k)
                if r < 0.4:
                    data += '?client-list[%d]\n' % mid
                elif r < 0.45:
                    data += '?kick[%d]\n' % mid
                else:
                    kind = rng.choice(S.OK_KINDS + ('r-cnever', 'r-fail', 'r-araise', 'r-raise'))
                    data += S.req_line(kind, str(mid), tag, rng.choice([0, 1, 50, 300]),
                                       rng.choice([0, 3]))
                mid += 1
            ops.append([t_(t0), name, 'send', data])
        if rng.random() < 0.15:
            # a never-ending handler as the last thing on this connection
            ops.append([t_(t0, span + 0.1), name, 'send', '?r-never[%d] %s.z 0 0\n' % (mid, name)])
        r = rng.random()
        if r < 0.65:
            ops.append([t_(t0, span + 0.2), name,
                        rng.choice(['close', 'reset', 'finish', 'half', 'vanish', 'reset',
                                    'close'])])
        elif r < 0.75:
            ops.append([t_(t0), name, 'noread'])
        if rng.random() < 0.25:
            ops.append([t_(t0, span + 0.2), '@', 'kick', ci])
        if rng.random() < 0.1:
            ops.append([t_(t0, span + 0.2), '@', 'kick', ci])
    for _ in range(rng.randint(0, 3)):
        ops.append([t_(), '@', 'mass', rng.choice([0, 2000, 20000])])
    if rng.random() < 0.2:
        ops.append([t_(), '@', 'stall', rng.choice([0.05, 0.3])])
    ops.sort(key=lambda o: o[0])
    net = world.gen_net(rng)
    if rng.random() < 0.2:
        net['accept_err'] = 0.4
    if rng.random() < 0.3:
        net['bufsize'] = rng.choice([1000, 20000])
    if grid and rng.random() < 0.5:
        net.update(lat_min=0.0, lat_max=0.0, conn_lat_max=0.0)
    stop = rng.random() < 0.35
    hooks = []
    if rng.random() < 0.35:
        hooks = [[rng.choice([0, 0, 0.01, 0.1, span, 2 * span]), rng.random() < 0.15,
                  rng.choice([0, 0, 0.01, 0.3, 2.5])] for _ in range(rng.randint(1, 4))]
    return {'ops': ops, 'net': net, 'grid': grid, 'hooks': hooks,
            'stop_at': t_(0.0, span + 0.3) if stop else None,
            'halt': rng.random() < 0.3}


class World5(S.ServerWorld):
    def dev_kick(self, ci):
        c = self.clients.conns.get('c%d' % ci)
        if c is None or c.ep.laddr is None:
            return
        addr = '%s:%d' % c.ep.laddr
        for g, what, conn in self.dev.hooks:
            if what == 'connect' and conn.address == addr:
                self.sim.fault('device_disconnects_client')
                conn.disconnect('kicked by device')

    def dev_mass(self, size):
        self.dev.mass_inform(katcp.Message.inform('mass', 'x' * size))


def run(sim, sc):
    w = World5(sim, Dev5)
    dev = w.dev
    dev.plan = sc.get('hooks') or []
    w.schedule(sc['ops'])
    last = max([o[0] for o in sc['ops']] or [0])
    stops = []

    def do_stop():
        f = dev.stop(None)
        stops.append([sim.now, f])
    if sc['stop_at'] is not None:
        sim.fault('server_stop')
        sim.at(sc['stop_at'], w.in_loop, do_stop)
        end = max(last, sc['stop_at']) + 12
        w.run(end)
    else:
        w.run(last + 10)
        # everything that ended must have been noticed by now
        check_gone(sim, w)
        do_stop()
        w.run(last + 22)
    check(sim, w, stops)


def by_addr(dev):
    out = {}
    for g, what, conn in dev.hooks:
        out.setdefault(conn.address, []).append((g, what, conn))
    return out


def check_gone(sim, w):
    led = by_addr(w.dev)
    for name, c in w.clients.conns.items():
        if not c.ep.laddr:
            continue
        addr = '%s:%d' % c.ep.laddr
        whats = [x[1] for x in led.get(addr, [])]
        vanished = c.ep.held is not None
        if vanished:
            continue
        lost = c.ep.dead or c.ep.tx_fin or c.eof
        if lost and whats == ['connect']:
            # with data it has not read, the server only looks at the socket again once the
            # running handler is done: never, for handlers that never finish
            if any(r['end'] is None and r['kind'] == 'r-never' and r['conn'].address == addr
                   for r in w.dev.calls):
                continue
            sim.violation('no-disconnect', '%s (%s) is gone but its disconnect hook has not run'
                          % (name, addr))
        if not lost and whats == ['connect', 'disconnect'] and c.reading:
            sim.violation('phantom-disconnect', '%s was disconnected but is still open' % name)


def check(sim, w, stops):
    dev = w.dev
    led = by_addr(dev)
    for addr, items in led.items():
        whats = [x[1] for x in items]
        if len(set(id(x[2]) for x in items)) > 1:
            sim.violation('two-connections', '%s has two connection objects' % addr)
        if whats != ['connect', 'disconnect']:
            sim.violation('hooks', '%s saw hooks %r' % (addr, whats))
    for rec in dev.calls:
        items = led.get(rec['conn'].address, [])
        if not items or items[0][1] != 'connect' or \
                dev.ready.get(items[0][2], 1 << 60) > rec['start']:
            sim.violation('call-before-connect', '%s called before connect hook' % rec['kind'])
    if stops and stops[0][1].done() is False:
        sim.violation('stop-hangs', 'stop not done by the end of the run')
    for name, c in w.clients.conns.items():
        lines = [l for t, g, l in c.lines if l]
        addr = '%s:%d' % c.ep.laddr if c.ep.laddr else None
        if lines and [x[1] for x in led.get(addr, [])][:1] != ['connect']:
            sim.violation('no-connect-hook', '%s received data without a connect hook' % name)
        want = [b'#version-connect katcp-protocol ', b'#version-connect katcp-library katcp-python-',
                b'#version-connect katcp-device simdev-1.2 simdev-3.4x']
        for i, l in enumerate(lines[:3]):
            if not l.startswith(want[i]):
                sim.violation('announcement', '%s: line %d is %r' % (name, i, l[:200]))
        for l in lines[3:]:
            if l.startswith(b'#version-connect'):
                sim.violation('announcement', '%s: announced again %r' % (name, l[:200]))
        if lines:
            sim.probe('announced clients')
        # client-list replies
        informs = {}
        for t, g, p, line in world.parsed(c):
            if p is None:
                sim.violation('garbled-line', '%s: %r' % (name, line[:200]))
                continue
            if p[1] != 'client-list':
                continue
            if p[0] == '#':
                informs.setdefault(p[2], []).append(p[3][0].decode())
            else:
                snap = [x for x in dev.lists if x[0] == addr and x[1] is not None and
                        x[1].decode() == p[2]]
                got = sorted(informs.get(p[2], []))
                if not snap:
                    sim.violation('client-list', '%s: reply to a request never handled' % name)
                elif got != snap[0][2] or p[3] != [b'ok', str(len(got)).encode()]:
                    sim.violation('client-list', '%s: informs %r reply %r but connected %r' % (
                        name, got, p[3], snap[0][2]))
                sim.probe('client-list replies')
        seen = False
        for l in lines:
            if seen:
                sim.violation('after-disconnect', '%s: %r after #disconnect' % (name, l[:100]))
                break
            seen = l.startswith(b'#disconnect')
        if seen:
            sim.probe('#disconnect seen')
