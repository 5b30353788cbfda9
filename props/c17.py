"""C17: a client reconnects by itself and reports connection changes truthfully."""
from sim import world
from props import clientlib as K

ID = 'C17'
SHRINK = ['ops']
RULE = ('1-10 phases, each a burst of faults (server close, reset, half-close, host crash, '
        'partition, refused, unanswered or slow connects, connections dropped right after '
        'accept, oversized lines, output backlog, disconnect() calls, loop stalls, raising '
        'notification hook) followed by a quiet time, with probe requests and connectedness '
        'checks; non-trivial: the connection was lost or refused at least once')
REAL = ['katcp.client', 'katcp.core', 'tornado ioloop/iostream/tcpclient/gen']
STUB = ['TCP sockets and poller', 'clock', 'server (scripted)']
RUNS = {'quick': 1500, 'thorough': 60000}
ASSUME = ('the client is told about a lost connection (FIN, RST or error on write); it has no '
          'keep-alive, so a peer that silently vanished is only noticed by writing; every '
          'connection of a run announces the same protocol version')


class Cl17(K.Cl):
    MAX_MSG_SIZE = 3000
    MAX_WRITE_BUFFER_SIZE = 3000


class World17(K.ClientWorld):
    cls = Cl17
    last = 0.0            # last disturbance
    flaky = ()
    nprobe = 0
    checks = 0
    slow = 0.0
    black_until = -1e9

    def _op(self, kind, *args):
        if kind not in ('probe', 'up', 'unblackhole', 'req'):
            self.last = self.sim.now
        told = kind == 'req' and any(c.client_open() and c.raw.ep.dead for c in self.srv.conns)
        if told:
            self.last = self.sim.now        # writing tells the client that the peer is gone
        if kind == 'flaky':
            self.flaky = list(args[0])
            return
        if kind == 'conndelay':
            self.slow = max(self.slow, args[0])
        if kind in ('up', 'unblackhole', 'stall'):
            self.last = max(self.last, self.sim.now + (args[0] if kind == 'stall' else 0))
        if kind == 'raw' and len(args[0]) > 3000 and self.srv.conns:
            self.srv.conns[-1].oversize = True      # may be closed for it later on
        if kind == 'raw' and len(args[0]) > 400:
            # a small socket buffer takes many round trips
            c = self.sim.net.conf
            self.last = self.sim.now + len(args[0]) / float(c.bufsize) * 2 * (c.lat_max + c.grid)
        if kind == 'unblackhole':
            self.black_until = self.sim.now
        super(World17, self)._op(kind, *args)
        if told or kind not in ('probe', 'req'):
            # as soon as the client has to be back
            self.sim.after(max(self.last - self.sim.now, 0) + self.bound() + 0.002,
                           self.loop.add_callback, self.do_probe)

    def on_server_conn(self, c):
        if self.flaky:
            how = self.flaky.pop(0)
            self.last = self.sim.now
            self.sim.fault('dropped_after_accept')
            self.sim.after(how[1], self.late_drop, c, how[0])

    def late_drop(self, c, how):
        self.last = self.sim.now
        self.srv.conn_op(c, how)

    def event(self, kind, **kw):
        if kind == 'notify' and self.cl.n_notify in self.cl.notify_raise:
            self.last = self.sim.now
        return super(World17, self).event(kind, **kw)

    def bound(self):
        c = self.sim.net.conf
        b = self.cl.auto_reconnect_delay + c.conn_lat_max + 4 * (c.lat_max + c.grid) + 0.1
        b += self.slow + self.stall_total()
        if self.black_until > -1e9:
            b += 70          # a connect attempt started meanwhile repeats its SYN after up to 64 s
        return b

    def do_probe(self):
        self.probe_at(self.sim.now)

    def probe_at(self, t):
        """Connected by now? Does a request work?"""
        sim = self.sim
        if not getattr(self.cl, '_auto_reconnect', True):
            return
        if self.srv.listener.l.closed or K.PORT in sim.net.blackhole or self.flaky:
            return
        if sim.now - self.last < self.bound():
            return
        for c in self.srv.conns:
            # connections the client cannot know to be dead, or that are partitioned
            if c.client_open() and (c.raw.ep.held is not None or c.raw.ep.dead or
                                    not c.raw.reading or c.client_ep.held is not None or
                    getattr(c, 'oversize', False)):
                return
        self.checks += 1
        sim.probe('connectedness checks')
        n = sum(1 for c in self.srv.conns if c.client_open())
        if not self.cl.is_connected() or n != 1:
            sim.violation('not-reconnected', 'at t=%.3f, %.3f s after the last disturbance, with '
                          'the server reachable, the client is %sconnected (%d open connections)'
                          % (sim.now, sim.now - self.last,
                             '' if self.cl.is_connected() else 'not ', n))
            return
        tag = 'probe%d' % self.nprobe
        self.nprobe += 1
        plan = [[0, 'inform', 'i0'], [0, 'reply', 'ok']]
        self.plans[tag] = plan
        last = self.last
        self.do_req(tag, 'get', {'timeout': 5.0, 'style': 'future'}, plan)

        def verdict():
            if self.last > last and self.last <= sim.now:
                return
            d = self.reqs[tag]['done']
            if len(d) != 1 or d[0]['serial'] is None or \
                    len(self.reqs[tag].get('future_informs', ())) != 1:
                sim.violation('request-after-reconnect', 'request %s on connection %d: %r' %
                              (tag, len(self.srv.conns), [x['value'] for x in d]))
        sim.after(2.0, verdict)


def gen(rng, tier):
    ops = []
    t = 0.0
    delay = rng.choice([0.5, 0.5, 0.1, 2.0])
    k = 0
    for ph in range(rng.randint(1, 6 if tier == 'quick' else 12)):
        t += rng.choice([0.0, 0.001, rng.uniform(0, 1.0), rng.uniform(0, 3.0)])
        for _ in range(rng.choice([1, 1, 1, 2, 3])):
            t = round(t + rng.choice([0, 0.0005, rng.uniform(0, 0.3), rng.uniform(0, 2)]), 6)
            kind = rng.choice(['close', 'finish', 'half', 'reset', 'crash', 'down', 'downreset',
                               'hold', 'disconnect', 'disconnect2', 'flaky', 'slow', 'stall',
                               'oversize', 'backlog', 'blackhole' if rng.random() < 0.4 else
                               'reset', 'garbage'])
            if kind in ('close', 'finish', 'half', 'reset'):
                ops.append([t, 'srv', kind])
            elif kind == 'crash':
                ops.append([t, 'srv', 'crash'])
                # only writing tells the client
                ops.append([round(t + rng.uniform(0, 1), 6), 'req', 'w%d' % k, 'odd',
                            {'timeout': 1.0}, []])
            elif kind in ('down', 'downreset'):
                ops.append([t, 'down'])
                if kind == 'downreset':
                    ops.append([t, 'srv', rng.choice(['reset', 'close'])])
                t = round(t + rng.choice([0.01, 0.5, rng.uniform(0, 6),
                                          delay * rng.uniform(5, 40)]), 6)
                ops.append([t, 'up'])
                if rng.random() < 0.4:
                    t += delay + rng.uniform(0, 3)
            elif kind == 'hold':
                ops.append([t, 'srv', 'hold'])
                t = round(t + rng.uniform(0, 3), 6)
                ops.append([t, 'srv', 'heal'])
            elif kind == 'disconnect':
                ops.append([t, 'disconnect'])
            elif kind == 'disconnect2':
                ops.append([t, 'disconnect'])
                ops.append([round(t + rng.choice([0, 0.0001, delay]), 6), 'disconnect'])
            elif kind == 'flaky':
                ops.append([t, 'flaky', [[rng.choice(['close', 'reset', 'half', 'finish']),
                                          rng.choice([0, 0, 0.001, 0.05])]
                                         for _ in range(rng.randint(1, 4))]])
                ops.append([t, 'srv', rng.choice(['reset', 'close'])])
                ops.append([t, 'disconnect'])
            elif kind == 'slow':
                ops.append([t, 'conndelay', round(rng.uniform(0, 3), 3)])
                ops.append([t, 'srv', 'reset'])
                t = round(t + rng.uniform(0, 4), 6)
                ops.append([t, 'conndelay', 0])
            elif kind == 'stall':
                ops.append([t, 'stall', rng.choice([0.05, 1.0])])
            elif kind == 'oversize':
                ops.append([t, 'raw', rng.choice(['#evt ' + 'x' * 5000 + '\n', 'y' * 3500,
                                                  'z' * 9000])])
            elif kind == 'backlog':
                ops.append([t, 'srv', 'noread'])
                for j in range(rng.choice([5, 40])):
                    k += 1
                    ops.append([round(t + 0.001 * j, 6), 'req', 'b%d' % k + 'x' * 200, 'put',
                                {'timeout': 1.0, 'style': 'cb'}, []])
                t = round(t + rng.uniform(0, 2), 6)
                ops.append([t, 'srv', 'read'])
            elif kind == 'blackhole':
                ops.append([t, 'blackhole'])
                ops.append([t, 'srv', 'reset'])
                t = round(t + rng.choice([0.5, 5, 80, 200]), 6)
                ops.append([t, 'unblackhole'])
            elif kind == 'garbage':
                ops.append([t, 'raw', rng.choice(K.BAD_LINES) + '\n'])
            k += 1
        if rng.random() < 0.75:
            q = rng.choice([1.5, 4.0, 8.0, 90.0])
            ops.append([round(t + q, 6), 'probe'])
            t = round(t + q + 2.5, 6)
        if ph % 3 == 0 and rng.random() < 0.3:
            t += 30
    ops.sort(key=lambda o: o[0])
    sc = {'ops': ops, 'greet': rng.choice(['mi', 'mi', 'm', 'none']), 'net': world.gen_net(rng),
          'client': {'timeout': 5.0, 'auto_reconnect': rng.random() < 0.85, 'delay': delay},
          'horizon': 3000, 'down': rng.random() < 0.15}
    if sc['down']:
        sc['ops'].insert(0, [round(rng.uniform(0, 3), 6), 'up'])
        sc['ops'].sort(key=lambda o: o[0])
    if rng.random() < 0.25:
        sc['net']['bufsize'] = 400
    if rng.random() < 0.25:
        sc['notify_raise'] = sorted(set(rng.randint(1, 8) for _ in range(rng.randint(1, 3))))
    if rng.random() < 0.15:
        sc['asyncio_loop'] = True
    return sc


def run(sim, sc):
    w = World17(sim, sc)
    end = max([o[0] for o in sc['ops']] + [0]) + 3
    tail = end + 90 if any(o[1] == 'blackhole' for o in sc['ops']) else \
        end + w.bound() + 1

    # connections that the server drops as soon as they are made
    tail += sum(len(o[2]) for o in sc['ops'] if o[1] == 'flaky') * w.bound()
    sim.at(tail, w.loop.add_callback, w.do_probe)

    def look():
        n = sum(1 for c in w.srv.conns if c.client_open())
        if n > 1:
            sim.violation('two-connections', '%d connections to the server are open' % n)
        if w.cl.is_connected() and n == 0 and not any(
                t <= sim.now <= t + d for t, d in w.stalls):
            # the client closed or lost it, the notification is still to come
            w.closed_seen += 1
            if w.closed_seen > 3:
                sim.violation('stale-connected', 'is_connected() although no connection has '
                              'been open for %d looks' % w.closed_seen)
        else:
            w.closed_seen = 0
        if sim.now < tail:
            sim.after(0.0371, look)
    w.closed_seen = 0
    sim.after(0.01, look)
    w.run(tail + 3)
    judge(sim, w, sc)


def judge(sim, w, sc):
    last = False
    for e in w.events:
        if e['kind'] != 'notify':
            continue
        if e['value'] == last:
            sim.violation('notify-alternation', 'notify_connected(%r) twice in a row at t=%.6f' %
                          (e['value'], e['t']))
        last = e['value']
        if e['is_connected'] != e['value']:
            sim.violation('notify-disagrees', 'notify_connected(%r) while is_connected() is %r' %
                          (e['value'], e['is_connected']))
    if last != w.cl.is_connected():
        sim.violation('notify-missing', 'is_connected() is %r at the end but the last '
                      'notification was %r' % (w.cl.is_connected(), last))
    for t, a, b in w.srv.overlap:
        if w.srv.conns[a].raw.ep.rebooted:
            continue
        sim.violation('two-connections', 'connection %d opened at t=%.3f while connection %d was '
                      'still open' % (b, t, a))
    if not sc['client']['auto_reconnect'] and len(w.srv.conns) > 1:
        sim.violation('unwanted-reconnect', '%d connections without auto-reconnect' %
                      len(w.srv.conns))
    n = sum(1 for e in w.events if e['kind'] == 'notify')
    sim.probe('connection changes', n)
