"""C30: a start works, or fails and leaves nothing behind."""
import errno
import threading

from sim import world, core, net as simnet
from sim.world import katcp, gen as tgen
from props import serverlib as S, clientlib as K

ID = 'C30'
SHRINK = ['steps']
RULE = ('two servers with the same port, or one client, started, started again at once or later, '
        'stopped, and started while stopping, on a shared loop or each with its own loop thread '
        '(with or without a handler thread, with preemption); the port held by another server or '
        'process, or socket(), bind() or listen() failing; requests sent in between; non-trivial: '
        'a start failed or was refused, and a later one worked')
REAL = ['katcp.server', 'katcp.client', 'katcp.ioloop_manager', 'katcp.core',
        'tornado ioloop/iostream/tcpserver/tcpclient/gen']
STUB = ['TCP sockets and poller', 'clock', 'peers (scripted)', 'OS threads (baton scheduler)']
RUNS = {'quick': 2000, 'thorough': 60000}
ASSUME = ('start and stop are called by one thread at a time; a client without loop thread is '
          'started again only once it has reported stopped')

ERR = {'socket': ['EMFILE', 'ENFILE', 'ENOBUFS'], 'bind': ['EACCES', 'EADDRNOTAVAIL', 'EADDRINUSE'],
       'listen': ['EADDRINUSE', 'EMFILE']}


def gen(rng, tier):
    kind = rng.choice(['server', 'server', 'client'])
    mode = rng.choice(['managed', 'managed', 'managed', 'shared', 'shared', 'foreign'])
    managed = mode == 'managed'
    handler = managed and rng.random() < 0.5
    steps = []
    gap = lambda: rng.choice([0, 0, 0, 1e-6, 0.0005, 0.003, 0.02, round(rng.uniform(0, 0.3), 6)])
    for _ in range(rng.randint(2, 12 if tier == 'quick' else 20)):
        x = rng.choice('AAB') if kind == 'server' else 'C'
        tmo = rng.choice([None, None, 5.0])
        k = rng.choice(['start', 'start', 'start', 'start2', 'stop', 'stop', 'stopstart', 'use',
                        'use', 'busy', 'busy' if handler else 'use', 'hold', 'release', 'fail', 'wait'])
        if k in ('hold', 'release', 'fail', 'busy') and kind == 'client':
            k = 'start'
        if k == 'start':
            steps.append([k, x, tmo])
        elif k == 'start2':
            steps += [['start', x, tmo], ['wait', gap()], ['start', x, tmo]]
        elif k == 'stop':
            steps.append([k, x])
        elif k == 'stopstart':
            steps.append([k, x, gap(), tmo])
        elif k == 'fail':
            c = rng.choice(sorted(ERR))
            steps += [[k, c, rng.choice(ERR[c])], ['start', x, tmo]]
        elif k == 'wait':
            steps.append([k, gap()])
        elif k == 'busy':
            steps += [[k, rng.randint(1, 4), rng.choice([0, 5, 50, 200])],
                      ['wait', rng.choice([0, 0.003, 0.02, 0.05])]]
            if rng.random() < 0.7:
                steps.append(['start', x, tmo])
        elif k == 'hold':
            steps += [[k], ['start', x, tmo]]
        else:
            steps.append([k])
    return {'kind': kind, 'mode': mode, 'managed': managed, 'handler': handler,
            'steps': steps, 'net': world.gen_net(rng), 'ops': [],
            'client': {'auto_reconnect': rng.random() < 0.7, 'delay': 0.3},
            'asyncio_loop': managed and rng.random() < 0.6,
            'preempt': world.gen_preempt(rng, rng.choice([0, 3, 8, 20])) if mode != 'shared' else [],
            'horizon': 2000}


class MDev(S.Dev, katcp.DeviceServer):
    def __init__(self, handler, *a, **kw):
        katcp.DeviceServer.__init__(self, *a, **kw)
        self.set_concurrency_options(thread_safe=True, handler_thread=handler)

    def request_r_nap(self, req, msg):
        """takes its time, in the handler thread"""
        rec = self._begin(req, msg)
        self.sim.sleep(self._p(msg)[1] / 1000.0)
        self._end(rec)
        return req.make_reply('ok', *msg.arguments)


class Common(object):
    """What both kinds share: who is up, and what a refused start may not leave behind."""
    def fds(self):
        """Descriptors other than connections."""
        return [o for o in self.sim.net.fds.values()
                if not isinstance(o, simnet.SimSocket) or o._ep is None]

    def try_start(self, x, tmo, must):
        """must: 'ok', 'refused', 'error' or 'any'. True if it was started."""
        sim = self.sim
        obj = self.objs[x]
        fds, threads = self.fds(), list(sim.threads)
        was = obj.running()
        listeners = {p: l for p, l in sim.net.listeners.items() if not l.closed}
        what = 'start of %s at t=%.6f' % (x, sim.now)
        t0 = sim.now
        sim.log('start', x, must)
        try:
            obj.start(tmo) if tmo else obj.start()
        except (OSError, RuntimeError) as e:
            sim.log('start raised', type(e).__name__)
            if must == 'ok':
                sim.violation('start-fails', '%s: %r' % (what, e))
            elif must == 'error' and not isinstance(e, OSError):
                sim.violation('wrong-error', '%s, which cannot have the port: raised %r' % (what, e))
            if sim.now - t0 > 0.5 + self.stall:
                sim.violation('slow-refusal', '%s: raised %r after %.3f s' % (what, e, sim.now - t0))
            new = [t for t in sim.threads if t not in threads]
            if new:
                sim.violation('thread-left', '%s raised %r and left %d thread(s) behind' %
                              (what, e, len(new)))
            left = [o for o in self.fds() if not any(o is p for p in fds)]
            if left and must != 'any':
                sim.violation('socket-left', '%s raised %r and left %s open' %
                              (what, e, sorted(type(o).__name__ for o in left)))
            if must == 'error' and obj.running():
                sim.violation('half-started', '%s raised %r but it is running' % (what, e))
            if must != 'any':
                now = {p: l for p, l in sim.net.listeners.items() if not l.closed}
                if now != listeners:
                    sim.violation('listener-lost', '%s raised %r; open ports were %s and are %s' %
                                  (what, e, sorted(listeners), sorted(now)))
            sim.probe('refused' if must == 'refused' else 'failed' if must == 'error' else
                      'refused while stopping')
            self.refused = True
            self.clean = self.clean and must != 'any'
            return False
        if must == 'refused':
            sim.violation('started-twice', '%s, which was started already, raised nothing' % what)
        elif must == 'error':
            sim.violation('no-error', '%s, which cannot have the port, raised nothing' % what)
        elif must == 'any':
            sim.probe('started right after stop')
        else:
            sim.probe('started')
            if self.refused:
                sim.probe('started after a failed start')
        if tmo and not obj.running():
            sim.violation('not-running', '%s: not running after start with timeout %s' % (what, tmo))
        return True

    def poll(self, cond, limit):
        t0 = self.sim.now
        while not cond() and self.sim.now - t0 < limit + self.stall:
            yield 0.01

    def check_ended(self, x, t0):
        sim = self.sim
        if sim.now - t0 > 5 + self.stall:
            sim.violation('stop-hangs', 'the stop of %s at t=%.6f took %.3f s' %
                          (x, t0, sim.now - t0))
        left = [o for o in self.fds() if not any(o is b for b in self.base)]
        if left and self.clean:
            sim.violation('socket-left', '%s was stopped and left %s open' %
                          (x, sorted(type(o).__name__ for o in left)))

    def drive(self):
        for st in self.sc['steps']:
            self.sim.ops_done += 1
            self.sim.log('step', st)
            for d in getattr(self, 'do_' + st[0])(*st[1:]):
                yield d
            if self.sim.violations:
                break
        if not self.sim.violations:
            for d in self.finish():
                yield d

    def do_wait(self, d):
        yield d

    def go(self, sim, sc):
        self.sim, self.sc = sim, sc
        self.mode = sc['mode']
        self.managed = self.mode == 'managed'
        self.wait_for = self.mode != 'shared'   # whether calls may block
        self.nthreads = 1
        self.refused = False
        self.stall = sum(p[1] for p in sc.get('preempt') or ()) + 0.1
        self.loop = None
        self.setup()
        self.base = self.fds()
        self.clean = True       # no start was refused while stopping
        if self.mode == 'foreign':
            self.nthreads = 2

            def run_loop():
                self.loop.make_current()
                self.loop.start()
            t = threading.Thread(target=run_loop)
            t.start()
        if self.wait_for:
            for d in self.drive():
                if d:
                    sim.sleep(d)
            if self.mode == 'foreign':
                self.loop.add_callback(self.loop.stop)
                t.join()
            return

        @tgen.coroutine
        def main():
            try:
                for d in self.drive():
                    if d:
                        yield tgen.sleep(d)
            finally:
                self.loop.stop()
        self.loop.add_callback(main)
        self.loop.start()


class Servers(Common):
    def setup(self):
        sim, sc = self.sim, self.sc
        if not self.managed:
            self.loop = world.SimIOLoop()
            self.loop.make_current()
            make = lambda: S.Dev('127.0.0.1', S.PORT)
        else:
            make = lambda: MDev(sc['handler'], '127.0.0.1', S.PORT)
        self.objs = {'A': make(), 'B': make()}
        if self.mode == 'foreign':
            world.SimIOLoop.clear_current()
        self.up = {'A': False, 'B': False}
        self.raw = None
        self.conns = []         # connections of the server that is up
        self.pending = []       # (connection, tag, reply that has to come)
        self.n = 0

    def holder(self):
        if self.raw is not None and not self.raw.l.closed:
            return 'raw'
        return ([x for x in 'AB' if self.up[x]] + [None])[0]

    def do_start(self, x, tmo):
        net = self.sim.net
        if not self.wait_for:
            tmo = None
        if self.up[x]:
            must = 'refused'
        elif self.holder() or net.fail_open:
            must = 'error'
        else:
            must = 'ok'
        if must != 'error':
            net.fail_open.clear()
        if self.try_start(x, tmo, must):
            self.up[x] = True
            self.conns, self.pending = [], []
        net.fail_open.clear()
        return ()

    def do_stop(self, x):
        if not self.up[x]:
            return
        dev = self.objs[x]
        self.pending = []
        dev.stop(1.0 if self.wait_for else None)
        for d in self.ended(x):
            yield d

    def ended(self, x):
        dev, sim = self.objs[x], self.sim
        t0 = sim.now
        self.up[x] = False
        if self.wait_for:
            dev.join(*([30] if len(self.sc['steps']) % 2 else []))
            if self.managed:
                for d in self.poll(lambda: len(sim.threads) == 1, 1.0):
                    yield d
            if len(sim.threads) > self.nthreads or dev.running():
                sim.violation('stop-hangs', '%s is still there %.1f s after its stop at t=%.6f' %
                              (x, sim.now - t0, t0))
        else:
            for d in self.poll(lambda: not dev.running(), 10):
                yield d
            if dev.running():
                sim.violation('stop-hangs', '%s is running %.1f s after its stop at t=%.6f' %
                              (x, sim.now - t0, t0))
            yield 0.001
        self.check_ended(x, t0)
        l = sim.net.listeners.get(S.PORT)
        if self.holder() is None and l is not None and not l.closed:
            sim.violation('port-kept', '%s has stopped and the port is still open' % x)

    def do_stopstart(self, x, dt, tmo):
        if not self.up[x]:
            return
        dev = self.objs[x]
        self.pending = []
        dev.stop(1.0 if self.wait_for else None)
        if dt:
            yield dt
        if self.try_start(x, tmo if self.wait_for else None, 'any'):
            self.conns, self.pending = [], []
            for d in self.do_use():
                yield d
            return
        for d in self.ended(x):
            yield d

    def do_hold(self):
        if self.holder() is None:
            self.sim.fault('port_taken')
            if self.raw is None:
                self.raw = simnet.RawListener(self.sim.net, S.PORT, lambda c: None)
            else:
                self.raw.up()
        return ()

    def do_release(self):
        if self.raw is not None:
            self.raw.down()
        return ()

    def do_fail(self, call, err):
        self.sim.net.fail_open = {call: getattr(errno, err)}
        return ()

    def do_use(self):
        sim = self.sim
        who = self.holder()
        if who not in ('A', 'B'):
            return
        dev = self.objs[who]
        for d in self.poll(dev.running, 2):
            yield d
        if not dev.running():
            sim.violation('not-running', '%s is not running at t=%.6f, 2 s after its start' %
                          (who, sim.now))
            return
        self.n += 1
        c = simnet.RawConn.connect(sim.net, S.PORT, 'c%d' % self.n)
        self.conns.append(c)
        tags = self.pending
        for i, c in enumerate(self.conns):
            tag = 'u%d.%d' % (self.n, i)
            c.send(('?r-sync[%d] %s 0 0\n' % (self.n, tag)).encode())
            tags.append((c, tag, ('!r-sync[%d] ok %s 0 0' % (self.n, tag)).encode()))
        got = lambda: all(any(l[2] == want for l in c.lines) for c, tag, want in tags)
        for d in self.poll(got, 5):
            yield d
        for c, tag, want in tags:
            n = sum(1 for l in c.lines if l[2] == want)
            if n != 1:
                sim.violation('not-served', 'a request to %s got %d replies (connection opened '
                              'as %s, ended %s)' % (who, n, c.name, c.eof))
            calls = {x: sum(1 for r in self.objs[x].calls if r['args'][:1] == [tag.encode()])
                     for x in 'AB'}
            if calls != {'A': int(who == 'A'), 'B': int(who == 'B')}:
                sim.violation('wrong-server', 'a request to %s was run %s' % (who, calls))
        self.pending = []
        sim.probe('used')

    def do_busy(self, n, ms):
        # requests that are under way during the steps that follow
        who = self.holder()
        if who not in ('A', 'B'):
            return
        for d in self.poll(self.objs[who].running, 2):
            yield d
        self.n += 1
        for i in range(n):
            c = simnet.RawConn.connect(self.sim.net, S.PORT, 'b%d.%d' % (self.n, i))
            for j in range(2):
                tag = 'b%d.%d.%d' % (self.n, i, j)
                name = 'r-nap' if self.sc['handler'] else 'r-co'
                c.send(('?%s[%d] %s %d 0\n' % (name, j + 1, tag, ms)).encode())
                self.pending.append((c, tag, ('!%s[%d] ok %s %d 0' % (name, j + 1, tag, ms)).encode()))

    def do_release_all(self):
        self.sim.net.fail_open.clear()
        return self.do_release()

    def finish(self):
        for x in 'AB':
            for d in self.do_use():
                yield d
            for d in self.do_stop(x):
                yield d
        self.do_release_all()
        for x in 'AB':
            if self.sim.violations:
                return
            self.do_start(x, 5.0)
            for d in self.do_use():
                yield d
            for d in self.do_stop(x):
                yield d


class Clients(Common, K.ClientWorld):
    def __init__(self):
        pass

    def setup(self):
        sim, sc = self.sim, self.sc
        K.ClientWorld.__init__(self, sim, sc, start=False, managed=self.managed)
        if self.mode == 'foreign':
            world.SimIOLoop.clear_current()
        self.objs = {'C': self.cl}
        self.up = False
        self.n = 0

    def do_start(self, x, tmo):
        first = len(self.srv.conns)
        if self.try_start(x, tmo if self.wait_for else None, 'refused' if self.up else 'ok'):
            self.up = True
            self.first = first
        return ()

    def do_use(self):
        sim = self.sim
        if not self.up:
            return
        for d in self.poll(self.cl.is_connected, 3):
            yield d
        yield 0.5
        now = [c for c in self.srv.conns[self.first:]]
        if not self.cl.is_connected() or len(now) != 1 or sum(
                1 for c in self.srv.conns if c.client_open()) != 1:
            sim.violation('connections', 'the client, started once, has connected %d times '
                          '(connected: %s)' % (len(now), self.cl.is_connected()))
            return
        self.n += 1
        tag = 'u%d' % self.n
        plan = [[0, 'inform', 'i0'], [0, 'reply', 'ok']]
        self.plans[tag] = plan
        self.post(K.ClientWorld.do_req, self, tag, 'get', {'timeout': 3.0, 'style': 'future'}, plan)
        done = lambda: tag in self.reqs and self.reqs[tag]['done']
        for d in self.poll(done, 5):
            yield d
        r = self.reqs.get(tag)
        if r is None or len(r['done']) != 1 or r['done'][0]['serial'] is None:
            sim.violation('not-served', 'a request of the running client ended with %r' %
                          (r and [x['value'] for x in r['done']],))
        sim.probe('used')

    def do_stop(self, x):
        if not self.up:
            return
        self.cl.stop(2 if self.wait_for else None)
        for d in self.ended():
            yield d

    def ended(self):
        sim = self.sim
        self.up = False
        t0 = sim.now
        if self.managed:
            self.cl.join(30)
            for d in self.poll(lambda: len(sim.threads) == 1, 1.0):
                yield d
            if len(sim.threads) > 1:
                sim.violation('stop-hangs', 'the client thread is there %.1f s after the stop at '
                              't=%.6f' % (sim.now - t0, t0))
        else:
            for d in self.poll(lambda: self.cl.ioloop_thread_id is not None and
                               not self.cl.running() and self.cl._stopped.isSet(), 10):
                yield d
        for d in self.poll(lambda: not any(c.client_open() for c in self.srv.conns), 1):
            yield d
        if self.cl.running() or any(c.client_open() for c in self.srv.conns):
            sim.violation('stop-hangs', 'the client, stopped at t=%.6f, is running or connected '
                          '%.1f s later' % (t0, sim.now - t0))
        self.check_ended('the client', t0)

    def do_stopstart(self, x, dt, tmo):
        if not self.up:
            return
        if not self.managed:
            for d in self.do_stop(x):
                yield d
            return
        self.cl.stop(2)
        if dt:
            yield dt
        first = len(self.srv.conns)
        if self.try_start(x, tmo, 'any'):
            self.first = first
            for d in self.do_use():
                yield d
            return
        for d in self.ended():
            yield d

    def finish(self):
        for d in self.do_use():
            yield d
        for d in self.do_stop('C'):
            yield d
        if not self.sim.violations:
            self.do_start('C', 5.0)
            for d in self.do_use():
                yield d
            for d in self.do_stop('C'):
                yield d


def run(sim, sc):
    (Servers if sc['kind'] == 'server' else Clients)().go(sim, sc)
