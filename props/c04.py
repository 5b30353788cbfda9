"""C04: a failing handler yields one fail reply and harms nothing else."""
import tornado.concurrent
import tornado.iostream
import concurrent.futures
from sim import world
from sim.world import gen as tgen, katcp
from props import serverlib as S
from katcp import FailReply, Message
from katcp.kattypes import request, return_reply, concurrent_reply, Int, Str, Bool, Float

ID = 'C04'
SHRINK = ['ops']
RULE = ('sequences of failing requests of every kind (exceptions sync/async/concurrent, FailReply, '
        'invalid return values, rejected arguments, unknown requests, failing inform and reply '
        'handlers) mixed with succeeding ones on 1-3 connections, other clients cut; pipelined and '
        'segmented')
REAL = ['katcp.server', 'katcp.kattypes', 'katcp.core', 'tornado ioloop/iostream/tcpserver/gen']
STUB = ['TCP sockets and poller', 'clock', 'clients (scripted)']
RUNS = {'quick': 1200, 'thorough': 50000}


class Odd(Exception):
    def __str__(self):
        raise RuntimeError('cannot print me')


def make_exc(n, tag):
    return [
        lambda: ValueError('boom ' + tag),
        lambda: KeyError('boom ' + tag),
        lambda: AssertionError('boom ' + tag),
        lambda: tornado.iostream.StreamClosedError(IOError('boom ' + tag)),
        lambda: OSError(32, 'boom ' + tag),
        lambda: concurrent.futures.CancelledError('boom ' + tag),
        lambda: concurrent.futures.TimeoutError('boom ' + tag),
        lambda: UnicodeDecodeError('utf-8', b'\xff', 0, 1, 'boom ' + tag),
        lambda: RuntimeError(u'boom ' + tag + u' \u00e9\u4e2d\n\r\t two\0three'),
        lambda: TypeError('boom ' + tag + ' ' + 'x' * 3000),
        lambda: tgen.BadYieldError('boom ' + tag),
        lambda: AttributeError('boom ' + tag),
    ][n % 12]()


def fail_text(n, tag):
    return ['because ' + tag, u'because ' + tag + u' \u00e9\u4e2d', 'because ' + tag + '\nline2 \t\0',
            'because ' + tag + ' %s %d {} {0}', 'because ' + tag + ' ' + 'y' * 2000][n % 5]


class Dev4(S.Dev):
    def request_x_raise(self, req, msg):
        """x"""
        self._end(self._begin(req, msg))
        raise make_exc(int(msg.arguments[3]), msg.arguments[0].decode())

    @tgen.coroutine
    def request_x_araise(self, req, msg):
        """x"""
        rec = self._begin(req, msg)
        yield self._work(req, msg)
        self._end(rec)
        raise make_exc(int(msg.arguments[3]), msg.arguments[0].decode())

    @concurrent_reply
    @tgen.coroutine
    def request_x_craise(self, req, msg):
        """x"""
        rec = self._begin(req, msg)
        yield self._work(req, msg)
        self._end(rec)
        raise make_exc(int(msg.arguments[3]), msg.arguments[0].decode())

    @request(Str(), Int(), Int(), Int(), include_msg=True)
    @return_reply()
    @tgen.coroutine
    def request_x_traise(self, req, msg, tag, d, n, v):
        """x"""
        rec = self._begin(req, msg)
        yield self._work(req, msg)
        self._end(rec)
        raise make_exc(v, tag)

    def request_x_fraise(self, req, msg):
        """already failed future"""
        self._end(self._begin(req, msg))
        f = tornado.concurrent.Future()
        f.set_exception(make_exc(int(msg.arguments[3]), msg.arguments[0].decode()))
        return f

    def request_x_cfuture(self, req, msg):
        """concurrent.futures future failing later"""
        rec = self._begin(req, msg)
        f = concurrent.futures.Future()
        tag, d, n = self._p(msg)

        def later():
            self._end(rec)
            f.set_exception(make_exc(int(msg.arguments[3]), tag.decode()))
        self.ioloop.call_later(d / 1000.0, later)
        return f

    def request_x_fail(self, req, msg):
        """x"""
        self._end(self._begin(req, msg))
        raise FailReply(fail_text(int(msg.arguments[3]), msg.arguments[0].decode()))

    @tgen.coroutine
    def request_x_afail(self, req, msg):
        """x"""
        rec = self._begin(req, msg)
        yield self._work(req, msg)
        self._end(rec)
        raise FailReply(fail_text(int(msg.arguments[3]), msg.arguments[0].decode()))

    @request(Str(), Int(), Int(), Int(), include_msg=True)
    @return_reply(Str())
    def request_x_tfail(self, req, msg, tag, d, n, v):
        """x"""
        self._end(self._begin(req, msg))
        return ('fail', fail_text(v, tag))

    @request(Int(min=0, max=10), Bool(), Float(optional=True, default=1.0))
    @return_reply(Int())
    def request_x_args(self, req, i, b, f):
        """typed arguments"""
        return ('ok', i)


def bad_args(rng):
    return rng.choice([[], ['11', '1'], ['-1', '0'], ['x', '1'], ['1'], ['1', '2'],
                       ['1', '1', 'nan?'], ['1', '1', '2.0', '3'], ['1.5', '1'], ['', ''],
                       ['1', 'true'], ['\xff', '1']])


def gen(rng, tier):
    ops = []
    intact = []
    for ci in range(rng.randint(1, 3)):
        name = 'c%d' % ci
        t = round(rng.uniform(0, 0.3), 6)
        ops.append([t, name, 'connect'])
        mid = 1
        batch = ''
        n = rng.randint(2, 12 if tier == 'quick' else 30)
        for k in range(n):
            tag = '%s.%d' % (name, k)
            r = rng.random()
            m = str(mid)
            mid += 1
            d = str(rng.choice([0, 0, 1, 30, 400]))
            nf = str(rng.choice([0, 0, 2]))
            if r < 0.4:
                kind = rng.choice(['x-raise', 'x-araise', 'x-craise', 'x-traise', 'x-fraise',
                                   'x-cfuture', 'x-fail', 'x-afail', 'x-tfail'])
                line = world.fmt('?', kind, m, tag, d, nf, str(rng.randrange(60)))
            elif r < 0.55:
                kind = rng.choice(S.FAIL_KINDS)
                extra = [str(rng.randrange(6))] if kind in ('r-bad', 'r-abad') else []
                line = world.fmt('?', kind, m, tag, d, nf, *extra)
            elif r < 0.65:
                line = world.fmt('?', 'x-args', m, *[a.encode('latin-1') for a in bad_args(rng)])
            elif r < 0.75:
                line = world.fmt('?', rng.choice(['nosuch', 'r-syncx', 'Help', 'x-', 'R-sync', 'a']),
                                 m, tag)
            elif r < 0.85:
                line = world.fmt(rng.choice('#!'), rng.choice(['noise', 'noise', 'unknown']), None,
                                 tag, *(['x'] if rng.random() < 0.7 else []))
            else:
                kind = rng.choice(S.OK_KINDS)
                line = world.fmt('?', kind, m, tag, d, nf)
            batch += line.decode('latin-1')
            if rng.random() < 0.5:
                ops.append([round(t, 6), name, 'send', batch])
                batch = ''
                t += rng.choice([0, 0.001, 0.2])
        # the connection must still work afterwards
        batch += '?r-sync[%d] %s.last 0 0\n' % (mid, name)
        ops.append([round(t, 6), name, 'send', batch])
        if ci and rng.random() < 0.3:
            ops.append([round(rng.uniform(0, t + 0.2), 6), name, rng.choice(['reset', 'close'])])
        else:
            intact.append(name)
    ops.sort(key=lambda o: o[0])
    return {'ops': ops, 'intact': intact, 'net': world.gen_net(rng)}


def expected(nm, args):
    if nm.startswith('x-') and nm != 'x-args' and len(args) >= 4:
        tag = args[0]
        v = int(args[3])
        if nm in ('x-fail', 'x-afail', 'x-tfail'):
            t = fail_text(v, tag.decode()).encode('utf-8')
            return lambda a: a == [b'fail', t]
        if v % 12 == 3:      # this one does not print its argument
            return lambda a: len(a) == 2 and a[0] == b'fail' and b'StreamClosedError' in a[1]
        return lambda a: len(a) == 2 and a[0] == b'fail' and b'boom ' + tag in a[1]
    if nm == 'x-args':
        return lambda a: len(a) == 2 and a[0] == b'fail' and len(a[1]) > 0
    if nm.startswith('r-') and nm != 'r-syncx':
        return S.expected_reply(nm, args)[0]
    return lambda a: a[:1] == [b'invalid']


def run(sim, sc):
    w = S.ServerWorld(sim, Dev4)
    w.schedule(sc['ops'])
    w.run(max([o[0] for o in sc['ops']] or [0]) + 20)
    for name, c in w.clients.conns.items():
        lines, _ = S.parse_sent(w.clients.sent[name])
        reqs = {}
        for l in lines:
            p = world.parse_line(l)
            if p[0] == '?':
                reqs[p[2]] = p
        got = {}
        for t, g, p, line in world.parsed(c):
            if p is None:
                sim.violation('garbled-line', '%s: %r' % (name, line))
            elif p[0] == '!':
                r = reqs.get(p[2])
                if r is None or r[1] != p[1]:
                    sim.violation('stray-reply', '%s: %r' % (name, line))
                    continue
                got[p[2]] = got.get(p[2], 0) + 1
                if got[p[2]] > 1:
                    sim.violation('duplicate-reply', '%s: second reply %r to %r' % (name, line, r))
                if not expected(r[1], r[3])(p[3]):
                    sim.violation('wrong-reply', '%s: %r to %r' % (name, line[:300], r))
                sim.probe('%s reply' % (p[3][0].decode('latin-1') if p[3] else ''))
        if name in sc['intact'] and not c.closed_locally:
            if c.eof:
                sim.violation('dropped', '%s: closed by server %r' % (name, c.eof))
                continue
            for m, r in reqs.items():
                if m not in got:
                    sim.violation('missing-reply', '%s: no reply to %r' % (name, r))
