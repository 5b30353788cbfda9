"""Device server under test plus scenario generation shared by the server-side properties."""
from sim import world, core
from sim.world import gen, katcp, fmt, run_loop, Clients
from katcp.kattypes import (request, return_reply, concurrent_reply, Str, Int, Float)
from katcp import Message, Sensor, FailReply, AsyncReply
import tornado.concurrent
import tornado.ioloop
from tornado import iostream

PORT = 5000


class Dev(katcp.AsyncDeviceServer):
    """Requests: ?r-<kind> tag delay_ms ninforms [extra args...]"""
    VERSION_INFO = ("simdev", 1, 2)
    BUILD_INFO = ("simdev", 3, 4, "x")

    def setup_sensors(self):
        self.sim = core.SIM
        self.calls = []       # request handler invocations
        self.odd = []         # inform/reply handler invocations
        self.hooks = []       # (gseq, 'connect'|'disconnect', conn)
        self.connids = {}
        self.sensors_cfg(self)

    def sensors_cfg(self, dev):
        self.add_sensor(Sensor.integer('si', 'int sensor', 'count', [-100000, 100000]))
        self.add_sensor(Sensor.float('sf', 'float sensor', '', [-1e6, 1e6]))

    # -- hooks
    def on_client_connect(self, conn):
        self.hooks.append((self.sim.stamp(), 'connect', conn))
        self.sim.log('hook connect')
        return super(Dev, self).on_client_connect(conn)

    def on_client_disconnect(self, conn, msg, valid):
        self.hooks.append((self.sim.stamp(), 'disconnect', conn))
        self.sim.log('hook disconnect', valid)
        return super(Dev, self).on_client_disconnect(conn, msg, valid)

    # -- helpers
    def _begin(self, req, msg):
        rec = {'kind': msg.name, 'args': list(msg.arguments), 'mid': msg.mid,
               'conn': req.client_connection, 'start': self.sim.stamp(), 'end': None,
               't0': self.sim.now,
               'thread': core.get_ident()}
        self.calls.append(rec)
        self.sim.log('call', msg.name, msg.mid, tuple(msg.arguments))
        return rec

    def _end(self, rec):
        rec['end'] = self.sim.stamp()
        rec['t1'] = self.sim.now
        self.sim.log('end', rec['kind'], rec['args'][:1])

    @staticmethod
    def _p(msg):
        a = msg.arguments
        return (a[0] if a else b'', int(a[1]) if len(a) > 1 else 0,
                int(a[2]) if len(a) > 2 else 0)

    def _informs(self, req, tag, n, base=0):
        for i in range(base, base + n):
            req.inform(tag, str(i))

    # -- sync
    def request_r_sync(self, req, msg):
        """sync"""
        rec = self._begin(req, msg)
        tag, d, n = self._p(msg)
        self._informs(req, tag, n)
        self._end(rec)
        return req.make_reply('ok', *msg.arguments)

    CACHED_REPLY = Message.reply('r-cached', 'ok', 'same')
    CACHED_INFORM = Message.inform('r-cached')

    def request_r_cached(self, req, msg):
        """message objects that are used again for every request"""
        rec = self._begin(req, msg)
        tag, d, n = self._p(msg)
        for i in range(n):
            self.CACHED_INFORM.arguments = [tag, str(i).encode()]
            req.client_connection.reply_inform(self.CACHED_INFORM, msg)
        self._end(rec)
        return self.CACHED_REPLY

    @request(Str(), Int(), Int(), include_msg=True)
    @return_reply(Str(), Int())
    def request_r_typed(self, req, msg, tag, d, n):
        """typed"""
        rec = self._begin(req, msg)
        self._informs(req, tag, n)
        self._end(rec)
        return ('ok', tag, n)

    # -- async
    @gen.coroutine
    def _work(self, req, msg):
        tag, d, n = self._p(msg)
        k = n // 2
        self._informs(req, tag, k)
        if d:
            yield gen.sleep(d / 1000.0)
        else:
            yield gen.moment
        self._informs(req, tag, n - k, k)
        raise gen.Return((tag, n))

    @gen.coroutine
    def request_r_co(self, req, msg):
        """co"""
        rec = self._begin(req, msg)
        yield self._work(req, msg)
        self._end(rec)
        raise gen.Return(req.make_reply('ok', *msg.arguments))

    @request(Str(), Int(), Int(), include_msg=True)
    @return_reply(Str(), Int())
    @gen.coroutine
    def request_r_cotyped(self, req, msg, tag, d, n):
        """cotyped"""
        rec = self._begin(req, msg)
        yield self._work(req, msg)
        self._end(rec)
        raise gen.Return(('ok', tag, n))

    @request(Str(), Int(), Int(), include_msg=True)
    @return_reply(Str(), Int())
    @concurrent_reply
    @gen.coroutine
    def request_r_conc(self, req, msg, tag, d, n):
        """conc"""
        rec = self._begin(req, msg)
        yield self._work(req, msg)
        self._end(rec)
        raise gen.Return(('ok', tag, n))

    def request_r_done(self, req, msg):
        """future that is already resolved"""
        rec = self._begin(req, msg)
        tag, d, n = self._p(msg)
        self._informs(req, tag, n)
        f = tornado.concurrent.Future()
        self._end(rec)
        f.set_result(req.make_reply('ok', *msg.arguments))
        return f

    def request_r_later(self, req, msg):
        """later"""
        rec = self._begin(req, msg)
        tag, d, n = self._p(msg)

        def later():
            self._informs(req, tag, n)
            self._end(rec)
            req.reply('ok', *msg.arguments)
        self.ioloop.call_later(d / 1000.0, later)
        raise AsyncReply

    @gen.coroutine
    def request_r_colater(self, req, msg):
        """coroutine that replies itself"""
        rec = self._begin(req, msg)
        yield self._work(req, msg)
        self._end(rec)
        req.reply('ok', *msg.arguments)
        raise AsyncReply

    # -- ways to answer through the request object
    def _again(self, req, msg):
        """A request that was answered cannot be answered again, nor informs sent for it."""
        for what, args in (('reply', ('ok', 'again')), ('inform', ('again',)),
                           ('reply_with_message', (katcp.Message.reply(msg.name, 'ok', 'again'),))):
            try:
                getattr(req, what)(*args)
            except Exception:
                continue
            self.sim.violation('again', 'req.%s() after the reply to ?%s did not raise' % (what, msg.name))

    def request_r_again(self, req, msg):
        """replies itself at once and tries again"""
        rec = self._begin(req, msg)
        self._informs(req, *self._p(msg)[::2])
        self._end(rec)
        req.reply('ok', *msg.arguments)
        self._again(req, msg)
        raise AsyncReply

    def request_r_withmsg(self, req, msg):
        """replies later with a message it made"""
        rec = self._begin(req, msg)
        tag, d, n = self._p(msg)

        def later():
            self._informs(req, tag, n)
            self._end(rec)
            req.reply_with_message(req.make_reply('ok', *msg.arguments))
            self._again(req, msg)
        self.ioloop.call_later(d / 1000.0, later)
        raise AsyncReply

    def request_r_device(self, req, msg):
        """replies through the device"""
        rec = self._begin(req, msg)
        tag, d, n = self._p(msg)
        for i in range(n):
            self.reply_inform(req, katcp.Message.inform(msg.name, tag, str(i)), msg)
        self._end(rec)
        self.reply(req, katcp.Message.reply(msg.name, 'ok', *msg.arguments), msg)
        raise AsyncReply

    def request_r_twice(self, req, msg):
        """replies itself and then also fails or returns a reply"""
        rec = self._begin(req, msg)
        tag, d, n = self._p(msg)
        self._informs(req, tag, n)
        self._end(rec)
        req.reply('ok', *msg.arguments)
        return self._second(req, msg, d)

    @gen.coroutine
    def request_r_cotwice(self, req, msg):
        """coroutine that replies itself and then also fails or returns a reply"""
        rec = self._begin(req, msg)
        yield self._work(req, msg)
        self._end(rec)
        req.reply('ok', *msg.arguments)
        yield gen.moment
        raise gen.Return(self._second(req, msg, self._p(msg)[1]))

    def _second(self, req, msg, k):
        self.sim.fault('answers_twice')
        if k % 4 == 0:
            raise ValueError('after the reply')
        if k % 4 == 1:
            raise FailReply('after the reply')
        if k % 4 == 2:
            return req.make_reply('ok', 'second')

    # -- failures
    def request_r_fail(self, req, msg):
        """fail"""
        rec = self._begin(req, msg)
        self._end(rec)
        raise FailReply('because ' + self._p(msg)[0].decode('latin-1'))

    def request_r_raise(self, req, msg):
        """raise"""
        rec = self._begin(req, msg)
        self._end(rec)
        raise ValueError('boom ' + self._p(msg)[0].decode('latin-1'))

    @request(Str(), Int(), Int(), include_msg=True)
    @return_reply(Str())
    def request_r_tfail(self, req, msg, tag, d, n):
        """typed fail"""
        rec = self._begin(req, msg)
        self._end(rec)
        return ('fail', 'because ' + tag)

    @gen.coroutine
    def request_r_afail(self, req, msg):
        """afail"""
        rec = self._begin(req, msg)
        yield self._work(req, msg)
        self._end(rec)
        raise FailReply('because ' + self._p(msg)[0].decode('latin-1'))

    @gen.coroutine
    def request_r_araise(self, req, msg):
        """araise"""
        rec = self._begin(req, msg)
        yield self._work(req, msg)
        self._end(rec)
        raise KeyError('boom ' + self._p(msg)[0].decode('latin-1'))

    @concurrent_reply
    @gen.coroutine
    def request_r_cfail(self, req, msg):
        """cfail"""
        rec = self._begin(req, msg)
        yield self._work(req, msg)
        self._end(rec)
        raise FailReply('because ' + self._p(msg)[0].decode('latin-1'))

    @concurrent_reply
    @gen.coroutine
    def request_r_craise(self, req, msg):
        """craise"""
        rec = self._begin(req, msg)
        yield self._work(req, msg)
        self._end(rec)
        raise RuntimeError('boom ' + self._p(msg)[0].decode('latin-1'))

    def _badvalue(self, req, msg, v):
        v = int(v)
        if v == 0:
            return None
        if v == 1:
            return 'ok'
        if v == 2:
            return Message.reply('wrong-name', 'ok')
        if v == 3:
            return Message.inform(msg.name, 'ok')
        if v == 4:
            return ('ok', 'x')
        return 42

    def request_r_bad(self, req, msg):
        """not a valid reply: variant in 4th argument"""
        rec = self._begin(req, msg)
        self._end(rec)
        return self._badvalue(req, msg, msg.arguments[3])

    @gen.coroutine
    def request_r_abad(self, req, msg):
        """async not a valid reply"""
        rec = self._begin(req, msg)
        yield self._work(req, msg)
        self._end(rec)
        raise gen.Return(self._badvalue(req, msg, msg.arguments[3]))

    @request(Str(), Int(), Int(), include_msg=True)
    @return_reply(Int())
    def request_r_badret(self, req, msg, tag, d, n):
        """return value that does not fit return_reply"""
        rec = self._begin(req, msg)
        self._end(rec)
        return [('maybe', tag), ('ok', 'notanint'), ('ok', 1, 2, 3), None][n % 4]

    # -- endless
    def request_r_never(self, req, msg):
        """never"""
        self._begin(req, msg)
        return tornado.concurrent.Future()

    @concurrent_reply
    def request_r_cnever(self, req, msg):
        """concurrent never"""
        self._begin(req, msg)
        return tornado.concurrent.Future()

    # -- handlers of informs and replies sent by clients
    def inform_noise(self, conn, msg):
        """inform handler"""
        self.odd.append(('inform', list(msg.arguments)))
        if len(msg.arguments) > 1:
            raise ValueError('inform handler failure')

    def reply_noise(self, conn, msg):
        """reply handler"""
        self.odd.append(('reply', list(msg.arguments)))
        if len(msg.arguments) > 1:
            raise ValueError('reply handler failure')


OK_ECHO = ('r-sync', 'r-co', 'r-done', 'r-later', 'r-colater')   # reply ok + all args
OK_TYPED = ('r-typed', 'r-cotyped', 'r-conc')                     # reply ok tag n
OK_KINDS = OK_ECHO + OK_TYPED
OWN_KINDS = ('r-again', 'r-withmsg', 'r-device', 'r-twice', 'r-cotwice')    # echo, in unusual ways
FAIL_TEXT = ('r-fail', 'r-tfail', 'r-afail', 'r-cfail')           # fail 'because <tag>'
FAIL_TB = ('r-raise', 'r-araise', 'r-craise')                     # fail <text containing boom tag>
FAIL_ANY = ('r-bad', 'r-abad', 'r-badret')
FAIL_KINDS = FAIL_TEXT + FAIL_TB + FAIL_ANY
CONCURRENT = ('r-conc', 'r-cfail', 'r-craise', 'r-cnever', 'r-later', 'r-withmsg')
SYNC = ('r-sync', 'r-typed', 'r-fail', 'r-raise', 'r-tfail', 'r-bad', 'r-badret')
INFORMING = ('r-cached', 'r-sync', 'r-typed', 'r-co', 'r-cotyped', 'r-conc', 'r-done', 'r-later',
             'r-colater', 'r-afail', 'r-araise', 'r-cfail', 'r-craise', 'r-abad') + OWN_KINDS


def expected_reply(kind, args):
    """-> predicate over reply arguments (list of bytes), description"""
    tag = args[0]
    if kind == 'r-cached':
        return (lambda a: a == [b'ok', b'same']), 'ok same'
    if kind in OK_ECHO or kind in OWN_KINDS:
        return (lambda a: a == [b'ok'] + args), 'ok + echo'
    if kind in OK_TYPED:
        n = args[2]
        return (lambda a: a == [b'ok', tag, n]), 'ok tag n'
    if kind in FAIL_TEXT:
        return (lambda a: a == [b'fail', b'because ' + tag]), 'fail because tag'
    if kind in FAIL_TB:
        return (lambda a: len(a) == 2 and a[0] == b'fail' and b'boom ' + tag in a[1]), \
            'fail with error text'
    if kind in FAIL_ANY:
        return (lambda a: len(a) == 2 and a[0] == b'fail' and len(a[1]) > 0), 'fail + text'
    return None, 'none'


def n_informs(kind, args):
    return int(args[2]) if kind in INFORMING else 0


class HookPlan(object):
    """Mixin: connect and disconnect hooks that take time or fail."""
    plan = ()               # [connect hook takes, raises, disconnect hook takes] cyclically

    def setup_sensors(self):
        super(HookPlan, self).setup_sensors()
        self.ready = {}         # connection -> stamp at which its connect hook was through
        self.failed = set()     # addresses of connections whose connect hook failed

    def _hook_plan(self, conn):
        k = [c for g, what, c in self.hooks if what == 'connect'].index(conn)
        return self.plan[k % len(self.plan)] if self.plan else [0, False, 0]

    @gen.coroutine
    def on_client_connect(self, conn):
        yield super(HookPlan, self).on_client_connect(conn)
        d, bad, _ = self._hook_plan(conn)
        if d:
            self.sim.fault('slow_connect_hook')
            yield gen.sleep(d)
        if bad:
            self.sim.fault('connect_hook_raises')
            self.failed.add(conn.address)
            raise RuntimeError('connect hook failed')
        self.ready[conn] = self.sim.stamp()

    @gen.coroutine
    def on_client_disconnect(self, conn, msg, valid):
        try:
            yield super(HookPlan, self).on_client_disconnect(conn, msg, valid)
        except iostream.StreamClosedError:
            pass        # closed after all while saying goodbye
        d = self._hook_plan(conn)[2]
        if d:
            self.sim.fault('slow_disconnect_hook')
            yield gen.sleep(d)


class ServerWorld(object):
    """Device on a simulated loop running on the main thread, raw clients around it."""
    def __init__(self, sim, dev_cls=Dev, port=PORT, setup=None, start=True, host='127.0.0.1'):
        self.sim = sim
        self.loop = world.SimIOLoop()
        self.loop.make_current()
        self.dev = dev_cls(host, port)
        if setup:
            setup(self.dev)
        self.clients = Clients(sim, port)
        if start:
            self.dev.start()
            if not port:
                self.clients.port = self.dev.bind_address[1]    # whichever was free

    def in_loop(self, fn, *args):
        """From an event: run fn in the loop."""
        self.loop.add_callback(fn, *args)

    def schedule(self, ops):
        """ops: [t, target, kind, args...]; target 'c<k>' is a client, '@' the device."""
        for op in ops:
            t, target, kind = op[0], op[1], op[2]
            args = op[3:]
            if target == '@':
                self.sim.at(t, self._devop, kind, *args)
            else:
                self.sim.at(t, self.clients.op, target, kind, *args)

    def _devop(self, kind, *args):
        self.sim.ops_done += 1
        if kind == 'stall':
            self.loop.stall(args[0])
            return
        fn = getattr(self, 'dev_' + kind)
        self.in_loop(fn, *args)

    def run(self, until):
        run_loop(self.sim, self.loop, until)


def req_line(kind, mid, tag, d, n, *extra):
    return fmt('?', kind, mid, tag, str(d), str(n), *extra).decode('latin-1')


def gen_requests(rng, client, count, kinds, dmax=200, nmax=4, mid_prob=0.8, extra_prob=0.3):
    """-> list of (line, spec) with tags unique over the run."""
    out = []
    mid = rng.choice([1, 7, 1000])
    for k in range(count):
        kind = rng.choice(kinds)
        d = rng.choice([0, 0, 1, rng.randint(0, dmax)])
        n = rng.choice([0, 0, 1, rng.randint(0, nmax)])
        m = None
        if rng.random() < mid_prob:
            m = str(mid)
            mid += rng.choice([1, 1, 3])
        tag = '%s.%d' % (client, k)
        extra = []
        if kind in ('r-bad', 'r-abad'):
            extra = [str(rng.randrange(6))]
        elif kind in OK_ECHO + OWN_KINDS and rng.random() < extra_prob:
            for _ in range(rng.randint(1, 3)):
                extra.append(bytes(rng.choice([0, 9, 10, 13, 27, 32, 92, 64, 65, 97, 200, 255])
                                   for _ in range(rng.randint(0, 6))).decode('latin-1'))
        line = fmt('?', kind, m, tag, str(d), str(n),
                   *[e.encode('latin-1') for e in extra]).decode('latin-1')
        out.append((line, kind))
    return out


def parse_sent(data):
    """All complete request/other lines in a byte stream the way the wire format defines them."""
    lines = []
    cur = bytearray()
    for b in data:
        if b in (10, 13):
            lines.append(bytes(cur))
            cur = bytearray()
        else:
            cur.append(b)
    return [l for l in lines if l], bytes(cur)
