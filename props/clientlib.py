"""Real asynchronous client on a simulated loop against a scripted server.

The server records every line it receives and sends; what it answers to a request is part of
the scenario (the plan stored with the request), so every answer can be attributed.
"""
from sim import world, net
from sim.world import fmt, run_loop
from katcp import AsyncClient, Message
from katcp.core import ProtocolFlags
from tornado import gen

PORT = 5000

GREETS = {
    'mi': [b'#version-connect katcp-protocol 5.0-MI\n',
           b'#version-connect katcp-library katcp-python-0.0 katcp-python-0.0\n'],
    'm': [b'#version-connect katcp-protocol 5.0-M\n'],
    'v4': [b'#build-state x-1.0\n', b'#version y-1.0\n'],
    'none': [],
}

BAD_LINES = ['foo bar', '?[1] x', '!1abc ok', '#x \\q', '\x00', '?', '#bad[] x', '!bad[1x] ok',
             '#\xff\xfe x', '# evt x', '!evt] x', '#evt[12 x', '\\', '#evt a\\', ' #evt x']


class Cl(AsyncClient):
    """Recording client. Handlers do what the message's argument tells them to."""
    def __init__(self, w, host, port, **kw):
        self.w = w
        self.notify_raise = ()
        self.n_notify = 0
        super(Cl, self).__init__(host, port, **kw)

    def notify_connected(self, connected):
        self.n_notify += 1
        self.w.event('notify', value=connected, is_connected=self.is_connected(),
                     nconn=len(self.w.srv.conns))
        if self.n_notify in self.notify_raise:
            self.w.sim.fault('notify_raises')
            raise RuntimeError('notify hook failed')

    def _h(self, what, msg):
        return self.w.handler(what, msg)

    def inform_evt(self, msg):
        """Recorded."""
        return self._h('inform_evt', msg)

    def inform_tick(self, msg):
        """Recorded."""
        return self._h('inform_tick', msg)

    def reply_evt(self, msg):
        """Recorded."""
        return self._h('reply_evt', msg)

    def reply_odd(self, msg):
        """Recorded."""
        return self._h('reply_odd', msg)

    def request_ask(self, msg):
        """Recorded."""
        r = self._h('request_ask', msg)
        if r is not None:
            return r
        return Message.reply('ask', 'ok', *msg.arguments)

    def unhandled_inform(self, msg):
        return self._h('unhandled_inform', msg)

    def unhandled_reply(self, msg):
        return self._h('unhandled_reply', msg)

    def unhandled_request(self, msg):
        return self._h('unhandled_request', msg)


class SConn(object):
    """Server side of one connection with its ledger."""
    def __init__(self, srv, raw, idx):
        self.srv = srv
        self.raw = raw
        self.idx = idx
        self.sent = []          # dict(line, end offset, t, g, serial, tag)
        self.nbytes = 0
        self.delivered = []     # (t, cumulative bytes) at the client's socket
        self.requests = []      # (t, g, parsed)
        self.t_open = srv.sim.now
        self.g_open = srv.sim.stamp()
        self.ended = None       # (t, how) first moment the client's side saw an end
        self.t_down = None      # time of the first server-side end of this connection
        self.replied = set()    # requests without id that were answered
        self.fifo = {}          # name -> list of plans waiting (no message ids)

    @property
    def client_ep(self):
        return self.raw.ep.peer

    def client_open(self):
        ep = self.client_ep
        return not (ep.closed or ep.dead)

    def send(self, data, serial=None, tag=None, what=None):
        r = self.raw
        if r.closed_locally or r.fin_after_flush or r.half_after_flush or r.ep.dead or \
                r.ep.tx_fin:
            return None
        self.nbytes += len(data)
        rec = {'line': data, 'end': self.nbytes, 't': self.srv.sim.now,
               'g': self.srv.sim.stamp(), 'serial': serial, 'tag': tag, 'what': what,
               'conn': self}
        self.sent.append(rec)
        r.send(data)
        return rec

    def t_delivered(self, rec):
        """When the last byte of a sent line reached the client's socket (None: never)."""
        for t, n in self.delivered:
            if n >= rec['end']:
                return t
        return None


class Srv(object):
    def __init__(self, w, greet='mi', port=PORT, greet_delay=0.0):
        self.w = w
        self.sim = w.sim
        self.greet = greet
        self.greet_delay = greet_delay
        self.conns = []
        self.serial = 0
        self.lines = {}          # serial -> sent record
        self.by_tag = {}         # tag -> dict(conn, t, g, mid, name)
        self.overlap = []
        self.listener = net.RawListener(w.sim.net, port, self._on_conn)

    def _on_conn(self, raw):
        c = SConn(self, raw, len(self.conns))
        for o in self.conns:
            if o.client_open():
                self.overlap.append((self.sim.now, o.idx, c.idx))
        self.conns.append(c)
        raw.on_line = lambda _r, line, c=c: self._on_line(c, line)
        ep = c.client_ep
        c.delivered_n = 0
        orig = ep._receive

        def receive(kind, data, c=c, orig=orig):
            if kind == 'data' and not ep.closed and not ep.dead:
                c.delivered_n += len(data)
                c.delivered.append((self.sim.now, c.delivered_n))
            elif kind in ('fin', 'rst') and c.ended is None:
                c.ended = (self.sim.now, kind)
            return orig(kind, data)
        ep._receive = receive
        for line in GREETS[self.greet]:
            line = line.replace(b'python-0.0', b'python-0.%d' % c.idx)    # upgraded each time
            if self.greet_delay:
                self.sim.after(self.greet_delay, c.send, line)
            else:
                c.send(line)
        self.w.on_server_conn(c)

    def new_serial(self):
        self.serial += 1
        return 's%d' % self.serial

    def emit(self, c, mtype, name, mid, args, tag=None, what=None):
        s = self.new_serial()
        line = fmt(mtype, name, mid, *(list(args) + [s]))
        rec = c.send(line, s, tag, what)
        if rec is not None:
            rec['p'] = (mtype, name, mid)
            self.lines[s] = rec
        return rec

    def _on_line(self, c, line):
        if not line:
            return
        try:
            p = world.parse_line(line)
        except world.BadLine:
            self.sim.violation('garbled-request', 'server received %r' % (line,))
            return
        c.requests.append((self.sim.now, self.sim.stamp(), p))
        mtype, name, mid, args = p
        if mtype != '?':
            return
        tag = args[0].decode() if args else None
        plan = self.w.plans.get(tag)
        if plan is None:
            if tag in self.w.reqs or not self.w.reqs:
                pass
            return
        if tag in self.by_tag:
            self.sim.violation('sent-twice', 'request %s reached the server twice' % tag)
            return
        info = {'conn': c, 't': self.sim.now, 'g': self.sim.stamp(), 'mid': mid, 'name': name}
        self.by_tag[tag] = info
        if mid is None:
            q = c.fifo.setdefault(name, [])
            q.append((tag, plan))
            if len(q) == 1:
                self._start_next(c, name)
        else:
            self._run(c, name, mid, tag, list(plan), None)

    def _start_next(self, c, name):
        q = c.fifo.get(name)
        if q:
            tag, plan = q[0]

            def done():
                q.pop(0)
                self._start_next(c, name)
            self._run(c, name, None, tag, list(plan), done)

    def _run(self, c, name, mid, tag, plan, done):
        """Perform the next step of a plan after its delay."""
        if not plan:
            return
        step = plan.pop(0)

        def go():
            self.step(c, name, mid, tag, step)
            if done is not None and step[1] == 'reply':
                if not any(s[1] == 'reply' for s in plan):
                    done()
            self._run(c, name, mid, tag, plan, done)
        if step[0]:
            self.sim.after(step[0], go)
        else:
            go()

    def step(self, c, name, mid, tag, step):
        what = step[1]
        sim = self.sim
        if mid is None:
            # without ids such lines would legitimately count as answers
            if what in ('oinform', 'oreply', 'noid-inform', 'noid-reply', 'late-reply',
                        'late-inform'):
                return
            if tag in c.replied:
                return
            if what == 'reply':
                c.replied.add(tag)
        if what == 'inform':
            self.emit(c, '#', name, mid, [tag] + step[2:], tag, 'inform')
        elif what == 'oinform':                       # other name, same id
            self.emit(c, '#', step[2], mid, [tag], tag, 'inform')
        elif what == 'reply':
            self.emit(c, '!', name, mid, step[2:] + [tag], tag, 'reply')
        elif what == 'oreply':                        # other name, same id
            self.emit(c, '!', step[2], mid, ['ok', tag], tag, 'reply')
        elif what == 'noid-inform':
            sim.fault('unsolicited')
            self.emit(c, '#', name, None, [tag], tag, 'stray')
        elif what == 'noid-reply':
            sim.fault('unsolicited')
            self.emit(c, '!', name, None, ['ok', tag], tag, 'stray')
        elif what == 'badid-reply':
            sim.fault('unsolicited')
            self.emit(c, '!', name, str(900000 + int(step[2])), ['ok', tag], tag, 'stray')
        elif what == 'late-reply':                    # on whatever connection is newest
            sim.fault('late_reply')
            self.emit(self.conns[-1], '!', name, mid, ['ok', tag], tag, 'late')
        elif what == 'late-inform':
            sim.fault('late_reply')
            self.emit(self.conns[-1], '#', name, mid, [tag], tag, 'late')
        elif what == 'garbage':
            sim.fault('malformed_line')
            c.send(step[2].encode('latin-1') + b'\n')
        else:
            self.conn_op(c, what)

    def conn_op(self, c, what):
        sim, r = self.sim, c.raw
        if c.t_down is None and what in ('close', 'finish', 'half', 'reset', 'vanish', 'hold',
                                           'crash'):
            c.t_down = sim.now
        if what == 'close':
            sim.fault('server_close')
            r.close()
        elif what == 'finish':
            sim.fault('server_finish')
            r.finish()
        elif what == 'half':
            sim.fault('server_half_close')
            r.half_close()
        elif what == 'reset':
            sim.fault('server_reset')
            r.reset()
        elif what == 'vanish':
            sim.fault('server_vanish')
            r.vanish()
        elif what == 'crash':
            sim.fault('server_crash')
            r.vanish()
            r.ep.rebooted = True
        elif what == 'hold':
            sim.fault('partition')
            r.ep.hold()
            if r.ep.peer is not None:
                r.ep.peer.hold()
        elif what == 'heal':
            r.ep.release()
            if r.ep.peer is not None:
                r.ep.peer.release()
        elif what == 'noread':
            sim.fault('server_stops_reading')
            r.stop_reading()
        elif what == 'read':
            r.start_reading()
        else:
            raise ValueError(what)


class ClientWorld(object):
    cls = Cl

    def __init__(self, sim, sc, start=True, managed=False):
        self.sim = sim
        self.sc = sc
        self.managed = managed
        self.loop = None
        if not managed:
            self.loop = world.SimIOLoop()
            self.loop.make_current()
        self.events = []
        self.reqs = {}           # tag -> ledger of one request
        self.plans = {}
        self.stalls = []
        self.t_stop = None
        self.srv = Srv(self, sc.get('greet', 'mi'), greet_delay=sc.get('greet_delay', 0.0))
        if sc.get('down'):
            self.srv.listener.down()
        kw = dict(sc.get('client') or {})
        for k, v in (('timeout', 5.0), ('auto_reconnect', True)):
            if kw.get(k) == v:
                del kw[k]       # the documented default
        delay = kw.pop('delay', None)
        self.cl = self.make_client(**kw)
        if delay is not None:
            self.cl.auto_reconnect_delay = delay
        self.cl.notify_raise = tuple(sc.get('notify_raise') or ())
        if sc.get('preset'):
            self.cl.preset_protocol_flags(ProtocolFlags.parse_version(
                sc['preset'].encode()))
        if not managed:
            self.cl.set_ioloop(self.loop)
        for op in sc['ops']:
            if op[1] == 'req':
                self._plan(op[2:])
            sim.at(op[0], self._op, op[1], *op[2:])
        if start:
            self.do_start()

    def make_client(self, **kw):
        return self.cls(self, '127.0.0.1', PORT, **kw)

    def _plan(self, a):
        tag, _name, opts, plan = a
        self.plans[tag] = plan
        for nxt in opts.get('then') or ():
            self._plan(nxt)

    def on_server_conn(self, c):
        pass

    def event(self, kind, **kw):
        e = {'kind': kind, 't': self.sim.now, 'g': self.sim.stamp()}
        e.update(kw)
        self.events.append(e)
        self.sim.log('ev', kind, kw.get('tag'), kw.get('value'), kw.get('serial'))
        return e

    # -- operations ---------------------------------------------------
    def _op(self, kind, *args):
        self.sim.ops_done += 1
        sim = self.sim
        sim.log('op', kind, args[:1])
        if kind == 'stall':
            if self.loop is not None:
                self.stalls.append((sim.now, args[0]))
                sim.fault('loop_stall')
                self.loop.stall(args[0])
        elif kind == 'down':
            sim.fault('server_down')
            self.srv.listener.down()
        elif kind == 'up':
            self.srv.listener.up()
        elif kind == 'blackhole':
            sim.net.blackhole.add(PORT)
        elif kind == 'unblackhole':
            sim.net.blackhole.discard(PORT)
        elif kind == 'conndelay':
            sim.net.connect_delay[PORT] = args[0]
            if args[0]:
                sim.fault('slow_connect')
        elif kind == 'srv':
            if self.srv.conns:
                self.srv.conn_op(self.srv.conns[-1], args[0])
        elif kind == 'line':          # unsolicited [mtype, name, mid, args]
            if self.srv.conns:
                m, n, mid, a = args
                self.srv.emit(self.srv.conns[-1], m, n, mid, a, None, 'unsol')
        elif kind == 'raw':
            if self.srv.conns:
                sim.fault('malformed_line')
                self.srv.conns[-1].send(args[0].encode('latin-1'))
        elif kind == 'clock':
            sim.fault('wall_clock_step')
            sim.clock_offset += args[0]
        else:
            self.post(getattr(self, 'do_' + kind), *args)

    def post(self, fn, *args):
        """Run fn in the client's loop (dropped if a managed loop is not there)."""
        if not self.managed:
            self.loop.add_callback(fn, *args)
        elif self.cl.ioloop is not None and self.cl.running():
            try:
                self.cl.ioloop.add_callback(fn, *args)
            except RuntimeError:
                pass

    def do_start(self):
        if not self.cl.running() and not self.cl._stopped.isSet():
            self.event('start-skipped')         # still stopping
            return
        try:
            self.event('start')
            self.cl.start()
        except RuntimeError as e:
            self.event('start-refused', value=str(e))

    def do_stop(self):
        self.event('stop', connected=self.cl.is_connected())
        self.t_stop = self.sim.now
        self.cl.stop()
        f = self.cl.until_stopped()
        f.add_done_callback(lambda f: self.event('stopped', value=repr(f.exception())))

    def do_disconnect(self):
        self.sim.fault('client_disconnect_call')
        self.event('disconnect')
        self.cl.disconnect()

    def do_req(self, tag, name, opts, plan):
        sim = self.sim
        opts = opts or {}
        r = {'tag': tag, 'name': name, 'opts': opts, 'done': [], 'informs': [], 'exc': None,
             'then': list(opts.get('then') or ())}
        r['timeout'] = opts['timeout'] if 'timeout' in opts else self.cl._request_timeout
        self.reqs[tag] = r
        msg = Message.request(name, tag)
        if opts.get('mid'):
            msg.mid = opts['mid'].encode()
        r['msg'] = msg
        r['connected'] = self.cl.is_connected()
        r['conn'] = len(self.srv.conns)
        ev = self.event('issue', tag=tag)
        r['t'], r['g'] = ev['t'], ev['g']
        kw = {}
        if opts.get('timeout') is not None:
            kw['timeout'] = opts['timeout']
        if 'use_mid' in opts:
            kw['use_mid'] = opts['use_mid']
        style = opts.get('style', 'future')
        if style == 'future':
            f = self.cl.future_request(msg, **kw)

            def fdone(f):
                if f.exception() is not None:
                    r['exc'] = repr(f.exception())
                    self.event('exc', tag=tag, value=r['exc'])
                    return
                reply, informs = f.result()
                r['future_informs'] = list(informs)
                self._complete(r, reply)
            f.add_done_callback(fdone)
            return
        ud = ('ud', tag) if style == 'cbud' else None

        def reply_cb(m, *u):
            if ud is not None and tuple(u) != ud:
                sim.violation('user-data', 'request %s: callback got user data %r' % (tag, u))
            self._complete(r, m)
            if opts.get('raise'):
                sim.fault('callback_raises')
                raise RuntimeError('callback of %s failed' % tag)

        def inform_cb(m, *u):
            if ud is not None and tuple(u) != ud:
                sim.violation('user-data', 'request %s: callback got user data %r' % (tag, u))
            r['informs'].append(m)
            self.event('inform', tag=tag, serial=serial_of(m), m=m)
            if opts.get('raise'):
                sim.fault('callback_raises')
                raise RuntimeError('inform callback of %s failed' % tag)
        if ud is not None:
            kw['user_data'] = ud
        if opts.get('noinf'):
            inform_cb = None
        try:
            self.cl.callback_request(msg, reply_cb=None if opts.get('noreply') else reply_cb,
                                     inform_cb=inform_cb, **kw)
        except Exception as e:
            r['exc'] = repr(e)
            self.event('exc', tag=tag, value=r['exc'])

    def _complete(self, r, m):
        e = self.event('done', tag=r['tag'], serial=serial_of(m), m=m, value=str(m))
        e['ninf'] = len(r['informs'])
        r['done'].append(e)
        then, r['then'] = r['then'], []
        for nxt in then:
            self.sim.ops_done += 1
            self.do_req(*nxt)

    def handler(self, what, msg):
        s = serial_of(msg)
        self.event('handler', value=what, serial=s, m=msg)
        act = msg.arguments[0] if msg.arguments else b''
        if act == b'raise':
            self.sim.fault('handler_raises')
            raise RuntimeError('handler failed')
        if act == b'fraise':
            self.sim.fault('handler_raises')
            return self._fraise()
        if act == b'slow':
            return self._slow()
        return None

    @gen.coroutine
    def _fraise(self):
        yield gen.moment
        raise RuntimeError('handler future failed')

    @gen.coroutine
    def _slow(self):
        yield gen.sleep(0.05)

    def run(self, until):
        run_loop(self.sim, self.loop, until)

    def stall_total(self):
        return sum(d for _t, d in self.stalls)


def serial_of(msg):
    a = msg.arguments[-1:] if msg.arguments else []
    if a and a[0][:1] == b's' and a[0][1:].isdigit():
        return a[0].decode()
    return None


# -- generators -------------------------------------------------------------
NAMES = ['get', 'put', 'odd', 'evt']


def gen_plan(rng, dmax, mids=True, hostile=0.3):
    """Answer plan of one request."""
    plan = []
    d = lambda: rng.choice([0, 0, 0.001, round(rng.uniform(0, dmax), 6)])
    for k in range(rng.choice([0, 0, 1, 2, rng.randint(0, 5)])):
        plan.append([d(), 'inform', 'i%d' % k])
    if mids and rng.random() < hostile:
        for _ in range(rng.randint(1, 2)):
            k = rng.choice(['noid-inform', 'noid-reply', 'badid-reply', 'garbage', 'oinform'])
            step = [d(), k]
            if k == 'badid-reply':
                step.append(rng.randrange(100))
            elif k == 'garbage':
                step.append(rng.choice(BAD_LINES))
            elif k == 'oinform':
                step.append(rng.choice(['tick', 'zz', 'get']))
            plan.insert(rng.randint(0, len(plan)), step)
    if rng.random() < 0.9:
        plan.append([d(), 'reply', rng.choice(['ok', 'ok', 'fail', 'invalid'])])
        if mids and rng.random() < hostile:
            k = rng.choice(['reply', 'late-reply', 'late-inform', 'inform', 'oreply'])
            step = [d(), k]
            if k == 'reply':
                step.append('ok')
            elif k == 'oreply':
                step.append('get')
            plan.append(step)
    return plan


def gen_req(rng, tag, dmax, mids, names=NAMES, timeouts=(None, 'd', 'd', 0.05, 0.3, 1.0, 3.0),
            depth=0, hostile=0.3, use_mid=0.1):
    opts = {'style': rng.choice(['future', 'cb', 'cb', 'cbud'])}
    t = rng.choice(timeouts)
    if t != 'd':
        if t is not None:
            opts['timeout'] = t
    if rng.random() < use_mid:
        opts['use_mid'] = rng.choice([True, False])
    if opts['style'] != 'future':
        if rng.random() < 0.15:
            opts['raise'] = True
        if rng.random() < 0.1:
            opts['noinf'] = True
    if depth == 0 and rng.random() < 0.15:
        opts['then'] = [gen_req(rng, '%s.%d' % (tag, k), dmax, mids, names, timeouts, 1, hostile,
                                use_mid) for k in range(rng.randint(1, 2))]
    return [tag, rng.choice(names), opts, gen_plan(rng, dmax, mids, hostile)]


# -- oracle helpers ----------------------------------------------------------
def expected_lines(w, r):
    """Server lines for request r that carry its id, in order, up to and including the first
    reply; None if it did not reach the server."""
    info = w.srv.by_tag.get(r['tag'])
    if info is None:
        return None, [], None
    c = info['conn']
    informs, reply = [], None
    for rec in c.sent:
        if rec['tag'] != r['tag'] or rec['serial'] is None:
            continue
        mtype, name, mid = rec['p']
        if rec['what'] == 'stray':
            continue
        if rec['what'] == 'late' and mid is None:
            continue
        if mtype == '#':
            informs.append(rec)
        else:
            reply = rec
            break
    return c, informs, reply
