"""C20: blocking and callback clients are safe to use from many threads."""
import threading
from sim import world
from sim.world import katcp
from katcp.client import KatcpClientDisconnected
from concurrent.futures import TimeoutError as CTimeout
from katcp import Message
from props import clientlib as K
from props import waitlib as W

ID = 'C20'
SHRINK = ['ops', 'callers', 'cycles', 'preempt']
RULE = ('1-5 caller threads make blocking and callback requests, sends, disconnects and waits on one client '
        'with its own loop thread, preempted at any line of katcp, while connections are slow, refused, cut, '
        'lost and remade, and another thread stops, joins and restarts the client')
REAL = ['katcp.client', 'katcp.ioloop_manager', 'katcp.core', 'tornado ioloop/iostream/gen',
        'concurrent.futures']
STUB = ['TCP sockets and poller', 'clock', 'OS threads (baton scheduler)', 'server (scripted)']
RUNS = {'quick': 2000, 'thorough': 80000}
ASSUME = ['requests without a message id are only judged for coming back in time',
          'threads are preempted between lines of katcp code (not inside a builtin call)']

MARGIN = 1.0        # blocking requests are documented to wait this much longer


def gen(rng, tier):
    T = rng.choice([1.0, 3.0])
    mids = rng.random() < 0.9
    ops, cycles, callers = [], [], []
    n = 0
    for k in range(rng.choice([1, 2, 3, 5])):
        for _ in range(rng.choice([2, 5, 12])):
            dt = round(rng.choice([0, 0, 0.001, rng.uniform(0, T / 4)]), 6)
            r = rng.random()
            if r < 0.55:
                opts = {}
                t = rng.choice([None, 'd', 'd', 0, 0.02, 0.3, 1.0, 3.0])
                if t != 'd':
                    opts['timeout'] = t
                if rng.random() < 0.08:
                    opts['use_mid'] = rng.random() < 0.5
                opts['style'] = rng.choice(['blk', 'blk', 'blk', 'cb', 'cbud', 'check'])
                callers.append([k, dt, 'req', 'q%d' % n, rng.choice(K.NAMES), opts,
                                K.gen_plan(rng, rng.choice([0.01, 0.5]), mids, 0.15)])
                n += 1
            elif r < 0.85:
                callers.append([k, dt, 'wait', rng.choice(['running', 'connected', 'connected', 'disconnected',
                                                           'protocol']),
                                rng.choice([0, 0.0005, 0.05, 0.3, 1.0])])
            elif r < 0.95:
                callers.append([k, dt, rng.choice(['send', 'request']), 'x%d' % n])
                n += 1
            else:
                callers.append([k, dt, 'disconnect'])
    for _ in range(rng.choice([0, 0, 1, 3])):
        t = round(rng.uniform(0, T), 6)
        what = rng.choice(['reset', 'close', 'half', 'down', 'conndelay', 'noread', 'line', 'vanish', 'hold', 'block', 'block'])
        if what == 'down':
            ops += [[t, 'down'], [t, 'srv', 'reset'], [round(t + rng.uniform(0, T / 2), 6), 'up']]
        elif what == 'conndelay':
            ops += [[t, 'conndelay', round(rng.uniform(0, 0.5), 3)], [t, 'srv', 'close']]
        elif what == 'block':
            ops.append([t, 'block', round(rng.choice([0.3, 2.0, 8.0]), 3)])
        elif what == 'line':
            ops.append([t, 'line', rng.choice('#!?'), rng.choice(['evt', 'ask', 'get']), None, ['plain']])
        elif what in ('noread', 'hold'):
            ops += [[t, 'srv', what], [round(t + rng.uniform(0, T / 2), 6), 'srv',
                                       'read' if what == 'noread' else 'heal']]
        else:
            ops.append([t, 'srv', what])
    t = 0.0
    for _ in range(rng.choice([1, 1, 1, 2, 3])):
        stop = t + rng.choice([0, 0.0005, rng.uniform(0, T), rng.uniform(0, T), T, 2 * T, 2 * T])
        cycles.append([round(t, 6), round(stop, 6), rng.choice(['once', 'once', 'twice', 'nojoin']),
                       rng.random() < 0.5])
        t = stop + rng.choice([0, 0.3])
    for c in cycles:
        # requests at the very moment of a stop
        for j in range(rng.choice([0, 0, 1, 3])):
            k = 10 + n
            at = round(max(0, c[1] + rng.choice([0, 1e-5, 2e-5, 3e-5, 5e-5, rng.uniform(-0.001, 0.001),
                                                 rng.uniform(0, 0.05)])), 6)
            callers.append([k, at, 'req', 'q%d' % n, 'get', {'style': rng.choice(['blk', 'cb'])},
                            [[0, 'reply', 'ok']]])
            n += 1
    ops.sort(key=lambda o: o[0])
    return {'ops': ops, 'callers': callers, 'cycles': cycles, 'managed': True, 'asyncio_loop': True,
            'down': rng.random() < 0.1, 'net': world.gen_net(rng), 'greet': 'mi' if mids else 'm',
            'client': {'timeout': rng.choice([5.0, 0.5, None]), 'auto_reconnect': rng.random() < 0.9,
                       'delay': 0.1},
            'kind': rng.choice(['blocking', 'callback']),
            'preempt': world.gen_preempt(rng, rng.choice([0, 5, 20, 60]), hi=rng.choice([30, 300])),
            'preempt_files': rng.choice([None, ['client.py'], ['client.py', 'core.py', 'ioloop_manager.py']]),
            'horizon': 1000}


def make_class(base):
    class Client(base):
        def __init__(self, w, host, port, **kw):
            self.w = w
            super(Client, self).__init__(host, port, **kw)

        def notify_connected(self, connected):
            self.w.event('notify', value=connected)
            super(Client, self).notify_connected(connected)

        def request_ask(self, msg):
            """Answered at once."""
            return Message.reply('ask', 'ok', *msg.arguments)
    return Client


BLOCKING = make_class(katcp.client.BlockingClient)
CALLBACK = make_class(katcp.client.CallbackClient)


class World20(K.ClientWorld):
    def __init__(self, *args, **kw):
        self.sends = []
        self.blocked = []       # (from, to) the loop thread was busy
        super(World20, self).__init__(*args, **kw)

    def do_block(self, d):
        self.sim.fault('loop_blocked')
        span = [self.sim.now, 1e9]
        self.blocked.append(span)
        self.sim.sleep(d)
        span[1] = self.sim.now

    def make_client(self, **kw):
        return (BLOCKING if self.sc['kind'] == 'blocking' else CALLBACK)(self, '127.0.0.1', K.PORT, **kw)


class Expected(Exception):
    pass


class Caller(object):
    def __init__(self, w, k, steps, watch, life):
        self.w, self.sim, self.cl, self.k = w, w.sim, w.cl, k
        self.steps, self.watch, self.life = steps, watch, life
        self.pending = None
        self.thread = threading.Thread(target=self.guarded, name='caller%d' % k)
        self.slack = 0.01 + sum(p[1] for p in w.sc.get('preempt') or ())

    def guarded(self):
        try:
            self.main()
        except Exception as e:
            import traceback
            self.sim.violation('unexpected-exception', 'caller %d: %r\n%s' % (
                self.k, e, traceback.format_exc()[-800:]))

    def main(self):
        for st in self.steps:
            if st[1]:
                self.sim.sleep(st[1])
            self.sim.ops_done += 1
            getattr(self, 'do_' + st[2])(*st[3:])

    def call(self, desc, limit, fn):
        """Blocking call that has to come back within limit (None: by the end)."""
        t0 = self.sim.now
        self.pending = (desc, t0, limit)
        try:
            try:
                v = ('ok', fn())
            except Exception as e:
                v = ('raise', e)
        finally:
            self.pending = None
        dt = self.sim.now - t0
        self.sim.log('call', self.k, desc, v[0])
        if limit is not None and dt > limit + self.slack:
            self.sim.violation('late-return', '%s called at %.6f came back after %.3f s (limit %.3f)' % (
                desc, t0, dt, limit))
        return v

    def do_req(self, tag, name, opts, plan):
        sim, w = self.sim, self.w
        msg = Message.request(name, tag)
        kw = dict((k, v) for k, v in opts.items() if k in ('timeout', 'use_mid') and
                  not (k == 'timeout' and v is None))
        timeout = kw.get('timeout', self.w.sc['client']['timeout'])
        r = {'tag': tag, 'name': name, 'msg': msg, 't': sim.now, 'g': sim.stamp(), 'results': [], 'informs': [],
             'timeout': timeout, 'style': opts['style'], 'life': dict(self.life), 'calm': False}
        w.reqs[tag] = r
        w.plans[tag] = plan
        limit = None if timeout is None else timeout + MARGIN
        what = 'request %s (%s, timeout %r)' % (tag, opts['style'], timeout)
        if opts['style'] == 'blk':
            how, v = self.call(what, limit, lambda: self.cl.blocking_request(msg, **kw))
        elif opts['style'] == 'check':
            how, v = self.call(what, limit, lambda: katcp.client.request_check(
                self.cl, Expected, name, tag, **({'timeout': kw['timeout']} if 'timeout' in kw else {})))
        else:
            ud = ('ud', tag) if opts['style'] == 'cbud' else None

            def reply_cb(m, *u):
                if ud is not None and u != ud:
                    sim.violation('user-data', '%s: callback got user data %r' % (what, u))
                r['results'].append((sim.now, 'cb', m, list(r['informs'])))

            def inform_cb(m, *u):
                if ud is not None and u != ud:
                    sim.violation('user-data', '%s: callback got user data %r' % (what, u))
                r['informs'].append(m)
            if ud is not None:
                kw['user_data'] = ud
            how, v = self.call(what, 0.0, lambda: self.cl.callback_request(
                msg, reply_cb=reply_cb, inform_cb=inform_cb, **kw))
            r['calm'] = r['life'] == self.life
            if how == 'raise':
                r['results'].append((sim.now, 'raise', v, []))
            return
        r['calm'] = r['life'] == self.life
        if how == 'ok':
            reply, informs = v
            r['results'].append((sim.now, 'ok', reply, list(informs)))
        else:
            r['results'].append((sim.now, 'raise', v, []))

    def do_wait(self, kind, timeout):
        g0, t0, life0 = self.sim.stamp(), self.sim.now, dict(self.life)
        self.watch.poll()
        how, v = self.call('wait_%s(%r)' % (kind, timeout), timeout,
                           lambda: getattr(self.cl, 'wait_' + kind)(timeout=timeout))
        self.watch.poll()
        g1, t1 = self.sim.stamp(), self.sim.now
        what = 'wait_%s(%r) called at %.6f' % (kind, timeout, t0)
        if how == 'raise':
            self.sim.probe('waits refused')
            if self.w.sc['client']['auto_reconnect'] and not (life0['stopping'] or self.life['stopping'] or self.life != life0):
                self.sim.violation('wait-raises', '%s raised %r' % (what, v))
            return
        if v is not True and v is not False:
            self.sim.violation('wait-result', '%s returned %r' % (what, v))
        if kind == 'protocol':
            t_line = min([t for c in self.w.srv.conns for t in [version_time(c)] if t is not None] or [1e9])
            if v and t_line > t1:
                self.sim.violation('false-success', '%s returned True, no version received' % what)
            return
        first = self.watch.first_true(kind, g0, t0)
        if v:
            self.sim.probe('waits met')
            if first is None or first[0] > g1:
                self.sim.violation('false-success', '%s returned True but it was not %s until %.6f' % (
                    what, kind, t1))
        else:
            self.sim.probe('waits not met')
            stop = life0['stopping'] or self.life['stopping'] or self.life['gen'] != life0['gen'] or \
                not life0['up']
            if timeout and not stop and self.held(kind, g0, t0, t0 + timeout):
                self.sim.violation('false-timeout', '%s returned False, it was %s at %.6f' % (
                    what, kind, first[1]))

    def held(self, kind, g0, t0, deadline):
        """Whether the condition held long enough for the loop to see it."""
        h = self.watch.hist[kind]
        for j, (g, a, v) in enumerate(h):
            b = min(deadline, h[j + 1][1] if j + 1 < len(h) else deadline)
            if v and max(a, t0) + self.slack + sum(o[2] for o in self.w.sc['ops'] if o[1] == 'block') < b:
                return True
        return False

    def do_send(self, tag):
        self.oneway(tag, 'send_message', lambda: self.cl.send_message(Message.inform('note', tag)))

    def do_request(self, tag):
        self.oneway(tag, 'request', lambda: self.cl.request(Message.request('plain', tag)))

    def oneway(self, tag, what, fn):
        s = {'tag': tag, 'what': what, 't': self.sim.now, 'life': dict(self.life), 'on': self.open_conns()}
        how, v = self.call(what, 5.0, fn)
        s.update(how=how, v=v, t1=self.sim.now, calm=s['life'] == self.life, on1=self.open_conns(),
                 g1=self.sim.stamp())
        self.w.sends.append(s)

    def open_conns(self):
        return [c for c in self.w.srv.conns if c.client_open()]

    def do_disconnect(self):
        self.sim.fault('client_disconnect_call')
        self.call('disconnect', 0.0, self.cl.disconnect)


def version_time(c):
    for rec in c.sent:
        if rec['line'].startswith((b'#version-connect katcp-protocol', b'#version ', b'#build-state')):
            for t, n in c.delivered:
                if n >= rec['end'] - 1:
                    return t
    return None


def bound(w, sc):
    c = w.sim.net.conf
    b = w.cl.auto_reconnect_delay + c.conn_lat_max + 4 * (c.lat_max + c.grid) + 0.1
    b += max([o[2] for o in sc['ops'] if o[1] == 'conndelay'] + [0])
    b += sum(o[2] for o in sc['ops'] if o[1] == 'block')
    return b + sum(p[1] for p in sc.get('preempt') or ())


def run(sim, sc):
    watch = W.Watch(sim)
    w = World20(sim, sc, start=False, managed=True)
    cl = w.cl
    watch.add('connected', cl.is_connected)
    watch.add('disconnected', lambda: not cl.is_connected())
    watch.add('running', cl.running)
    life = {'up': False, 'stopping': False, 'gen': 0}
    b = bound(w, sc)
    callers = {}
    for st in sc['callers']:
        callers.setdefault(st[0], []).append(st)
    callers = [Caller(w, k, steps, watch, life) for k, steps in sorted(callers.items())]
    started = False
    for i, (t0, t1, how, wait) in enumerate(sc['cycles']):
        if t0 > sim.now:
            sim.sleep(t0 - sim.now)
        try:
            cl.start(timeout=3 if wait else None)
        except RuntimeError:
            if sc['client']['auto_reconnect']:
                raise
            # could not connect and ended itself meanwhile
        life['gen'] += 1
        life['up'], life['stopping'] = True, False
        if wait and not cl.running() and not w.blocked and sc['client']['auto_reconnect']:
            sim.violation('start', 'start(timeout=3) returned but the client is not running')
        if not started:
            started = True
            for c in callers:
                c.thread.start()
        if t1 > sim.now:
            sim.sleep(t1 - sim.now)
        last = i == len(sc['cycles']) - 1
        if last:
            # let callers with a time limit finish a part of their work first
            pass
        life['stopping'] = True
        th = world.loop_thread(cl)
        t = sim.now
        if any(c.pending for c in callers):
            sim.probe('stopped with callers waiting')
        cl.stop(timeout=2 if wait else None)
        if how == 'twice':
            cl.stop()
        cl.join(timeout=b + 4)
        if th.is_alive():
            sim.violation('stop-hangs', 'the client thread is alive %.1f s after stop()' % (sim.now - t))
            return
        life['up'] = False
        w.t_down = sim.now
    # everything is stopped: every caller has to come back
    slack = max([c.slack for c in callers] + [0.01]) + sum(o[2] for o in sc['ops'] if o[1] == 'block')
    for c in callers:
        while c.thread.is_alive():
            p = c.pending
            c.thread.join(timeout=5)
            if c.thread.is_alive() and c.pending and c.pending is p and (
                    p[2] is None or sim.now > p[1] + p[2] + slack):
                sim.violation('caller-blocked', 'caller %d is still in %s, called at %.6f; the client '
                              'stopped at %.6f' % (c.k, p[0], p[1], w.t_down))
                return
    sim.sleep(0.5)
    for r in w.reqs.values():
        judge(sim, w, r, slack)
    for r in w.sends:
        judge_send(sim, w, r)


def judge_send(sim, w, r):
    what = '%s %s called at %.6f' % (r['what'], r['tag'], r['t'])
    got = [(c, q) for c in w.srv.conns for q in c.requests if q[2][3] and q[2][3][0] == r['tag'].encode()]
    if len(got) > 1:
        sim.violation('sent-twice', '%s: received %d times' % (what, len(got)))
        return
    if r['how'] == 'raise':
        if got and isinstance(r['v'], KatcpClientDisconnected):
            sim.violation('sent-though-refused', '%s raised %r, but was sent' % (what, r['v']))
        if isinstance(r['v'], CTimeout):
            if r['t1'] - r['t'] < 5 - 1e-6:
                sim.violation('early-timeout', '%s timed out after %.3f s' % (what, r['t1'] - r['t']))
            elif r['life']['up'] and not r['life']['stopping'] and r['calm'] and not stalled(w, r, r['t1']) and \
                    not any(o[1] in ('srv', 'down') for o in w.sc['ops']):
                sim.violation('send-hangs', '%s timed out' % what)
        elif r['life']['up'] and not r['life']['stopping'] and r['calm'] and w.sc['client']['auto_reconnect'] \
                and not isinstance(r['v'], (KatcpClientDisconnected, IOError)):
            sim.violation('send-raises', '%s raised %r' % (what, r['v']))
        sim.probe('sends refused')
        return
    if len(r['on']) == 1 and r['on'] == r['on1']:
        c = r['on'][0]
        if got and got[0][0] is not c:
            sim.violation('sent-elsewhere', '%s was sent on another connection' % what)
            return
        later = [q for q in c.requests if q[2][3] and q[2][3][0].decode() in w.reqs and
                 w.reqs[q[2][3][0].decode()]['g'] > r['g1']]
        if later and not got:
            sim.violation('send-lost', '%s returned, a later request was received but it was not' % what)
            return
        sim.probe('sends received' if got else 'sends lost with the connection')
    if got and r['what'] == 'request':
        mid = got[0][1][2][2]
        if mid is not None and r['v'] != mid.encode():      # without ids some internal id is returned
            sim.violation('request-mid', '%s returned %r, the message id sent was %r' % (what, r['v'], mid))


def stalled(w, r, t):
    """Whether the client's loop was kept from running during the request."""
    return any(a <= t and b >= r['t'] for a, b in w.blocked) or sum(p[1] for p in w.sc.get('preempt') or ()) > 0.5


def judge(sim, w, r, slack):
    what = 'request %s (%s) issued at %.6f with timeout %r' % (r['tag'], r['style'], r['t'], r['timeout'])
    if len(r['results']) != 1:
        sim.violation('completions', '%s completed %d times' % (what, len(r['results'])))
        return
    t, how, v, informs = r['results'][0]
    if how == 'cb' and r['timeout'] is not None and t > r['t'] + r['timeout'] + slack:
        sim.violation('late-callback', '%s: callback at %.6f' % (what, t))
    if how == 'raise':
        sim.probe('requests that raised')
        if r['life']['up'] and not r['life']['stopping'] and r['calm'] and not isinstance(v, Expected) and \
                w.sc['client']['auto_reconnect'] and not stalled(w, r, t):
            sim.violation('request-raises', '%s raised %r' % (what, v))
        return
    for m in [v] + informs:
        s = K.serial_of(m)
        if s is not None:
            rec = w.srv.lines.get(s)
            if rec is None or (rec['tag'] != r['tag'] and r['msg'].mid is not None):
                sim.violation('cross-talk', '%s got %s' % (what, m))
    s = K.serial_of(v)
    if s is None:
        sim.probe('requests failed by the client')
        return
    if r['style'] == 'check' or r['msg'].mid is None:
        return
    _c, want_informs, want_reply = K.expected_lines(w, r)
    if want_reply is None or want_reply['serial'] != s:
        sim.violation('wrong-reply', '%s got %s' % (what, v))
        return
    got = [K.serial_of(m) for m in informs]
    want = [x['serial'] for x in want_informs]
    if got != want:
        sim.violation('informs', '%s returned informs %r, sent %r' % (what, got, want))
    sim.probe('requests answered')
