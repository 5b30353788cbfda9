"""C29: requests of resources and groups, also through the thread-safe view, give each caller its own answer."""
import threading
from concurrent.futures import TimeoutError as CTimeout
from sim import world
from sim.world import fmt
from props import reslib as L
from props import inspectlib as I
from katcp import resource as R
from katcp import resource_client as RC
import katcp.ioloop_manager as km
from tornado import gen as tgen

ID = 'C29'
SHRINK = ['steps', 'loopsteps', 'ops', 'preempt']
RULE = ('1-4 threads and the loop itself use a container of 1-3 devices (by the thread-safe wrapper, its children, '
        'groups, requests and sensors): requests that are answered at once, late, never or with informs, readings, '
        'strategies, waits, looks at the names; devices that change their interface, close, reset, vanish or '
        'answer slowly; resources made inactive; preemption at any line of katcp')
REAL = ['katcp.resource_client', 'katcp.resource', 'katcp.inspecting_client', 'katcp.client', 'katcp.core',
        'katcp.ioloop_manager', 'katcp.object_proxies', 'concurrent.futures', 'tornado ioloop/iostream/gen',
        'asyncio event loop']
STUB = ['devices (scripted)', 'sockets, poller, clock', 'OS threads (baton scheduler)']
RUNS = {'quick': 1200, 'thorough': 40000}
ASSUME = ['threads are preempted between lines of katcp code (not inside a builtin call)',
          'the loop keeps running while threads use the wrapper']

CN = ['d0', 'm.x', 'k-2']
GN = ['g0', 'g_1']
RNAMES = ['r0', 'set-up', 'r2', 'clear', 'update']
SYNC = 20


def gen_step(rng, n, nd, groups):
    """[kind, n, ...] of one use of the resources."""
    k = rng.choice(['req', 'req', 'req', 'req', 'greq', 'val', 'val', 'view', 'view', 'wait', 'strat', 'sync',
                    'prop', 'gwait', 'list'])
    i = rng.randrange(nd)
    tmo = rng.choice([None, None, None, 0.3, 2.0])
    if k == 'req':
        return [k, n, i, rng.choice(['child', 'child', 'cont']), rng.choice(RNAMES),
                rng.choice([[], ['a'], ['b c', ''], ['fail'], ['x', '12']]), tmo]
    if k in ('greq', 'gwait') and not groups:
        k = 'view'
    if k == 'greq':
        return [k, n, rng.choice(sorted(groups)), rng.choice(RNAMES), rng.choice([[], ['a'], ['fail']]), tmo]
    if k == 'val':
        return [k, n, i, rng.choice(['child', 'cont']), rng.choice(L.SN),
                rng.choice(['get_value', 'get_reading', 'get_status'])]
    if k == 'wait':
        return [k, n, i, rng.choice(['child', 'cont']), 'cond', rng.randint(1, 3), rng.choice([0.2, 1.0, 3.0])]
    if k == 'gwait':
        return [k, n, rng.choice(sorted(groups)), 'cond', rng.randint(1, 3), rng.choice([0.2, 1.0, 3.0])]
    if k == 'strat':
        return [k, n, i, rng.choice(L.SN), rng.choice(['event', 'none', 'period 1.%03d' % (n % 1000), 'period'])]
    if k == 'sync':
        return [k, n, rng.choice([i, -1]), rng.choice([0.05, 1.0, 5.0])]
    if k == 'list':
        return [k, n, rng.choice([i, -1]), rng.choice(['', 's0', '_', 'zz'])]
    if k == 'prop':
        return [k, n, i]
    return ['view', n, rng.choice([i, -1, -1]), rng.choice(['req', 'req', 'sensor', 'sensors', 'children', 'groups',
                                                            'group'])]


def gen(rng, tier):
    nd = rng.choice([1, 2, 2, 3])
    faults = rng.random() < 0.6
    devs, ops = [], []
    for i in range(nd):
        s = L.gen_spec(rng, CN[i], 5000 + i, mids_only=True, hostile=0.15 if faults else 0.0,
                       sync_timeout=SYNC)
        s['first'] = True
        s['sensors']['cond'] = ['integer', 'A thing.', '', []]
        for r in RNAMES:
            if rng.random() < 0.4 and r not in s['reqs']:
                s['reqs'][r] = I.gen_request(rng)
        s['cbehav'] = [[rng.choice(['ok'] * 6 + (['drop', 'drop', 'cut'] if faults else [])),
                        rng.choice([0, 0, 0, 0.01, 0.2, 1.0, 7.0]), rng.choice([0, 0, 1, 3])]
                       for _ in range(rng.choice([0, 5, 20]))]
        if not faults:
            s['behav'] = []
        s['res'] = {'dummy_unknown_requests': True} if rng.random() < 0.1 else {}
        devs.append(s)
    groups = {}
    for g in GN[:rng.choice([0, 1, 2])]:
        groups[g] = [CN[i] for i in rng.sample(range(nd), rng.randint(1, nd))]
    T = rng.choice([2.0, 8.0])
    nid = 0
    steps, loopsteps = [], []
    nt = rng.choice([1, 2, 3, 4])
    # the waits need a strategy
    for i in range(nd):
        ops.append([0.05, 'lstrat', i, 'cond', 'event'])
        for _ in range(rng.choice([0, 1, 3])):
            ops.append([round(rng.uniform(0.1, T), 6), 'updv', i, rng.randint(0, 3)])
    for k in range(nt):
        for _ in range(rng.choice([1, 4, 12])):
            nid += 1
            steps.append([k, round(rng.choice([0, 0, 0.0005, rng.uniform(0, T / 4)]), 6)] +
                         gen_step(rng, nid, nd, groups))
    if faults:
        for i in range(nd):
            ops += L.gen_faults(rng, T, 0.0, i, dict(devs[i]['sensors']), dict(devs[i]['reqs']),
                                rng.choice([0, 0.5, 1.0]))
        for _ in range(rng.choice([0, 0, 1])):
            i = rng.choice([-1] + list(range(nd)))      # one, or the container with all
            t = round(rng.uniform(0, T), 6)
            ops.append([t, 'active', i, False])
            ops.append([round(t + rng.uniform(0, T), 6), 'active', rng.choice([i, -1]), True])
    for _ in range(rng.choice([0, 1, 4, 8])):
        nid += 1
        st = gen_step(rng, nid, nd, groups)
        while st[0] != 'req' and rng.random() < 0.5:
            st = gen_step(rng, nid, nd, groups)
        loopsteps.append([round(rng.uniform(0, T), 6)] + st)
    for _ in range(rng.choice([0, 0, 1])):
        ops.append([round(rng.uniform(0, T), 6), 'inloop', rng.choice(['req', 'sensor'])])
    end = max([o[0] for o in ops] + [T]) + 0.01
    for i in range(nd):
        ops.append([round(end, 6), 'calm', i])
        ops.append([round(end, 6), 'active', i, True])
        if faults:
            ops.append([round(end, 6), 'ann', i])
            ops.append([round(end, 6), 'up', i])
    t0 = round(end + (90 + 3 * SYNC + 70 if faults else 20), 6)
    late = []
    for i in range(nd):
        ops.append([t0 - 2, 'lstrat', i, 'cond', 'event'])
    for k in range(nt):
        for w in ('view', None, None):
            nid += 1
            st = gen_step(rng, nid, nd, groups)
            if w:
                st = ['view', nid, -1, rng.choice(['req', 'sensor', 'children', 'group'])]
            late.append([k, round(rng.choice([0, 0, 0.0005, rng.uniform(0, 0.5)]), 6)] + st)
    for i in range(nd):
        for _ in range(rng.choice([0, 1, 3])):
            ops.append([round(t0 + rng.uniform(0, 3), 6), 'updv', i, rng.randint(0, 3)])
    order = {id(o): i for i, o in enumerate(ops)}
    ops.sort(key=lambda o: (o[0], order[id(o)]))
    return {'devs': devs, 'groups': groups, 'ops': ops, 'steps': steps, 'late': late, 'loopsteps': loopsteps,
            't0': t0, 'faults': faults, 'end': t0 + 60, 'net': world.gen_net(rng), 'sync_timeout': SYNC,
            'preempt': world.gen_preempt(rng, rng.choice([0, 10, 40, 150]), hi=rng.choice([20, 200, 2000])),
            'preempt_files': rng.choice([None, ['resource_client.py'], ['resource_client.py', 'ioloop_manager.py',
                                                                       'object_proxies.py']]),
            'asyncio_loop': True}


class Device(L.RDevice):
    """Its plain requests take time, send informs, or stay unanswered."""
    def __init__(self, w, spec):
        self.cbehav = list(spec.get('cbehav') or [])
        self.edits = set()
        L.RDevice.__init__(self, w, spec)

    def other(self, c, p):
        kind = p[1]
        if kind not in self.reqs or kind in ('help', 'sensor-list'):
            return L.RDevice.other(self, c, p)
        args = [a.decode('utf-8') for a in p[3]]
        how, delay, nin = self.cbehav.pop(0) if self.cbehav else ('ok', 0, 0)
        rec = {'t': self.sim.now, 'g': self.sim.stamp(), 'conn': c, 'name': kind, 'args': args, 'how': how,
               'reply': None, 'informs': nin, 'delay': delay}
        self.calls.append(rec)
        if delay:
            self.sim.fault('slow_answer')
        self.sim.after(delay, self.finish, c, p, rec)

    def hint(self, name, reqs):
        return reqs.get(name, ['', 0])[1] if self.greet == 'mit' else None

    def edit(self, edits):
        self.edits.update(e[1] for e in edits)
        L.RDevice.edit(self, edits)

    def finish(self, c, p, rec):
        kind, mid, args = p[1], p[2], rec['args']
        if rec['how'] == 'cut':
            self.sim.fault('cut_instead_of_answer')
            self.conn_op(c, 'close')
            return
        if rec['how'] == 'drop':
            self.sim.fault('answer_dropped')
        else:
            for j in range(rec['informs']):
                c.send(fmt('#', kind, mid, str(j), args[0].encode('utf-8') if args else b''))
            rec['t_reply'] = self.sim.now
            rec['reply'] = c.send(fmt('!', kind, mid, 'fail' if 'fail' in args else 'ok',
                                      *[a.encode('utf-8') for a in args]))
        self._done(c)


class World(L.ResWorld):
    Device = Device

    def build(self):
        sc, w = self.sc, self
        self.ident = threading.get_ident()
        self.uses = []
        self.trouble = {d.name: [] for d in self.devs}      # times of faults that excuse a failed request
        self.slack = 0.05 + sum(p[1] for p in sc.get('preempt') or ()) + \
            sum(o[2] for o in sc['ops'] if o[1] == 'stall')
        self.netslack = self.slack + 60.0
        self.inactive = {}

        class Container(RC.KATCPClientResourceContainer):
            def client_resource_factory(self, res_spec, parent, logger):
                res = RC.KATCPClientResourceContainer.client_resource_factory(self, res_spec, parent, logger)
                w.configure(res)
                w.spy(res)
                return res
        clients = {}
        for d in self.devs:
            s = dict(self.spec_of(d))
            del s['name']
            clients[d.name] = s
        spec = {'name': 'cont', 'clients': clients}
        if sc['groups']:
            spec['groups'] = {g: list(v) for g, v in sc['groups'].items()}
        self.cont = Container(spec)
        self.cont.set_ioloop(self.loop)
        self.wrapper = km.IOLoopThreadWrapper(self.loop)
        self.safe = RC.ThreadSafeKATCPClientResourceWrapper(self.cont, self.wrapper)
        self.loop.add_callback(self.cont.start)
        self.threads = []
        for lst, t in ((sc['steps'], 0.0), (sc['late'], sc['t0'])):
            by = {}
            for s in lst:
                by.setdefault(s[0], []).append(s[1:])
            for k, st in sorted(by.items()):
                u = User(self, k, t, st)
                self.threads.append(u)
        for s in sc['loopsteps']:
            self.sim.at(s[0], self.loop.add_callback, self.loop_step, s[1:])

    def spy(self, res):
        """All requests leave from the loop's thread."""
        orig = res.inspecting_client_factory

        def factory(host, port, ioloop_set_to):
            ic = orig(host, port, ioloop_set_to)
            send = ic.katcp_client.send_message

            def send_message(msg, *a, **k):
                if threading.get_ident() != self.ident:
                    self.sim.violation('thread', 'request %s was sent from another thread' % msg.name)
                return send(msg, *a, **k)
            ic.katcp_client.send_message = send_message
            return ic
        res.inspecting_client_factory = factory

    def _op(self, kind, *a):
        if kind in ('srv', 'down', 'up'):
            self.trouble[self.devs[a[0]].name].append(self.sim.now)
        elif kind in ('stall', 'chg'):
            for l in self.trouble.values():
                l.append(self.sim.now)
        if kind == 'calm':
            self.devs[a[0]].cbehav = []
        if kind == 'updv':
            d = self.devs[a[0]]
            self.sim.ops_done += 1
            d.update('cond', 'nominal', str(a[1]))
            return
        L.ResWorld._op(self, kind, *a)

    def child(self, i):
        return self.cont.children[L.esc(self.devs[i].name)]

    def do_lstrat(self, i, name, strat):
        self.child(i).set_sampling_strategy(name, strat)

    def do_active(self, i, on):
        if not on:
            self.sim.fault('resource_inactive')
        for j in range(len(self.devs)) if i < 0 else [i]:
            self.inactive.setdefault(j, []).append((self.sim.now, not on))
        (self.child(i) if i >= 0 else self.cont).set_active(on)

    def do_inloop(self, what):
        """Wrapped calls are refused in the loop's own thread."""
        c = self.child(0)
        name = L.esc(self.devs[0].name)
        o = dict.get(c.req, 'r0') if what == 'req' else dict.get(c.sensor, 'cond')
        if o is None:
            return
        n = len(self.devs[0].calls)
        try:
            if what == 'req':
                v = RC.ThreadSafeKATCPClientResourceRequestWrapper(o, self.wrapper)('inloop')
            else:
                v = RC.ThreadSafeKATCPSensorWrapper(o, self.wrapper).get_value()
        except RuntimeError:
            self.sim.probe('calls in the loop refused')
            return
        self.sim.violation('in-loop', 'a wrapped call in the loop thread of %s returned %r (%d)' % (name, v, n))

    # -- use from the loop ----------------------------------------------
    @tgen.coroutine
    def loop_step(self, st):
        u = self.begin('loop', st)
        try:
            v = self.target(self.cont, st)
            if isinstance(v, Call):
                v = v.fn(*v.args, **v.kw)
                v = yield tgen.maybe_future(v)
            self.end(u, 'ok', v)
        except Exception as e:
            self.end(u, 'raise', e)

    def begin(self, key, st):
        self.sim.ops_done += 1
        u = {'key': key, 'st': st, 'id': st[1], 't0': self.sim.now, 'g0': self.sim.stamp(), 'how': None,
             'steady': self.sim.now >= self.sc['t0']}
        self.uses.append(u)
        return u

    def end(self, u, how, v):
        u['how'], u['value'], u['t1'] = how, v, self.sim.now
        self.sim.log('used', u['id'], u['st'][0], how, type(v).__name__)

    def target(self, top, st):
        """What step st does to the (wrapped or plain) container."""
        k = st[0]

        def at(view, key):
            # every other step uses names as attributes
            if st[1] % 2 and key in view and not hasattr(dict, key):
                return getattr(view, key)
            return view[key]
        if k == 'req':
            _, n, i, via, name, args, tmo = st
            nm = L.esc(self.devs[i].name)
            kw = {} if tmo is None else {'timeout': tmo}
            if via == 'cont':
                r = at(top.req, nm + '_' + L.esc(name))
            else:
                r = at(at(top.children, nm).req, L.esc(name))
            return Call(r, ['tok-%d' % n] + args, kw)
        if k == 'greq':
            _, n, g, name, args, tmo = st
            kw = {} if tmo is None else {'timeout': tmo}
            return Call(at(at(top.groups, L.esc(g)).req, L.esc(name)), ['tok-%d' % n] + args, kw)
        if k in ('val', 'strat'):
            if k == 'val':
                _, n, i, via, name, meth = st
            else:
                _, n, i, name, strat = st
                via = 'child'
            nm = L.esc(self.devs[i].name)
            if via == 'cont':
                o = at(top.sensor, nm + '_' + L.esc(name) if not name.startswith('agg_') else L.esc(name))
            else:
                o = at(at(top.children, nm).sensor, L.esc(name))
            if k == 'val':
                return Call(getattr(o, meth), [], {})
            return Call(o.set_sampling_strategy, [strat], {})
        if k == 'wait':
            _, n, i, via, name, val, tmo = st
            nm = L.esc(self.devs[i].name)
            if via == 'cont':
                return Call(at(top.sensor, nm + '_' + name).wait, [val, tmo], {})
            return Call(at(top.children, nm).wait, [name, val, tmo], {})
        if k == 'gwait':
            _, n, g, name, val, tmo = st
            return Call(at(top.groups, L.esc(g)).wait, [name, val, tmo], {})
        if k == 'sync':
            _, n, i, tmo = st
            o = top if i < 0 else at(top.children, L.esc(self.devs[i].name))
            return Call(o.until_synced, [], {'timeout': tmo})
        if k == 'list':
            _, n, i, flt = st
            o = top if i < 0 else top.children[L.esc(self.devs[i].name)]
            return Call(o.list_sensors, [flt], {})
        if k == 'prop':
            o = top.children[L.esc(self.devs[st[2]].name)]
            return (o.name, o.is_connected(), o.parent.name)
        _, n, i, what = st
        o = top if i < 0 else top.children[L.esc(self.devs[i].name)]
        if what == 'group':
            return {g: sorted(top.groups[L.esc(g)].req) for g in self.sc['groups']}
        if what in ('children', 'groups'):
            return sorted(getattr(top, what))
        if what == 'sensors' and i >= 0 and top is self.cont:
            what = 'sensor'             # the plain resource has no other name for it
        return sorted(getattr(o, what))


class Call(object):
    def __init__(self, fn, args, kw):
        self.fn, self.args, self.kw = fn, args, kw


class User(object):
    """A thread that uses the container through the wrapper."""
    def __init__(self, w, key, t, steps):
        self.w, self.key, self.t, self.steps = w, key, t, steps
        self.pending = None
        self.thread = threading.Thread(target=self.main, name='user%d-%d' % (key, int(t > 0)))

    def main(self):
        w, sim = self.w, self.w.sim
        sim.sleep(self.t - sim.now)
        for st in self.steps:
            if st[0]:
                sim.sleep(st[0])
            st = st[1:]
            u = w.begin(self.key, st)
            self.pending = u
            try:
                v = w.target(w.safe, st)
                if isinstance(v, Call):
                    v = v.fn(*v.args, **v.kw)
                if st[0] == 'strat':
                    nm = L.esc(w.devs[st[2]].name)
                    u['strategy'] = w.safe.children[nm].sensor[L.esc(st[3])].sampling_strategy
                w.end(u, 'ok', v)
            except Exception as e:
                import traceback
                u['tb'] = ' < '.join('%s:%d' % (f.filename.rsplit('/', 1)[-1], f.lineno)
                                     for f in reversed(traceback.extract_tb(e.__traceback__)))
                w.end(u, 'raise', e)
            self.pending = None


def run(sim, sc):
    w = World(sim, sc)
    for u in w.threads:
        u.thread.start()
    w.run(sc['end'])
    for u in w.threads:
        if u.pending is not None:
            sim.violation('hangs', 'step %r of thread %d begun at %.6f has not returned at %.6f' % (
                u.pending['st'], u.key, u.pending['t0'], sim.now))
            return
    w.cont.stop()
    w.run(sim.now + 1)
    judge(sim, w, sc)


def judge(sim, w, sc):
    by_token = {}
    for d in w.devs:
        for rec in d.calls:
            if rec['args'] and rec['args'][0].startswith('tok-'):
                by_token.setdefault(int(rec['args'][0][4:]), []).append((d, rec))
    for u in w.uses:
        if u['how'] is None:
            sim.violation('hangs', 'step %r begun at %.6f has not ended' % (u['st'], u['t0']))
            continue
        k = u['st'][0]
        got = by_token.pop(u['id'], [])
        {'req': judge_req, 'greq': judge_greq, 'val': judge_val, 'view': judge_view, 'wait': judge_wait,
         'gwait': judge_wait, 'strat': judge_strat, 'sync': judge_sync, 'prop': judge_prop,
         'list': judge_list}[k](sim, w, sc, u, got)
        sim.probe('uses judged')
        if u['steady']:
            sim.probe('uses while nothing changes')
    for n, l in by_token.items():
        sim.violation('unasked', 'request tok-%d was never asked for' % n)


def what(u):
    return 'step %r at %.6f' % (u['st'], u['t0'])


def troubled(w, d, t0, t1):
    return any(t0 - 200 <= t <= t1 for t in w.trouble[d.name]) if w.sc['faults'] else False


def missing_ok(sim, w, sc, u, present):
    """A lookup failed: fine if there was no such thing, or not yet."""
    if not isinstance(u['value'], (KeyError, AttributeError)):
        return False
    if u['steady'] and present:
        sim.violation('missing', '%s: %r although the device has it' % (what(u), u['value']))
    return True


def common_raise(sim, w, sc, u, tmo):
    v = u['value']
    if isinstance(v, CTimeout) and tmo is not None:
        if u['t1'] < u['t0'] + tmo - 1e-5:
            sim.violation('early-timeout', '%s timed out at %.6f' % (what(u), u['t1']))
        return True
    return False


def is_inactive(w, i, t0, t1):
    state, hit = False, False
    for t, off in w.inactive.get(i, ()):
        if t > t1:
            break
        if t >= t0:
            hit = hit or state or off
        state = off
    return hit or state


def surely_inactive(w, i, t0, t1):
    off = None
    for t, o in w.inactive.get(i, ()):
        if t < t0 - 0.001:
            off = o
        elif t <= t1:
            return False
    return off is True


def judge_one(sim, w, sc, u, d, name, args, tmo, reply, got):
    """One KATCPReply for a request to device d, given what the device received."""
    sent = ['tok-%d' % u['id']] + args
    if reply.reply.name == 'fake':
        if not d.spec['res'].get('dummy_unknown_requests') or [r for dd, r in got if dd is d]:
            sim.violation('wrong-reply', '%s: a dummy reply' % what(u))
        return
    ra = [a.decode('utf-8') for a in reply.reply.arguments]
    mine = [r for dd, r in got if dd is d]
    if len(mine) > 1:
        sim.violation('sent-twice', '%s: sent %d times' % (what(u), len(mine)))
        return
    if mine and (mine[0]['args'] != sent or mine[0]['name'] != name):
        sim.violation('arguments', '%s: the device received %s %r' % (what(u), mine[0]['name'], mine[0]['args']))
    if ra[1:] == sent and mine and mine[0]['reply'] is not None:
        if (ra[0] == 'ok') != ('fail' not in args) or reply.succeeded != (ra[0] == 'ok') or \
                bool(reply) != reply.succeeded:
            sim.violation('wrong-reply', '%s: reply %r, succeeded %r' % (what(u), ra, reply.succeeded))
        if reply.reply.name != name:
            sim.violation('wrong-reply', '%s: a reply to %s' % (what(u), reply.reply.name))
        inf = [[a.decode('utf-8') for a in m.arguments] for m in reply.informs]
        if inf != [[str(j), sent[0]] for j in range(mine[0]['informs'])]:
            sim.violation('wrong-informs', '%s: %d informs were sent, the reply has %r' % (
                what(u), mine[0]['informs'], inf))
        sim.probe('requests answered')
        return
    if reply.succeeded:
        sim.violation('wrong-reply', '%s: succeeded with %r, the device received %r' % (
            what(u), ra, [r['args'] for r in mine]))
        return
    if any('tok-' in a for a in ra) and 'tok-%d' % u['id'] not in ra:
        sim.violation('wrong-reply', "%s: failed with another's answer %r" % (what(u), ra))
    if len(ra) == 2 and 'timed out after' in ra[1]:
        sim.probe('requests timed out')
        lim = [tmo] if tmo is not None else sorted({d.hint(name, d.spec['reqs']) or 5.0,
                                                    d.hint(name, d.reqs) or 5.0})
        if tmo is None and name in d.edits:
            lim = [0, 1e9]
        if u['t1'] < u['t0'] + lim[0] - 1e-4:
            sim.violation('early-timeout', '%s: %r at %.6f' % (what(u), ra[1], u['t1']))
        if u['t1'] > u['t0'] + lim[-1] + w.slack and u['st'][0] == 'req':
            sim.violation('late', '%s: %r at %.6f' % (what(u), ra[1], u['t1']))
    # failed on its own: there has to be a reason
    sim.probe('requests failed')
    if mine and mine[0]['how'] != 'ok' or troubled(w, d, u['t0'], u['t1']):
        return
    if tmo is not None and u['t1'] >= u['t0'] + tmo - 1e-5 and (not mine or mine[0]['delay'] + w.netslack >= tmo):
        return
    hint = d.hint(name, d.reqs)
    if tmo is None and hint and u['t1'] >= u['t0'] + hint - 1e-5 and u['t1'] - u['t0'] < hint + w.slack:
        return
    if any(r['how'] != 'ok' or r['delay'] >= 0.2 for r in d.calls if u['t0'] - 120 <= r['t'] <= u['t1']):
        return                                  # the device was busy with another one
    if not u['steady'] and sc['faults']:
        return
    sim.violation('failed', '%s: failed with %r, the device received %r' % (
        what(u), ra, [(r['t'], r['how'], r['delay']) for r in mine]))


def judge_req(sim, w, sc, u, got):
    _, n, i, via, name, args, tmo = u['st']
    d = w.devs[i]
    if any(dd is not d for dd, r in got):
        sim.violation('wrong-device', '%s: received by %r' % (what(u), [dd.name for dd, r in got]))
    v = u['value']
    if surely_inactive(w, i, u['t0'], u['t1']) and (got or u['how'] == 'ok' and v.reply.name != 'fake'):
        sim.violation('inactive', '%s: sent although the resource is inactive' % what(u))
    if u['how'] == 'raise':
        if isinstance(v, R.KATCPResourceInactive):
            sim.probe('requests refused: inactive')
            if got:
                sim.violation('inactive', '%s: refused but sent' % what(u))
            if not is_inactive(w, i, u['t0'], u['t1']):
                sim.violation('inactive', '%s: refused as inactive' % what(u))
            return
        if missing_ok(sim, w, sc, u, name in d.reqs):
            return
        if common_raise(sim, w, sc, u, tmo):
            if len(got) > 1:
                sim.violation('sent-twice', '%s: sent %d times' % (what(u), len(got)))
            return
        sim.violation('raised', '%s: raised %r %s' % (what(u), v, u.get('tb', '')))
        return
    if not isinstance(v, R.KATCPReply):
        sim.violation('wrong-result', '%s: returned %r' % (what(u), type(v)))
        return
    if u['t1'] > u['t0'] + (tmo or 0) + w.slack and tmo is not None and u['key'] != 'loop':
        sim.violation('late', '%s: returned at %.6f' % (what(u), u['t1']))
    judge_one(sim, w, sc, u, d, name, args, tmo, v, got)


def judge_greq(sim, w, sc, u, got):
    _, n, g, name, args, tmo = u['st']
    members = [d for d in w.devs if d.name in sc['groups'][g]]
    for dd, r in got:
        if dd not in members:
            sim.violation('wrong-device', '%s: received by %s' % (what(u), dd.name))
    v = u['value']
    if u['how'] == 'raise':
        if isinstance(v, R.KATCPResourceInactive):
            if not any(is_inactive(w, w.devs.index(d), u['t0'], u['t1']) for d in members):
                sim.violation('inactive', '%s: refused as inactive' % what(u))
            return
        if missing_ok(sim, w, sc, u, any(name in d.reqs for d in members)) or common_raise(sim, w, sc, u, tmo):
            return
        sim.violation('raised', '%s: raised %r %s' % (what(u), v, u.get('tb', '')))
        return
    if isinstance(v, R.KATCPReply):
        if v.reply.name != 'fake' or got or \
                not any(d.spec['res'].get('dummy_unknown_requests') for d in members):
            sim.violation('wrong-reply', '%s: a dummy reply' % what(u))
        return
    if sorted(v) != sorted(d.name for d in members):
        sim.violation('group-results', '%s: results of %r' % (what(u), sorted(v)))
        return
    if bool(v) != all(bool(x) for x in v.values()) or v.succeeded != bool(v):
        sim.violation('group-results', '%s: succeeded %r although %r' % (
            what(u), v.succeeded, {k: bool(x) for k, x in v.items()}))
    for d in members:
        r = v[d.name]
        if r is None:
            if any(dd is d for dd, _ in got):
                sim.violation('group-results', '%s: no result of %s although it was asked' % (what(u), d.name))
            if u['steady'] and name in d.reqs:
                sim.violation('group-results', '%s: %s was not asked' % (what(u), d.name))
        else:
            judge_one(sim, w, sc, u, d, name, args, tmo, r, got)
    sim.probe('group requests')


def judge_val(sim, w, sc, u, got):
    _, n, i, via, name, meth = u['st']
    d = w.devs[i]
    v = u['value']
    if u['how'] == 'raise':
        if missing_ok(sim, w, sc, u, name in d.sens and not (via == 'cont' and name.startswith('agg_'))):
            return
        if isinstance(v, R.KATCPSensorError) and not u['steady']:
            return
        sim.violation('raised', '%s: raised %r %s' % (what(u), v, u.get('tb', '')))
        return
    if via == 'cont' and name.startswith('agg_'):
        return
    ups = [x for x in d.updates if x['name'] == name]
    if meth == 'get_status':
        if u['steady'] and v not in {x['status'] for x in ups}:
            sim.violation('wrong-value', '%s: status %r was never sent' % (what(u), v))
        return
    val = v.value if meth == 'get_reading' else v
    if u['steady']:
        polls = [x for x in ups if x['poll'] and u['t0'] <= x['t'] <= u['t1']]
        if not polls:
            sim.violation('no-poll', '%s: the device was not asked' % what(u))
            return
        want = [L.wire_to_py(x['stype'], x['value']) for x in polls + [y for y in ups if y['t'] >= polls[0]['t'] and
                                                                    y['t'] <= u['t1']]]
        if want[0] is not None and val not in want:
            sim.violation('wrong-value', '%s: %r, the device sent %r' % (what(u), val, want))
        if meth == 'get_reading' and v.status != polls[-1]['status'] and len(set(x['status'] for x in ups)) == 1:
            sim.violation('wrong-value', '%s: status %r' % (what(u), v.status))
        sim.probe('values read')


def judge_view(sim, w, sc, u, got):
    _, n, i, kind = u['st']
    v = u['value']
    if u['how'] == 'raise':
        sim.violation('raised', '%s: raised %r %s' % (what(u), v, u.get('tb', '')))
        return
    if kind == 'children':
        want = sorted(L.esc(d.name) for d in w.devs)
    elif kind == 'groups':
        want = sorted(L.esc(g) for g in sc['groups'])
    elif kind == 'group':
        want = {g: sorted({L.esc(r) for d in w.devs if d.name in m for r in d.reqs})
                for g, m in sc['groups'].items()}
        if not u['steady'] or any(d.spec['res'].get('dummy_unknown_requests') for d in w.devs):
            return
    else:
        if not u['steady']:
            return
        attr = 'reqs' if kind == 'req' else 'sens'
        if i >= 0:
            want = sorted(L.esc(x) for x in getattr(w.devs[i], attr))
        else:
            want = sorted({L.esc(x) if x.startswith('agg_') and attr == 'sens' else L.esc(d.name) + '_' + L.esc(x)
                           for d in w.devs for x in getattr(d, attr)})
        if any(d.spec['res'].get('dummy_unknown_requests') for d in w.devs):
            return
    if v != want:
        sim.violation('stale-view', '%s: shows %r, not %r' % (what(u), sorted(set(v) - set(want)) if
                                                              isinstance(v, list) else v,
                                                              sorted(set(want) - set(v)) if
                                                              isinstance(v, list) else want))
    sim.probe('views')


def judge_wait(sim, w, sc, u, got):
    v = u['value']
    tmo = u['st'][-1]
    if u['how'] == 'raise':
        if missing_ok(sim, w, sc, u, True):
            return
        if isinstance(v, (CTimeout, tgen.TimeoutError)):
            if u['t1'] < u['t0'] + tmo - 1e-5:
                sim.violation('early-timeout', '%s timed out at %.6f' % (what(u), u['t1']))
            return
        if isinstance(v, R.KATCPSensorError) and not u['steady']:
            return
        sim.violation('raised', '%s: raised %r %s' % (what(u), v, u.get('tb', '')))
        return
    if u['t1'] > u['t0'] + tmo + w.slack + 1:
        sim.violation('late', '%s: returned at %.6f' % (what(u), u['t1']))
    if u['st'][0] == 'wait' and v is not False:
        val = u['st'][5]
        d = w.devs[u['st'][2]]
        if not any(x['name'] == 'cond' and x['value'] == str(val) and x['t'] <= u['t1'] for x in d.updates):
            sim.violation('false-wait', '%s: ended with %r, the value was never sent' % (what(u), v))


def judge_strat(sim, w, sc, u, got):
    _, n, i, name, strat = u['st']
    d = w.devs[i]
    v = u['value']
    if u['how'] == 'raise':
        if missing_ok(sim, w, sc, u, name in d.sens):
            return
        if isinstance(v, (R.KATCPSensorError, CTimeout)):
            if u['steady'] and strat != 'period':
                sim.violation('raised', '%s: raised %r %s' % (what(u), v, u.get('tb', '')))
            return
        sim.violation('raised', '%s: raised %r %s' % (what(u), v, u.get('tb', '')))


def judge_sync(sim, w, sc, u, got):
    _, n, i, tmo = u['st']
    if u['how'] == 'raise':
        if not isinstance(u['value'], (CTimeout, tgen.TimeoutError)):
            sim.violation('raised', '%s: raised %r' % (what(u), u['value']))
        elif u['steady'] and tmo > w.slack:
            sim.violation('not-synced', '%s: timed out' % what(u))
        elif u['t1'] < u['t0'] + tmo - 1e-5:
            sim.violation('early-timeout', '%s timed out at %.6f' % (what(u), u['t1']))
    elif u['t1'] > u['t0'] + tmo + w.slack:
        sim.violation('late', '%s: returned at %.6f' % (what(u), u['t1']))


def judge_prop(sim, w, sc, u, got):
    d = w.devs[u['st'][2]]
    v = u['value']
    if u['how'] == 'raise':
        sim.violation('raised', '%s: raised %r %s' % (what(u), v, u.get('tb', '')))
    elif v[0] != d.name or v[2] != 'cont' or u['steady'] and v[1] is not True:
        sim.violation('wrong-property', '%s: %r' % (what(u), v))


def judge_list(sim, w, sc, u, got):
    _, n, i, flt = u['st']
    if u['how'] == 'raise':
        sim.violation('raised', '%s: raised %r' % (what(u), u['value']))
        return
    if not u['steady']:
        return
    names = sorted(x.name for x in u['value'])
    if i >= 0:
        want = sorted(x for x in w.devs[i].sens if flt in L.esc(x))
        if names != want and len(names) != len(want):
            sim.violation('list', '%s: %r, not %r' % (what(u), names, want))
