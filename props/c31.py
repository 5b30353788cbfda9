"""C31: what is over leaves nothing behind in a server or client that lives on."""
import gc
import weakref
from sim import world
from sim.world import katcp
from katcp import Sensor
import tornado.iostream
from katcp import resource as kr, resource_client as RC
import tornado.concurrent
from tornado import gen as tgen
from props import serverlib as S, clientlib as K, c05, c14
from props import reslib as L

ID = 'C31'
SHRINK = ['ops']
RULE = ('server: 5-12 clients that subscribe to sensors, send all kinds of requests, are slow, fail or are '
        'disconnected by the device come and go while hooks take time or fail and sensors are removed; '
        'client: 12-40 requests of all styles over connections that are lost in all ways; resource: a '
        'resource client or container on a device that announces 30-60 interface changes, which remove, '
        'add and redefine sensors and requests, while strategies are set, sensors polled and waited for, '
        'requests made and connections lost; in all cases '
        'everything ends, 40 s pass, and the objects of what is over are looked for in memory')
REAL = ['katcp.server', 'katcp.sampling', 'katcp.client', 'katcp.inspecting_client', 'katcp.resource',
        'katcp.resource_client', 'katcp.core', 'tornado ioloop/iostream/gen']
STUB = ['TCP sockets and poller', 'clock', 'clients or server (scripted)']
RUNS = {'quick': 360, 'thorough': 12000}
ASSUME = ['a few objects may outlive their time (the last one handled, say): only what grows with the '
          'number of connections or requests is a leak']
LIMIT = 2


class Dev31(c05.Dev5):
    def sensors_cfg(self, dev):
        super(Dev31, self).sensors_cfg(dev)
        self.add_sensor(Sensor.integer('st', 'goes away', '', [-1000, 1000]))


class World31(c05.World5):
    def dev_set(self, v):
        for name in ('si', 'st'):
            if self.dev.has_sensor(name):
                self.dev.get_sensor(name).set_value(v)

    def dev_flip(self):
        """A sensor is removed, or is there again."""
        self.sim.fault('sensor_removed')
        if self.dev.has_sensor('st'):
            self.dev.remove_sensor('st')
        else:
            self.dev.add_sensor(Sensor.integer('st', 'goes away', '', [-1000, 1000]))


def gen(rng, tier):
    return rng.choice([gen_server, gen_server, gen_client, gen_client, gen_resource])(rng, tier)


def gen_server(rng, tier):
    ops = []
    span = rng.choice([0.3, 2.0])
    n = rng.randint(5, 12)
    sampling = rng.random() < 0.7
    kinds = [rng.choice(S.OK_KINDS + S.OWN_KINDS + S.FAIL_KINDS) for _ in range(3)]
    for ci in range(n):
        name = 'c%d' % ci
        t0 = round(rng.uniform(0, span), 6)
        ops.append([t0, name, 'connect'])
        t = t0
        if sampling:
            for _ in range(rng.randint(0, 3)):
                t += rng.choice([0, 0.01, 0.2])
                ops.append([round(t, 6), name, 'send', '?sensor-sampling[%d] %s %s\n' % (
                    rng.randint(1, 99), rng.choice(['si', 'st', 'sf', 'si']),
                    rng.choice(['event', 'auto', 'period 0.1', 'event-rate 0.05 0.3', 'differential 2', 'none',
                                'differential-rate 1 0.05 0.4']))])
        for line, _ in S.gen_requests(rng, name, rng.randint(0, 5), kinds):
            t += rng.choice([0, 0, 0.01, 0.2])
            ops.append([round(t, 6), name, 'send', line])
        if rng.random() < 0.15:
            ops.append([round(t, 6), name, 'noread'])
        if rng.random() < 0.15:
            ops.append([round(t, 6), '@', 'kick', ci])
        t += rng.choice([0, 0, 0.001, 0.3])
        how = rng.choice(['close', 'reset', 'finish', 'half', 'hold'])
        if how == 'hold':
            ops.append([round(t, 6), name, 'hold'])
            ops.append([round(t + rng.uniform(0, 2), 6), name, 'heal'])
            how = 'close'
        ops.append([round(t + rng.choice([0, 0.1]), 6), name, how])
    for _ in range(rng.randint(0, 8)):
        t = round(rng.uniform(0, span + 0.5), 6)
        ops.append(rng.choice([[t, '@', 'set', rng.randint(0, 9)], [t, '@', 'mass', rng.choice([0, 2000, 20000])],
                               [t, '@', 'flip'], [t, '@', 'stall', 0.1]]))
    ops.sort(key=lambda o: o[0])
    net = world.gen_net(rng)
    if rng.random() < 0.3:
        net['bufsize'] = rng.choice([1000, 20000])
    hooks = []
    if rng.random() < 0.35:
        hooks = [[rng.choice([0, 0, 0.01, 0.1]), rng.random() < 0.3, rng.choice([0, 0, 0.01, 0.3, 2.5])]
                 for _ in range(rng.randint(1, 4))]
    return {'mode': 'server', 'ops': ops, 'net': net, 'hooks': hooks}


def gen_client(rng, tier):
    T = rng.choice([0.5, 3.0])
    mids = rng.random() < 0.8
    ops = []
    for k in range(rng.randint(12, 40)):
        ops.append([round(rng.uniform(0.1, T), 6), 'req'] + K.gen_req(
            rng, 'q%d' % k, rng.choice([0.01, 0.3]), mids, hostile=rng.choice([0, 0.5]), use_mid=0.05))
    for _ in range(rng.choice([1, 2])):
        ops += c14.gen_faults(rng, T)
    ops.sort(key=lambda o: o[0])
    return {'mode': 'client', 'ops': ops, 'greet': 'mi' if mids else 'm', 'net': world.gen_net(rng),
            'client': {'timeout': rng.choice([5.0, 1.0, None]), 'auto_reconnect': True,
                       'delay': rng.choice([0.5, 0.05])}}


def gen_resource(rng, tier):
    spec = L.gen_spec(rng, 'dev', 5000, mids_only=True, hostile=rng.choice([0, 0, 0.3]), sync_timeout=5)
    live_s, live_r = dict(spec['sensors']), dict(spec['reqs'])
    T = rng.choice([15.0, 40.0])
    ops = []
    for _ in range(rng.randint(30, 60)):
        t = round(rng.uniform(0, T), 6)
        if rng.random() < 0.7:
            ops.append([t, 'chg', 0, L.gen_edits(rng, live_s, live_r)])
        ops.append([t, 'ann', 0])
    ops += L.gen_faults(rng, T, 0, 0, live_s, live_r, rng.choice([0, 1.0]))
    for _ in range(rng.choice([0, 10, 40])):
        t, nm = round(rng.uniform(0, T), 6), rng.choice(L.SN)
        k = rng.choice(['set', 'poll', 'wait', 'wait', 'call', 'look', 'state'])
        ops.append([t, k, nm] + ([rng.choice(['event', 'auto', 'none'])] if k == 'set' else
                                 [rng.choice([None, 0.1, 3.0])] if k == 'wait' else
                                 [rng.choice(L.RN)] if k == 'call' else
                                 [rng.choice([None, 0.1, 3.0])] if k == 'state' else []))
    for _ in range(rng.choice([0, 20])):
        ops.append([round(rng.uniform(0, T), 6), 'upd', 0, rng.choice(L.SN), rng.choice(L.STATUSES),
                    rng.randrange(10 ** 6)])
    ops.append([T + 1, 'calm', 0])
    ops.append([T + 1, 'ann', 0])
    if rng.random() < 0.5:      # waits, when nothing is replaced any more
        for nm in L.SN:
            ops.append([T + 15, 'set', nm, 'event'])
        for _ in range(rng.randint(5, 20)):
            ops.append([round(T + rng.uniform(20, 30), 6), 'wait', rng.choice(L.SN), rng.choice([None, 0.1, 3.0])])
    order = {id(o): i for i, o in enumerate(ops)}
    ops.sort(key=lambda o: (o[0], order[id(o)]))
    return {'mode': 'resource', 'devs': [spec], 'ops': ops, 'net': world.gen_net(rng), 'T': T,
            'sync_timeout': 5, 'cont': rng.random() < 0.4}


class ResWorld31(L.ResWorld):
    def build(self):
        w = self
        if self.sc['cont']:
            class Container(RC.KATCPClientResourceContainer):
                def client_resource_factory(self, res_spec, parent, logger):
                    res = RC.KATCPClientResourceContainer.client_resource_factory(
                        self, res_spec, parent, logger)
                    w.configure(res)
                    return res
            s = dict(self.spec_of(self.devs[0]))
            del s['name']
            self.top = Container({'name': 'cont', 'clients': {'dev': s}, 'groups': {'g': ['dev']}})
            self.top.set_ioloop(self.loop)
            self.res = self.top.children['dev']
        else:
            self.top = self.res = RC.KATCPClientResource(self.spec_of(self.devs[0]))
            self.configure(self.res)
            self.res.set_ioloop(self.loop)
        self.loop.add_callback(self.top.start)

    def do_look(self, *_):
        list(self.top.sensor), list(self.top.req)
        if self.sc['cont']:
            list(self.top.groups['g'].req)

    def do_set(self, name, strat):
        self.guard(self.res.set_sampling_strategy(name, strat))

    def do_poll(self, name):
        o = dict.get(self.res.sensor, L.esc(name))
        if o is not None:
            self.guard(o.get_reading())

    def do_call(self, name, req):
        r = dict.get(self.res.req, L.esc(req))
        if r is not None:
            self.guard(r(timeout=1.0))

    def do_wait(self, name, timeout):
        o = dict.get(self.res.sensor, L.esc(name))
        if o is None or o.sampling_strategy == ('none',):
            return

        def cond(reading):
            return timeout is None
        self.sim.mind('wait condition', cond)
        self.guard(o.wait(cond, timeout=3.0 if timeout is None else timeout))

    def do_state(self, name, timeout):
        top = self.top if len(name) % 2 else self.res
        self.guard(top.until_synced(timeout=timeout))
        self.guard(top.until_not_synced(timeout=timeout))

    @tgen.coroutine
    def guard(self, f):
        try:
            yield f
        except Exception:
            pass


class Cl31(K.Cl):
    def callback_request(self, msg, reply_cb=None, inform_cb=None, **kw):
        self.w.sim.mind('request callback', reply_cb)
        self.w.sim.mind('request message', msg)
        return super(Cl31, self).callback_request(msg, reply_cb=reply_cb, inform_cb=inform_cb, **kw)


class ClWorld31(K.ClientWorld):
    cls = Cl31


def watch(sim):
    """Take note of every object of the kinds that are to go away."""
    sim.minded = minded = []

    def mind(kind, obj):
        if obj is not None:
            minded.append((kind, weakref.ref(obj)))
    sim.mind = mind

    def hook(cls, kind):
        orig = cls.__init__

        def init(self, *a, **kw):
            mind(kind, self)
            orig(self, *a, **kw)
        cls.__init__ = init
        sim.cleanup.append(lambda: setattr(cls, '__init__', orig))
    hook(katcp.server.ClientConnection, 'connection')
    hook(katcp.server.ClientRequestConnection, 'request')
    hook(tornado.iostream.IOStream, 'stream')
    hook(katcp.sampling.SampleStrategy, 'strategy')
    hook(kr.KATCPSensor, 'resource sensor')
    hook(kr.KATCPRequest, 'resource request')
    sim.futures = []
    orig = tornado.concurrent.Future.__init__

    def init(self, *a, **kw):
        sim.futures.append(weakref.ref(self))
        orig(self, *a, **kw)
    if sim.mode == 'resource':
        tornado.concurrent.Future.__init__ = init
        sim.cleanup.append(lambda: setattr(tornado.concurrent.Future, '__init__', orig))


def run(sim, sc):
    sim.mode = sc['mode']
    watch(sim)
    last = max([o[0] for o in sc['ops']] + [0])
    if sc['mode'] == 'server':
        w = World31(sim, Dev31)
        w.dev.plan = sc['hooks']
        w.schedule(sc['ops'])
        w.run(last + 10)

        def bye():
            for c in list(w.clients.conns.values()):
                if c.eof is None and not c.closed_locally:
                    c.close()
        sim.at(last + 10, bye)
        w.run(last + 50)
        for name in ('calls', 'odd', 'hooks', 'connids', 'ready', 'failed'):
            getattr(w.dev, name).clear()
    elif sc['mode'] == 'resource':
        w = ResWorld31(sim, sc)
        w.run(sc['T'] + 60)
        sim.at(sc['T'] + 60, w.loop.add_callback, w.do_look)
        w.run(sc['T'] + 100)
        sim.live = {'resource sensor': len(w.devs[0].sens), 'resource request': len(w.devs[0].reqs)}
        if set(w.res.sensor) != {L.esc(n) for n in w.devs[0].sens}:
            sim.live = None
        w.results, w.heard = [], []
        for d in w.devs:
            d.__dict__.update((k, []) for k in ('asked', 'snaps', 'updates', 'sets'))
    else:
        w = ClWorld31(sim, sc)
        sim.at(last + 6, w._op, 'up')
        # connections end once more, so that requests that are never answered end too
        sim.at(last + 8, w._op, 'srv', 'close')
        w.run(last + 48)
        open_ = [r['tag'] for r in w.reqs.values() if not r['done'] and r['exc'] is None and
                 not r['opts'].get('noreply')]
        sim.log('open', len(open_))
        sim.open_requests = len(open_)
        w.events, w.reqs, w.plans = [], {}, {}
        w.srv.lines.clear()
    sim.keep = w


def settle(sim):
    """Collect garbage; -> the objects that are still there. A dict or set of this interpreter can
    go on referring to what was taken out of it, so those that do are built anew."""
    for _ in range(4):
        gc.collect()
        alive = [ref() for _, ref in sim.minded]
        alive = [o for o in alive if o is not None]
        if not alive:
            return
        for holder in gc.get_referrers(*alive):
            if type(holder) is dict:
                items = list(holder.items())
                holder[object()] = None     # clearing an empty one does nothing
                holder.clear()
                holder.update(items)
            elif type(holder) is set:
                items = list(holder)
                holder.add(object())
                holder.clear()
                holder.update(items)
        del alive[:]
        items = holder = None
    gc.collect()


def after(sim, sc):
    sim.logrecords.clear()      # hold tracebacks
    sim.trace.clear()
    was = gc.isenabled()
    settle(sim)
    if not was:
        gc.disable()
    total, left = {}, {}
    for kind, ref in sim.minded:
        total[kind] = total.get(kind, 0) + 1
        if ref() is not None:
            left[kind] = left.get(kind, 0) + 1
    allow = LIMIT
    live = {}
    if sc['mode'] == 'client':
        allow += sim.open_requests
    elif sc['mode'] == 'resource':
        if sim.live is None:
            return          # not settled, which C24 judges
        live = sim.live
        total['future'] = len(sim.futures)
        left['future'] = sum(f() is not None for f in sim.futures)
        live['future'] = 80     # the loops and states in use; there are thousands in a run
    for kind in sorted(total):
        sim.probe('%s objects that ended' % kind, total[kind])
        if left.get(kind, 0) > allow + live.get(kind, 0):
            sim.violation('left-behind', '%d of %d %s objects are still referred to, long after all of them '
                          'were done with' % (left[kind], total[kind], kind))
