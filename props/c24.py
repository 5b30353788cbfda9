"""C24: resource-client sensors keep their strategies and track the device."""
from props import reslib as L
from props import inspectlib as I
from tornado import gen as tgen
from katcp.resource_client import KATCPClientResource
from katcp.core import Sensor

ID = 'C24'
SHRINK = ['ops']
RULE = ('1-3 phases of strategy changes (through the resource, a filter or the sensor object, for '
        'known and unknown sensors, valid and invalid), drops, listeners set before and after '
        'connecting (also raising ones), sensor updates (single and several per inform), polls, '
        'sensors removed, re-added and redefined, failing and slow inspections, strategies '
        'rejected, answered late, not answered or cut by a disconnect, connection losses, '
        'partitions, downtime and stalls; after each phase faults stop and everything must settle; '
        'non-trivial: >=1 strategy in force checked and >=1 update heard')
REAL = ['katcp.resource_client', 'katcp.resource', 'katcp.inspecting_client', 'katcp.client',
        'katcp.core', 'tornado ioloop/iostream/gen']
STUB = ['TCP sockets and poller', 'clock', 'device (scripted)', 'random (seeded)']
RUNS = {'quick': 1500, 'thorough': 60000}
ASSUME = ('the device drops the strategies of a connection with it and of a sensor when it is removed '
          'or redefined, answers the requests of one connection in order and announces interface '
          'changes eventually; a strategy the device rejected last is not owed; updates of a sensor '
          'around its redefinition may be lost')

GOOD = ['event', 'auto', ('event',), 'period %s', ('period', '%s'), 'event-rate 0.5 %s',
        'differential %s', 'none', 'differential-rate 1 2 %s', ['event-rate', 1, '%s']]
BAD = ['bogus', 'period', 'event 3', 'event-rate 1']


def gen_strat(rng, n):
    if rng.random() < 0.08:
        return rng.choice(BAD)
    s = rng.choice(GOOD[:3]) if rng.random() < 0.5 else rng.choice(GOOD)
    num = '%d.%03d' % (1 + n // 1000, n % 1000)
    if isinstance(s, str):
        return s % num if '%' in s else s
    return [x % num if isinstance(x, str) and '%' in x else x for x in s]


def gen(rng, tier):
    st = rng.choice([20, 5, 2])
    hostile = rng.choice([0.1, 0.3, 0.6])
    spec = L.gen_spec(rng, 'dev', 5000, hostile=hostile, sync_timeout=st)
    mids = spec['greet'] in ('mi', 'mit')
    raw = rng.random() < 0.5        # the device lists these, so that users can make them directly
    if raw:
        spec['reqs']['sensor-sampling'] = ['Sampling.', 0]
        spec['reqs']['sensor-value'] = ['Readings.', 0]
    live_s, live_r = dict(spec['sensors']), dict(spec['reqs'])
    ops = []
    t0 = 0.0
    n = 0
    start = rng.choice([0.0, 0.0, 0.5])
    own = rng.choice(sorted(live_s)) if live_s and rng.random() < 0.3 else None
    if rng.random() < 0.15:
        spec['down'] = True
        ops.append([rng.choice([0.2, 3.0]), 'up', 0])
    nl = 0
    for phase in range(rng.choice([1, 1, 2, 3])):
        T = rng.choice([1.0, 10.0, 60.0])
        if phase:
            sb = L.gen_spec(rng, 'x', 1, mids_only=mids, hostile=hostile, sync_timeout=st)
            if mids:
                ops.append([t0, 'behav', sb['behav'], sb['sbehav']])
        ops += L.gen_faults(rng, T, t0, 0, live_s, live_r, rng.choice([0, 0.5, 1.0, 2.0]))
        for _ in range(rng.randint(0, 10 if tier == 'quick' else 25)):
            t = round(t0 + rng.choice([rng.uniform(0, T), 0, rng.uniform(0, 0.3)]), 6)
            nm = rng.choice(L.SN)
            k = rng.choice(['set', 'set', 'set', 'drop', 'listen', 'listen', 'poll', 'setall'])
            if own and rng.random() < 0.4:
                k = 'own'
            if k == 'set':
                n += 1
                via = rng.choice(['res', 'res', 'obj'])
                ops.append([t, 'set', n, via, nm, gen_strat(rng, n)])
                if rng.random() < 0.2:      # change of mind
                    n += 1
                    ops.append([round(t + rng.choice([0, 0.001, 0.5]), 6), 'set', n,
                                rng.choice(['res', 'obj']), nm, gen_strat(rng, n)])
            elif k == 'setall':
                n += 1
                ops.append([t, 'set', n, 'all', rng.choice(['', 's', '_', '^a']),
                            gen_strat(rng, n)])
            elif k == 'drop':
                ops.append([t, 'drop', rng.choice(['res', 'res', 'obj']), nm])
            elif k == 'listen':
                nl += 1
                ops.append([t, 'listen', nm, rng.choice([nl, nl, max(1, nl - 1)]),
                            rng.random() < 0.1])
            elif k == 'own':
                lid = rng.randrange(3)
                ops.append([t, 'reg', own, lid, rng.choice(['', '', 'raises', 'once', 'other'])])
                for _ in range(rng.choice([0, 1, 1, 2])):
                    ops.append([round(t + rng.choice([0.1, rng.uniform(0, T)]), 6),
                                rng.choice(['reg', 'unreg', 'unreg']), own,
                                rng.choice([lid, lid, rng.randrange(3)]), ''])
            else:
                ops.append([t, 'poll', nm, rng.choice(['value', 'reading', 'status'])])
        adds = [(o[0], e[1]) for o in ops if o[1] == 'chg' and o[0] >= t0 for e in o[3]
                if e[0] == 's+']
        for _ in range(rng.choice([0, 0, 1, 4]) if raw else 0):
            t, nm = round(t0 + rng.uniform(0, T), 6), rng.choice(L.SN)
            if adds and rng.random() < 0.7:     # not known to the client yet
                t, nm = rng.choice(adds)
                t = round(t + rng.choice([0, 0.001, 0.01, 0.2]), 6)
            ops.append([t, 'rawp', nm] if rng.random() < 0.5 else
                       [t, 'raws', nm, [rng.choice(['event', 'auto', 'event'])]])
        for _ in range(rng.choice([0, 2, rng.randint(0, 15)])):
            t = round(t0 + rng.uniform(0, T), 6)
            for _ in range(rng.choice([1, 1, 3])):
                if rng.random() < 0.15:
                    ops.append([t, 'updm', 0, [[rng.choice(L.SN), rng.choice(L.STATUSES),
                                                rng.randrange(10 ** 6)]
                                               for _ in range(rng.randint(2, 3))]])
                else:
                    ops.append([t, 'upd', 0, own if own and rng.random() < 0.7 else
                                rng.choice(L.SN), rng.choice(L.STATUSES), rng.randrange(10 ** 6)])
        end = max([o[0] for o in ops if o[0] >= t0] + [t0 + T])
        end = round(end + 0.01, 6)
        ops.append([end, 'calm', 0])
        ops.append([end, 'ann', 0, rng.choice(['interface-changed'] * 3 + ['device-changed'])])
        for k in range(rng.choice([0, 2, 5])):      # more updates once settled
            ops.append([round(end + 90 + 3 * st + rng.uniform(30, 60), 6), 'upd', 0,
                        rng.choice(L.SN), rng.choice(L.STATUSES), rng.randrange(10 ** 6)])
        t0 = end + 90 + 3 * st + 70
        ops.append([t0, 'check', phase])
        t0 = round(t0 + rng.choice([0.1, 5.0]), 6)
    if rng.random() < 0.25:
        ops += [[t0, 'down', 0], [t0, 'srv', 0, rng.choice(['reset', 'close', 'finish'])]]
        t0 = round(t0 + 90 + 3 * st, 6)
        ops.append([t0, 'gone'])
        t0 = round(t0 + 0.1, 6)
    order = {id(o): i for i, o in enumerate(ops)}
    ops.sort(key=lambda o: (o[0], order[id(o)]))
    from sim import world
    sc = {'devs': [spec], 'ops': ops, 'start': start, 'end': t0, 'net': world.gen_net(rng),
          'sync_timeout': st}
    if rng.random() < 0.3:
        sc['resync'] = rng.choice([0.2, 1.0])
    if rng.random() < 0.2:
        spec['greet_delay'] = rng.choice([0.01, 0.5])
    return sc


class OwnListener(object):
    """Registered at a sensor object, as a bound method that is looked up anew each time; all of
    them compare equal."""

    def __init__(self, w, obj, lid):
        self.w, self.obj, self.lid = w, obj, lid
        self.how = ''
        self.calls = []
        self.spans = []         # [registered, unregistered or None]

    def __eq__(self, other):
        return isinstance(other, OwnListener)

    def __hash__(self):
        return 1

    def reading(self, sensor, reading):
        if sensor is not self.obj:
            self.w.sim.violation('own-listener-sensor', 'listener called for another sensor')
        self.called((reading.received_timestamp, reading.timestamp, reading.status, reading.value))

    def plain(self, received_timestamp, timestamp, status, value):
        self.called((received_timestamp, timestamp, status, value))

    def called(self, what):
        sim = self.w.sim
        self.calls.append((sim.stamp(), sim.now, what))
        sim.log('own listener', self.lid, what)
        if self.how == 'once':
            self.unregister()
        elif self.how == 'other':
            for l in self.w.own_of(self.obj):
                if l.lid == (self.lid + 1) % 3:
                    l.unregister()
        elif self.how == 'raises':
            sim.fault('listener_raises')
            raise RuntimeError('listener failed')

    def method(self):
        return self.plain if self.lid == 1 else self.reading

    def register(self, how):
        self.how = how
        self.obj.register_listener(self.method(), reading=self.lid != 1)
        if not self.spans or self.spans[-1][1] is not None:
            self.spans.append([self.w.sim.stamp(), None])
        self.check(True)

    def unregister(self):
        self.obj.unregister_listener(self.method())
        if self.spans and self.spans[-1][1] is None:
            self.spans[-1][1] = self.w.sim.stamp()
        self.check(False)

    def check(self, want):
        if bool(self.obj.is_listener(self.method())) != want:
            self.w.sim.violation('own-listener-known', 'is_listener does not give %r after the '
                                 'listener was %sregistered' % (want, '' if want else 'un'))


class World(L.ResWorld):
    def own_of(self, o):
        return [l for k, l in self.own if k is o and l.lid is not None]

    def do_own(self, kind, name, lid, how):
        o = dict.get(self.res.sensor, L.esc(name))
        if o is None:
            return
        if not self.own_of(o):      # the first one, which stays and cannot fail, is the witness
            w = OwnListener(self, o, 0)
            w.lid = 'witness'
            self.own.append((o, w))
            w.register('')
        l = [x for x in self.own_of(o) if x.lid == lid]
        if not l:
            l = [OwnListener(self, o, lid)]
            self.own.append((o, l[0]))
        self.sim.probe('listeners of a sensor')
        if kind == 'reg':
            l[0].register(how)
        else:
            l[0].unregister()

    def build(self):
        self.res = KATCPClientResource(self.spec_of(self.devs[0]))
        self.configure(self.res)
        self.res.set_ioloop(self.loop)
        self.started = False
        self.sim.at(self.sc['start'], self.loop.add_callback, self.start)
        self.objs = {}
        self.raws = []
        self.own = []

    def start(self):
        self.started = True
        self.res.start()

    def _op(self, kind, *a):
        if kind == 'behav':
            self.devs[0].behav, self.devs[0].sbehav = list(a[0]), list(a[1])
            return
        if kind in ('reg', 'unreg'):
            self.sim.ops_done += 1
            self.sim.log('op', kind, a)
            self.loop.add_callback(self.do_own, kind, *a)
            return
        L.ResWorld._op(self, kind, *a)

    def want(self, name, strat, e):
        self.desired[L.esc(name)] = {'strat': strat, 't': self.sim.now, 'g': self.sim.stamp(),
                                     'by': e}

    @tgen.coroutine
    def do_set(self, n, via, name, strat):
        sim = self.sim
        if isinstance(strat, list):
            strat = tuple(strat)
        e = {'n': n, 'via': via, 'name': name, 'strat': strat, 't': sim.now, 'g': sim.stamp(),
             'end': None, 'res': None, 'exc': None, 'known': name in
             {o.name for o in dict.values(self.res.sensor)}}
        try:
            norm = L.normalise(strat)
        except Exception:
            norm = None
        e['norm'] = norm
        self.results.append(e)
        try:
            if via == 'res':
                self.want(name, norm, e)
                e['res'] = yield self.res.set_sampling_strategy(name, strat)
            elif via == 'obj':
                o = dict.get(self.res.sensor, L.esc(name))
                if o is None:
                    self.results.remove(e)
                    return
                self.want(name, norm, e)
                if isinstance(strat, str) and ' ' in strat and n % 2:
                    p = strat.split(' ')
                    e['res'] = yield o.set_strategy(p[0], ' '.join(p[1:]))
                else:
                    e['res'] = yield o.set_sampling_strategy(strat)
            else:
                g0 = e['g']
                names = {k: o.name for k, o in dict.items(self.res.sensor)}
                e['names'] = names
                e['res'] = yield self.res.set_sampling_strategies(name, strat)
                for k in e['res']:
                    d = self.desired.get(k)
                    if d is not None and d['g'] > g0:
                        d['strat'] = 'either'
                        d['g'] = sim.stamp()
                    else:
                        self.desired[k] = {'strat': norm, 't': sim.now, 'g': sim.stamp(),
                                           'by': e}
        except Exception as x:
            e['exc'] = repr(x)
        e['end'], e['gend'] = sim.now, sim.stamp()
        sim.log('set done', n, repr(e['res'])[:80], e['exc'])

    def do_drop(self, via, name):
        try:
            if via == 'res':
                self.res.drop_sampling_strategy(name)
            else:
                o = dict.get(self.res.sensor, L.esc(name))
                if o is None:
                    return
                o.drop_sampling_strategy()
        except Exception as x:
            self.sim.violation('drop-failed', 'drop of %s: %r' % (name, x))
            return
        busy = any(e['end'] is None and e['via'] == 'all' for e in self.results)
        self.desired[L.esc(name)] = {'strat': 'either' if busy else 'dropped', 't': self.sim.now,
                                     'g': self.sim.stamp(), 'by': None}

    @tgen.coroutine
    def do_listen(self, name, lid, raises):
        key = (name, lid)
        l = self.listeners.get(key)
        if l is None:
            def cb(sensor, reading, key=key):
                self.heard.append({'key': key, 't': self.sim.now, 'g': self.sim.stamp(),
                                   'name': sensor.name, 'ms': int(round(reading.timestamp * 1000)),
                                   'status': reading.status, 'value': reading.value,
                                   'cur': sensor.reading is reading})
                self.sim.log('heard', key, self.heard[-1]['ms'])
                if raises:
                    self.sim.fault('listener_raises')
                    raise RuntimeError('listener failed')
            l = self.listeners[key] = {'cb': cb, 't': self.sim.now, 'g': self.sim.stamp()}
        known = L.esc(name) in dict.keys(self.res.sensor)
        try:
            r = yield self.res.set_sensor_listener(name, l['cb'])
        except Exception as x:
            self.sim.violation('listen-failed', repr(x))
            return
        exp = {L.esc(name): l['cb']} if known else {}
        if r != exp:
            self.sim.violation('listen-result', 'set_sensor_listener for the %s sensor %s gave %s'
                               % ('known' if known else 'unknown', name, sorted(r)))

    @tgen.coroutine
    def do_poll(self, name, what='value'):
        o = dict.get(self.res.sensor, L.esc(name))
        if o is None:
            return
        dev, t0 = self.devs[0], self.sim.now
        now = dev.values[name][0] if name in dev.sens else None
        edits = len(self.edited.get(('dev', name), ()))
        alike = now is not None and not I.sensor_mismatch(o._sensor, name, dev.sens[name])
        try:
            got = yield getattr(o, 'get_' + what)()
        except Exception as x:
            self.sim.log('poll failed', name, repr(x)[:60])
            return
        self.sim.probe('polls answered')
        r = o.reading
        if got != (r if what == 'reading' else getattr(r, what)):
            self.sim.violation('poll-result', 'get_%s of %s gave %r, its reading is %r' %
                               (what, name, got, r))
            return
        if not alike or dev.greet not in ('mi', 'mit') or \
                edits != len(self.edited.get(('dev', name), ())):
            return      # redefined meanwhile, or late replies cannot be told apart
        ms = int(round(r.timestamp * 1000))
        ups = [u for u in dev.updates if u['name'] == name and u['ms'] == ms and
               u['status'] == r.status]
        if ms < now or not ups:
            self.sim.violation('poll-not-fresh', 'get_%s of %s, called at t=%.3f when the reading of '
                               'the device was of %.3f, gave %r' %
                               (what, name, t0, now / 1000.0, (r.timestamp, r.status, r.value)))
            return
        want = L.wire_to_py(ups[0]['stype'], ups[0]['value'])
        if want is not None and r.value != want:
            self.sim.violation('poll-not-fresh', 'get_%s of %s: %r, the device has %r' %
                               (what, name, r.value, want))

    @tgen.coroutine
    def do_rawp(self, name):
        """The user asks the device itself."""
        r = dict.get(self.res.req, 'sensor_value')
        if r is not None:
            self.sim.probe('readings asked by hand')
            yield self.guard(r(name))

    @tgen.coroutine
    def do_raws(self, name, strat):
        r = dict.get(self.res.req, 'sensor_sampling')
        if r is None:
            return
        self.sim.probe('strategies set by hand')
        e = {'name': name, 't': self.sim.now, 'end': None}
        self.raws.append(e)
        self.want(name, 'either', None)
        yield self.guard(r(name, *strat))
        e['end'] = self.sim.now
        self.want(name, 'either', None)

    @tgen.coroutine
    def guard(self, f):
        try:
            yield f
        except Exception as x:
            self.sim.log('by hand:', repr(x)[:80])

    def do_gone(self):
        """The device has been down for long."""
        res = self.res
        self.sim.probe('long downtimes')
        if res.state != 'disconnected' or res.is_connected() or res.synced:
            self.sim.violation('not-disconnected', 'the device has been down for long, but the '
                               'resource is %s (connected: %r, synced: %r)' %
                               (res.state, res.is_connected(), res.synced))

    def do_check(self, phase):
        sim, dev, res = self.sim, self.devs[0], self.res
        if res.state != 'synced' or not res.is_connected() or not res.synced:
            sim.violation('not-synced', 'phase %d: resource is %s' % (phase, res.state))
            return
        for what, have, truth in (('sensors', set(res.sensor), dev.sens),
                                  ('requests', set(res.req), dev.reqs)):
            if have != {L.esc(n) for n in truth}:
                sim.violation('wrong-model', 'phase %d: %s are %s, the device has %s' %
                              (phase, what, sorted(have), sorted(truth)))
                return
        c = dev.conns[-1]
        for n in sorted(dev.sens):
            d = self.desired.get(L.esc(n))
            o = dict.get(res.sensor, L.esc(n))
            bad = I.sensor_mismatch(o._sensor, n, dev.sens[n])
            if bad:
                sim.violation('stale-object', 'phase %d: sensor %s has %s' % (phase, n, bad))
                return
            have = dev.strats(c).get(n)
            if d is None or d['strat'] == 'either':
                continue
            mine = [r for r in dev.sets if r['conn'] is c and r['name'] == n]
            if d['strat'] == 'dropped':
                late = [r for r in dev.sets if r['name'] == n and r['conn'].g_open > d['g']]
                if late:
                    sim.violation('dropped-strategy-applied', 'phase %d: strategy of %s dropped at '
                                  't=%.3f, but set to %r at t=%.3f' % (phase, n, d['t'],
                                                                      late[0]['strat'],
                                                                      late[0]['t']))
                    return
                continue
            if d['by']['end'] is None:
                sim.violation('set-hangs', 'phase %d: setting %r on %s at t=%.3f not finished' %
                              (phase, d['by']['strat'], n, d['t']))
                return
            if d['strat'] is None or not L.valid_strategy(d['strat']):
                continue
            if mine and mine[-1]['ok'] is False:
                continue
            if have != d['strat'] and not (have is None and d['strat'] == ('none',)):
                sim.violation('strategy-not-in-force', 'phase %d: strategy of %s was set to %r via '
                              '%s at t=%.3f, but the device has %r (synced, %d sets on this '
                              'connection)' % (phase, n, d['strat'], d['by']['via'], d['t'], have,
                                               len(mine)))
                return
            sim.probe('strategies in force')
            if o.sampling_strategy != d['strat']:
                sim.violation('strategy-misreported', 'phase %d: strategy of %s is %r, reported %r' %
                              (phase, n, d['strat'], o.sampling_strategy))
                return
            if have and have[0] in ('event', 'auto'):
                ms, st, v = dev.values[n]
                r = o.reading
                want = L.wire_to_py(dev.sens[n][0], v)
                if int(round(r.timestamp * 1000)) != ms or r.status != st or \
                        (want is not None and r.value != want):
                    sim.violation('stale-reading', 'phase %d: %s reads %r, the device has %r' %
                                  (phase, n, (r.timestamp, r.status, r.value),
                                   (ms / 1000.0, st, v)))
                    return
                sim.probe('readings compared')


def run(sim, sc):
    w = World(sim, sc)
    w.run(sc['end'])
    w.sim.at(sc['end'] + 0.01, w.loop.add_callback, w.res.stop)
    w.run(sc['end'] + 5)
    judge(sim, w, sc)


def judge(sim, w, sc):
    dev = w.devs[0]
    # -- results of setting strategies
    for e in w.results:
        if e['end'] is None:
            sim.violation('set-hangs', 'setting %r on %s at t=%.3f never finished' %
                          (e['strat'], e['name'], e['t']))
            return
        if e['exc'] is not None:
            sim.violation('set-raised', 'setting %r via %s on %s: %s' %
                          (e['strat'], e['via'], e['name'], e['exc']))
            return
        if dev.greet not in ('mi', 'mit'):
            continue        # late replies cannot be told apart without message ids
        if e['via'] == 'obj':
            claims = {e['name']: e['res'][0]}
        elif e['via'] == 'res':
            claims = {e['name']: v == e['strat'] for v in e['res'].values()}
        else:
            claims = {e['names'].get(k): v == e['strat'] for k, v in e['res'].items()}
        for n, ok in claims.items():
            if n is None:
                continue
            mine = [r for r in dev.sets if r['name'] == n and r['strat'] == e['norm'] and
                    r['g'] > e['g'] and r['g'] < e['gend']]
            good = [r for r in mine if r['ok'] and r['g_done'] < e['gend'] and r['reply'] is not
                    None and r['conn'].t_delivered(r['reply']) is not None and
                    r['conn'].t_delivered(r['reply']) <= e['end']]
            if ok and not good:
                sim.violation('false-success', 'setting %r via %s on %s at t=%.3f reported success, '
                              'but the device did not accept it (%d attempts)' %
                              (e['strat'], e['via'], n, e['t'], len(mine)))
                return
            if not ok and len(mine) == 1 and good and e['end'] - e['t'] < 4.5 and not any(
                    c.ended and e['t'] <= c.ended[0] <= e['end'] for c in dev.conns) and \
                    e['via'] != 'all' and not stalled(w, e['t'], e['end']) and not any(
                        r['name'] == n and r['t'] <= e['end'] and
                        (r['end'] is None or r['end'] >= e['t']) for r in w.raws):
                sim.violation('false-failure', 'setting %r via %s on %s at t=%.3f reported failure, '
                              'but the device accepted it' % (e['strat'], e['via'], n, e['t']))
                return
            sim.probe('claimed ok' if ok else 'claimed failure')
    # -- listeners of sensor objects: as the witness, while registered
    for o, l in w.own:
        wit = w.own_of(o)[0]
        if l is wit:
            continue
        exp = [c for c in wit.calls if any(a < c[0] and (b is None or c[0] < b)
                                           for a, b in l.spans)]
        # one that another listener unregisters during an update may be called for it, or not
        opt = [c for c in wit.calls if any(b is not None and c[0] < b for a, b in l.spans)]
        got = [(t, what) for g, t, what in l.calls]
        for c in exp:
            n = (c[1], c[2])
            if n in got:
                continue
            if any(b is not None and a < c[0] < b and not any(
                    x[0] > c[0] and x[0] < b for x in wit.calls) for a, b in l.spans) and \
                    c in opt and cut_during(w, o, l, c):
                continue
            sim.violation('own-listener-missed', 'listener %r of sensor %s was not called for the '
                          'update %r at t=%.3f' % (l.lid, o.name, c[2], c[1]))
            return
        if len(set(got)) != len(got) and len(set((c[1], c[2]) for c in wit.calls)) == \
                len(wit.calls):
            sim.violation('own-listener-twice', 'listener %r of sensor %s was called twice for an '
                          'update: %r' % (l.lid, o.name, got))
            return
        ws = [(c[1], c[2]) for c in wit.calls]
        for (g, t, what) in l.calls:
            if (t, what) not in ws or not any(a < g and (b is None or g < b or same_update(
                    w, wit, l, t, what, b)) for a, b in l.spans):
                sim.violation('own-listener-late', 'listener %r of sensor %s was called with %r at '
                              't=%.3f, when not registered' % (l.lid, o.name, what, t))
                return
        if got != sorted(got, key=lambda x: ws.index(x)):
            sim.violation('own-listener-order', 'listener %r of sensor %s: %r, in order: %r' %
                          (l.lid, o.name, got, ws))
            return
        sim.probe('updates heard at the sensor', len(got))
    # -- listeners
    byms = {}
    for u in dev.updates:
        byms.setdefault((u['name'], u['ms']), []).append(u)
    for key, l in sorted(w.listeners.items()):
        name = key[0]
        got = [h for h in w.heard if h['key'] == key]
        for h in got:
            if not h['cur']:
                sim.violation('listener-reading', '%r: reading passed to the listener is not the '
                              'sensor\'s' % (key,))
                return
            if h['name'] != name:
                sim.violation('listener-wrong-sensor', '%r called for %s' % (key, h['name']))
                return
        exp = []
        for u in dev.updates:
            if u['name'] != name:
                continue
            td = u['conn'].t_delivered(u['rec'])
            if td is None:
                continue
            exp.append((td, u))
        exp.sort(key=lambda x: (x[0], x[1]['g']))
        seq = []
        for td, u in exp:
            c = u['conn']
            opt = td <= l['t'] + 0.01 + stalled(w, l['t'] - 5, td + 5)
            if c.ended is not None and c.ended[0] <= td + 0.05 + stalled(w, td - 5, td + 5):
                opt = True
            if any(td - 30 - 3 * sc['sync_timeout'] <= t <= td + 1 for t, g in
                   w.edited.get(('dev', name), ())) and u['poll']:
                opt = True
            if any(u['g'] < g and t <= td + 1 + stalled(w, td - 5, td + 5) for t, g in
                   w.edited.get(('dev', name), ())):
                opt = True
            # the client cannot know the new definition yet (an inspection of just this sensor, which
            # an update of an unknown one brings about, does not make the resource take it up)
            stale = False
            slack = 0.01 + stalled(w, td - 5, td + 5)
            g_edit = max([g for t, g in w.edited.get(('dev', name), ()) if g < u['g']] + [-1])
            if g_edit >= 0 and not any(
                    s.kind == 'sensor-list' and s.begun > g_edit and s.name is None and
                    in_time(dev, s, sc, td - slack) for s in dev.snaps):
                stale = True
            seq.append((td, u, opt or stale, stale))
        bad = align(seq, got)
        if bad is not None:
            i, j = bad
            calls = [(round(h['t'], 3), h['ms'], h['status'], h['value']) for h in got]
            ups = [(round(td, 3), u['ms'], u['status'], u['value'], 'optional' if o else '')
                   for td, u, o, st in seq]
            sim.violation('listener-calls', 'listener %r, set at t=%.3f: update no %d %r of the '
                          'device and call no %d %r do not match; calls before: %s' %
                          (key, l['t'], i, ups[i] if i < len(ups) else None, j,
                           calls[j] if j < len(calls) else None, calls[max(0, j - 4):j]))
            return
        sim.probe('updates heard', len(got))


def cut_during(w, o, l, c):
    """The listener was unregistered by another one, in update c."""
    return any(x.how == 'other' and (x.lid + 1) % 3 == l.lid and
               any((k[1], k[2]) == (c[1], c[2]) for k in x.calls)
               for x in w.own_of(o) if x.lid != 'witness')


def same_update(w, wit, l, t, what, b):
    """b, when it was unregistered, lies within this very update."""
    for i, c in enumerate(wit.calls):
        if (c[1], c[2]) == (t, what):
            nxt = wit.calls[i + 1][0] if i + 1 < len(wit.calls) else None
            return c[0] < b and (nxt is None or b < nxt)
    return False


def in_time(dev, s, sc, t):
    """Inspection answer s reached the client by time t, while still waited for."""
    td = s.conn.t_delivered(s.rec)
    if td is None or td > t:
        return False
    asked = [a[0] for a in dev.asked if a[1] < s.begun and a[2] is s.conn and a[3] == s.kind and
             a[4] == s.name]
    return bool(asked) and td - asked[-1] <= min(4, sc['sync_timeout']) - 1


def same(x, h):
    td, u, opt, stale = x
    if h['ms'] != u['ms'] or h['t'] < td - 1e-9 or h['status'] != u['status']:
        return False
    if stale:
        return True
    want = L.wire_to_py(u['stype'], u['value'])
    return want is None or h['value'] == want


def align(seq, got):
    """Calls are the updates in order, where optional updates may lack one; None or the
    furthest (update, call) reached."""
    reach = {0}             # numbers of calls that can be explained by the updates so far
    far = (0, 0)
    for i, x in enumerate(seq):
        nxt = set()
        for j in reach:
            if j < len(got) and same(x, got[j]):
                nxt.add(j + 1)
            if x[2]:
                nxt.add(j)
        if not nxt:
            return i, max(reach)
        reach = nxt
        far = (i + 1, max(reach))
    if len(got) in reach:
        return None
    return far


def stalled(w, a, b):
    return sum(d for t, d in w.stalls if t + d >= a and t <= b)
