"""C25: the container's and groups' views are the union of the children's."""
from props import reslib as L
from props import inspectlib as I
from tornado import gen as tgen
import katcp.resource as R
from katcp.resource_client import KATCPClientResource, KATCPClientResourceContainer

ID = 'C25'
SHRINK = ['ops']
RULE = ('2-4 children (names with - and .; controlled or not, with allowed and excluded requests, '
        'dummies), 0-3 groups at start; children and groups added later, looks at requests, sensors '
        'and group requests in all orders (dense after changes), group requests (also for requests '
        'only some members have), group waits (quorum, timeouts and grace periods incl. 0 and None), '
        'strategies and listeners set through container and groups, interface changes, connection '
        'losses, partitions, downtime, failing inspections and stalls on every device; non-trivial: '
        '>=1 non-empty view compared after a change')
REAL = ['katcp.resource_client', 'katcp.resource', 'katcp.inspecting_client', 'katcp.client',
        'katcp.core', 'tornado ioloop/iostream/gen']
STUB = ['TCP sockets and poller', 'clock', 'devices (scripted)', 'random (seeded)']
RUNS = {'quick': 1200, 'thorough': 50000}
ASSUME = ('prefixed names of different children do not collide, except aggregate sensors, where the '
          'view has one of them; children are added under new names; conditions held only around the '
          'start of the grace period, and waits on sensors redefined meanwhile, are not judged; '
          'results of requests are judged with message ids')

CN = ['m0', 'ant-m0', 'x.y', 'sub_z']
GN = ['all', 'my-group', 'g.2', 'g3', 'g4']
COND = ['s0', 'agg_x', 'a.b']


def gen(rng, tier):
    st = rng.choice([20, 5, 2])
    hostile = rng.choice([0.0, 0.1, 0.3])
    n = rng.randint(2, 4)
    devs, live = [], []
    later = []
    ops = []
    for i in range(n):
        s = L.gen_spec(rng, CN[i], 5000 + i, hostile=hostile, sync_timeout=st)
        s['first'] = True
        for k in COND:                      # something to wait for
            if rng.random() < 0.6:
                s['sensors'][k] = ['integer', 'A thing.', '', []]
        res = {}
        k = rng.choice(['on', 'on', 'on', 'off', 'allow', 'excl', 'dummy'])
        if k in ('off', 'allow'):
            res['controlled'] = False
        if k == 'allow':
            res['always_allowed_requests'] = rng.sample(L.RN + ['help'], 2)
        if k == 'excl':
            res['always_excluded_requests'] = rng.sample(L.RN + ['help'], 2)
        if k == 'dummy':
            res['dummy_unknown_requests'] = True
        if rng.random() < 0.3:
            res['auto_reconnect_delay'] = rng.choice([0.05, 3.0])
        s['res'] = res
        if rng.random() < 0.15:
            s['down'] = True
            ops.append([rng.choice([0.2, 3.0]), 'up', i])
        devs.append(s)
        live.append((dict(s['sensors']), dict(s['reqs'])))
        if i >= 1 and rng.random() < 0.25:
            later.append(i)
    first = [i for i in range(n) if i not in later]
    groups = {}
    for g in rng.sample(GN[:4], rng.choice([0, 1, 2, 3])):
        groups[g] = [CN[i] for i in rng.sample(first, rng.randint(1, len(first)))]
    T = rng.choice([2.0, 10.0, 40.0])
    t0 = 0.0
    for i in range(n):
        f = L.gen_faults(rng, T, t0, i, live[i][0], live[i][1], rng.choice([0, 0.5, 1.0]))
        ops += f
    for i in later:
        ops.append([round(rng.uniform(0.01, T), 6), 'addc', i])
    looks = [0.0, 0.02, 0.1]
    for o in list(ops):
        if o[1] in ('chg', 'ann', 'addc', 'up') and rng.random() < 0.6:
            looks.append(o[0])
    for t in looks:
        step = rng.choice([0.0004, 0.002, 0.01, 0.05])
        for k in range(rng.randint(2, 15)):
            ops.append([round(t + k * step, 6), 'look', rng.choice(['req', 'sensor', 'sensors',
                                                                    'group', 'list'])])
    for _ in range(rng.choice([0, 3, 10])):
        ops.append([round(rng.uniform(0, T), 6), 'look',
                    rng.choice(['req', 'sensor', 'group', 'list'])])
    for k in range(rng.choice([0, 0, 1, 2])):
        ops.append([round(rng.uniform(0, T), 6), 'addg', rng.choice(GN),
                    [CN[i] for i in rng.sample(first, rng.randint(1, len(first)))]])
    N = 0
    for _ in range(rng.choice([0, 2, rng.randint(0, 8)])):
        N += 1
        ops.append([round(rng.uniform(0.05, T), 6), 'greq', N, rng.choice(GN),
                    L.esc(rng.choice(L.RN + ['r0', 'clear', 'items', 'pop'])),
                    rng.choice([[], [], [], ['fail']])])
    if rng.random() < 0.8:
        t = round(rng.uniform(0.0, T / 4), 6)
        for k in COND:
            ops.append([t, 'strat', k])     # strategies so that waits work
    for _ in range(rng.choice([0, 1, 2, rng.randint(0, 8)])):
        N += 1
        t = round(rng.uniform(0.1, T + 2), 6)
        name = rng.choice(COND)
        target = rng.randint(1, 3)
        timeout = rng.choice([0, 0.2, 1.0, 3.0, 3.0, 5.0, None])
        ops.append([t, 'gwait', N, rng.choice(GN), name, target, timeout,
                    rng.choice([None, None, 1, 2, 0.5, 1.0, 3, 0.34]),
                    rng.choice([0, 0.5, 1.0, 1.0, 5.0, None])])
        for i in range(n):
            for _ in range(rng.choice([0, 1, 2, 4])):
                ops.append([round(t + rng.choice([0, 0.01, rng.uniform(0, 4)]), 6), 'updv', i, name,
                            rng.choice([target, target, 0])])
    for _ in range(rng.choice([0, 1, rng.randint(0, 5)])):
        N += 1
        k = rng.choice(['cset', 'csets', 'gset', 'gsets', 'clis'])
        s = '%s 1.%03d' % (rng.choice(['period', 'differential']), N)
        s = rng.choice([s, s, 'event', 'event', 'period'])
        t = round(rng.uniform(0.05, T), 6)
        if k == 'cset':
            nm = rng.choice(L.SN)
            full = L.esc(nm) if nm.startswith('agg_') else \
                L.esc(rng.choice(CN[:n])) + '_' + L.esc(nm)
            ops.append([t, 'cset', N, 'cset', full, s])
        elif k == 'clis':
            ops.append([t, 'clis', N, L.esc(rng.choice(CN[:n])) + '_' + L.esc(rng.choice(L.SN[:3]))])
        elif k == 'csets':
            ops.append([t, 'cset', N, 'csets', rng.choice(['', 's0$', '_', '^x', 'agg']), s])
        elif k == 'gset':
            ops.append([t, 'gset', N, 'gset', rng.choice(GN), rng.choice(L.SN), s])
        else:
            ops.append([t, 'gset', N, 'gsets', rng.choice(GN), rng.choice(['', 's', '_']), s])
    end = max(o[0] for o in ops) + 0.01
    for i in range(n):
        ops.append([round(end, 6), 'calm', i])
        ops.append([round(end, 6), 'ann', i])
        ops.append([round(end, 6), 'up', i])
    t0 = round(end + 90 + 3 * st + 70, 6)
    ops.append([t0, 'check'])
    for k in range(rng.choice([1, 3])):
        N += 1
        ops.append([round(t0 + 0.5 + k * 0.4, 6), 'greq', N, rng.choice(GN),
                    L.esc(rng.choice(L.RN)), rng.choice([[], [], ['fail']])])
    for x in ('req', 'sensor', 'group'):
        ops.append([round(t0 + rng.uniform(0, 2), 6), 'look', x])
    order = {id(o): i for i, o in enumerate(ops)}
    ops.sort(key=lambda o: (o[0], order[id(o)]))
    from sim import world
    sc = {'devs': devs, 'first': first, 'groups': groups, 'ops': ops, 'end': t0 + 20,
          'net': world.gen_net(rng), 'sync_timeout': st,
          'start': rng.choice([0.0, 0.0, 0.3])}
    if rng.random() < 0.3:
        sc['resync'] = rng.choice([0.2, 1.0])
    if rng.random() < 0.15:         # stopped in the middle of it all
        t = max(sc['start'] + 0.001, round(rng.uniform(0, T), 6))
        sc['ops'] = [o for o in ops if o[0] < t]
        sc['end'] = t
        sc['early'] = True
    return sc


class World(L.ResWorld):
    def build(self):
        sc, w = self.sc, self

        class Container(KATCPClientResourceContainer):
            def client_resource_factory(self, res_spec, parent, logger):
                res = KATCPClientResourceContainer.client_resource_factory(
                    self, res_spec, parent, logger)
                w.configure(res)
                w.spy(res)
                return res

        clients = {}
        for i in sc['first']:
            s = dict(self.spec_of(self.devs[i]))
            del s['name']
            clients[CN[i]] = s
        spec = {'name': 'cont', 'clients': clients}
        if sc['groups']:
            spec['groups'] = {g: list(v) for g, v in sc['groups'].items()}
        self.members = {g: list(v) for g, v in sc['groups'].items()}
        self.seen = []              # spied updates
        self.held = []              # group objects held on to
        self.cont = Container(spec)
        self.cont.set_ioloop(self.loop)
        for g in sorted(self.members):
            self.held.append((g, list(self.members[g]), self.cont.groups[L.esc(g)]))
        self.sim.at(sc['start'], self.loop.add_callback, self.cont.start)
        self.waits, self.greqs, self.claims, self.ended = [], [], [], {}
        self.lis = []

    def dev(self, name):
        return [d for d in self.devs if d.name == name][0]

    def spy(self, res):
        for n in COND:
            def cb(sensor, reading, r=res.name, n=n):
                self.seen.append((self.sim.now, self.sim.stamp(), r, n, reading.value))
            res.set_sensor_listener(n, cb)

    # -- views -----------------------------------------------------------
    def children(self):
        return dict.items(self.cont.children)

    def look_bad(self, what):
        c = self.cont
        exp, aggs = {}, {}
        attr = 'sensor' if what == 'sensors' else what
        for name, child in self.children():
            for n, o in dict.items(getattr(child, attr)):
                if isinstance(o, R.KATCPDummyRequest):
                    continue
                if n.startswith('agg_'):
                    aggs.setdefault(n, []).append(o)
                else:
                    exp[name + '_' + n] = o
        got = {n: o for n, o in dict.items(getattr(c, what))
               if not isinstance(o, R.KATCPDummyRequest)}
        return self.differ(got, exp, aggs)

    def differ(self, got, exp, aggs):
        miss = sorted((set(exp) | set(aggs)) - set(got))
        extra = sorted(set(got) - set(exp) - set(aggs))
        if miss or extra:
            return 'lacks %s, has too much %s' % (miss, extra)
        for n in sorted(got):
            if n in exp and got[n] is not exp[n] or n in aggs and not any(
                    got[n] is o for o in aggs[n]):
                return 'has an old object for %s' % n
        return None

    def group_bad(self, names, group):
        if tuple(c.name for c in group.clients) != tuple(names):
            return 'members %s instead of %s' % ([c.name for c in group.clients], names)
        exp = set()
        dummy = False
        for n in names:
            child = self.cont.children[L.esc(n)]
            dummy = dummy or child.dummy_unknown_requests
            exp |= {k for k, o in dict.items(child.req) if not isinstance(o, R.KATCPDummyRequest)}
        got = {k for k, o in dict.items(group.req) if not isinstance(o, R.KATCPDummyRequest)}
        if dummy:       # requests made up on access stay
            got = {k for k in got if k in exp or not any(
                isinstance(dict.get(self.cont.children[L.esc(n)].req, k), R.KATCPDummyRequest)
                for n in names)}
        if got != exp:
            return 'requests %s instead of %s' % (sorted(got), sorted(exp))
        return None

    @tgen.coroutine
    def do_look(self, what):
        sim = self.sim
        if what == 'group':
            for g, names, obj in self.held:
                cur = dict.get(self.cont.groups, L.esc(g))
                for o in ([obj, cur] if self.members.get(g) == names else [obj]):
                    bad = self.group_bad(names, o) if o is not None else 'gone'
                    if bad:
                        sim.violation('group-view', 'group %s: %s' % (g, bad))
            for g in self.members:
                bad = self.group_bad(self.members[g], self.cont.groups[L.esc(g)])
                if bad:
                    sim.violation('group-view', 'group %s: %s' % (g, bad))
            sim.probe('group views')
            return
        if what == 'list':
            l = yield self.cont.list_sensors()
            # no suspension for list_sensors without refresh
            exp, aggs = {}, {}
            for name, child in self.children():
                for n, o in dict.items(child.sensor):
                    if n.startswith('agg_'):
                        aggs.setdefault(n, []).append(o)
                    else:
                        exp[name + '_' + n] = o
            bad = self.differ({x.python_identifier: x.object for x in l}, exp, aggs)
            if not bad:
                for x in l:
                    o = x.object
                    nm = o.name if o.name.startswith('agg_') else o.parent_name + '.' + o.name
                    if x.name != nm:
                        bad = 'lists %s as %s' % (nm, x.name)
            if not bad:
                bad = yield self.lists_bad({x.python_identifier: x.object for x in l})
        else:
            bad = self.look_bad(what)
        if bad:
            sim.violation('view', 'container.%s %s' % (what, bad))
        sim.probe('views')

    @tgen.coroutine
    def lists_bad(self, every):
        # the same list narrowed down, on the container and on its children
        for o, have in [(self.cont, every)] + [
                (c, dict(dict.items(c.sensor))) for _, c in self.children()]:
            for kw, keep in (
                    ({'strategy': True}, lambda n, x: x.sampling_strategy[0] != 'none'),
                    ({'filter': 's0|agg'}, lambda n, x: 's0' in n or 'agg' in n),
                    ({'filter': '1$', 'strategy': True}, lambda n, x: n.endswith('1') and
                     x.sampling_strategy[0] != 'none'),
                    ({'filter': '[-.]', 'use_python_identifiers': False},
                     lambda n, x: '-' in x.name or '.' in x.name),
                    ({'status': 'nominal'}, lambda n, x: x.reading.status == 'nominal')):
                l = yield o.list_sensors(**kw)
                got = sorted(x.python_identifier for x in l)
                exp = sorted(n for n, x in have.items() if keep(n, x))
                if got != exp:
                    raise tgen.Return('%s lists %s for %r, not %s' % (o.name, got, sorted(kw.items()),
                                                                      exp))
                if kw.get('strategy') and exp and len(exp) < len(have):
                    self.sim.probe('lists of sampled sensors')
                l2 = yield o.list_sensors(tuple=True, **kw)
                if [x[0] for x in l2] != [x.name for x in l] or any(
                        (a[1], a[2], a[6], a[7]) != (b.reading.value, b.reading.timestamp,
                                                     b.reading.status, b.object.sampling_strategy)
                        for a, b in zip(l2, l)):
                    raise tgen.Return('%s lists %r as tuples %r' % (o.name, [x.name for x in l], l2))

    def do_addc(self, i):
        s = dict(self.spec_of(self.devs[i]))
        del s['name']
        r = self.cont.add_child_resource_client(CN[i], s)
        if r is not self.cont.children[L.esc(CN[i])]:
            self.sim.violation('added-child', 'not among the children')

    def do_addg(self, g, names):
        try:
            self.cont.add_group(g, list(names))
        except Exception as e:
            self.sim.violation('add-group', repr(e))
            return
        if g in self.members:
            self.held = [h for h in self.held if h[0] != g]
        self.members[g] = list(names)
        self.held.append((g, list(names), self.cont.groups[L.esc(g)]))

    # -- group requests ----------------------------------------------------
    @tgen.coroutine
    def do_greq(self, n, g, name, args):
        sim = self.sim
        if g not in self.members:
            return
        names = self.members[g]
        group = self.cont.groups[L.esc(g)]
        has = {}
        for m in names:
            r = self.cont.children[L.esc(m)]
            o = dict.get(r.req, name)
            has[m] = 'dummy' if isinstance(o, R.KATCPDummyRequest) or \
                o is None and r.dummy_unknown_requests else o is not None
        if name not in group.req:
            if any(v is True for v in has.values()):
                sim.violation('group-view', 'group %s lacks %s' % (g, name))
            if not any(v is True for v in has.values()):
                return
        e = {'n': n, 'g': g, 'name': name, 'has': has, 't': sim.now, 'st': sim.stamp(), 'end': None,
             'res': None, 'exc': None, 'args': args}
        if isinstance(dict.get(group.req, name), R.KATCPDummyRequest):
            return
        self.greqs.append(e)
        before = {m: set(dict.keys(self.cont.children[L.esc(m)].req)) for m in names}
        try:
            f = dict.__getitem__(group.req, name)('token-%d' % n, *args)
            after = {m: set(dict.keys(self.cont.children[L.esc(m)].req)) for m in names}
            for m in names:
                if before[m] - after[m]:
                    sim.violation('requests-vanish', 'group request %s of %s removed requests %s '
                                  'of %s' % (name, g, sorted(before[m] - after[m]), m))
            e['res'] = yield f
        except Exception as x:
            e['exc'] = repr(x)
        e['end'] = sim.now

    # -- group waits ---------------------------------------------------------
    def do_strat(self, name):
        for _, child in self.children():
            child.set_sampling_strategy(name, 'event')

    def do_updv(self, *a):
        pass

    @tgen.coroutine
    def do_gwait(self, n, g, name, target, timeout, quorum, grace):
        sim = self.sim
        if g not in self.members:
            return
        names = self.members[g]
        group = self.cont.groups[L.esc(g)]
        e = {'n': n, 'g': g, 'name': name, 'target': target, 'timeout': timeout, 'quorum': quorum,
             'grace': grace, 't': sim.now, 'st': sim.stamp(), 'end': None, 'res': None, 'exc': None,
             'members': list(names), 'now': {}, 'ok': True}
        for m in names:
            o = dict.get(self.cont.children[L.esc(m)].sensor, L.esc(name))
            if o is None or o.sampling_strategy == ('none',):
                e['ok'] = False
            else:
                e['now'][m] = o.value
        self.waits.append(e)
        kw = {'timeout': timeout, 'quorum': quorum, 'max_grace_period': grace}
        try:
            e['res'] = yield group.wait(name, target, **kw)
        except Exception as x:
            e['exc'] = repr(x)
        e['end'] = sim.now
        sim.log('gwait', n, bool(e['res']), e['exc'])

    # -- strategies through container and groups -------------------------------
    @tgen.coroutine
    def do_cset(self, n, how, which, strat):
        import re
        sim = self.sim
        e = {'n': n, 'how': how, 'which': which, 'strat': strat, 'norm': L.normalise(strat),
             't': sim.now, 'st': sim.stamp(), 'end': None, 'res': None, 'exc': None}
        exp = {}
        pat = re.compile('^%s$' % which if how == 'cset' else which)
        for full, o in dict.items(self.cont.sensor):
            if pat.search(full):
                exp.setdefault(o.parent_name, {})[L.esc(o.name)] = o.name
        e['exp'] = exp
        self.claims.append(e)
        try:
            f = self.cont.set_sampling_strategy if how == 'cset' else \
                self.cont.set_sampling_strategies
            e['res'] = yield f(which, strat)
        except Exception as x:
            e['exc'] = repr(x)
        e['end'], e['gend'] = sim.now, sim.stamp()

    @tgen.coroutine
    def do_gset(self, n, how, g, which, strat):
        import re
        sim = self.sim
        if g not in self.members:
            return
        group = self.cont.groups[L.esc(g)]
        e = {'n': n, 'how': how, 'which': which, 'strat': strat, 'norm': L.normalise(strat),
             't': sim.now, 'st': sim.stamp(), 'end': None, 'res': None, 'exc': None}
        exp = {}
        for m in self.members[g]:
            exp[m] = {}
            for k, o in dict.items(self.cont.children[L.esc(m)].sensor):
                if re.search(which, k) if how == 'gsets' else k == L.esc(which):
                    exp[m][k] = o.name
        e['exp'] = exp
        self.claims.append(e)
        try:
            f = group.set_sampling_strategy if how == 'gset' else group.set_sampling_strategies
            e['res'] = yield f(which, strat)
        except Exception as x:
            e['exc'] = repr(x)
        e['end'], e['gend'] = sim.now, sim.stamp()

    @tgen.coroutine
    def do_clis(self, n, full):
        o = dict.get(self.cont.sensor, full)
        calls = []
        cb = lambda sensor, reading: calls.append(sensor.name)
        try:
            res = yield self.cont.set_sensor_listener(full, cb)
        except Exception as x:
            self.sim.violation('listener', 'setting a listener on %s: %r' % (full, x))
            return
        want = {} if o is None else {o.parent_name: {L.esc(o.name): cb}}
        if res != want:
            self.sim.violation('listener', 'setting a listener on %s gave %s instead of success' %
                               (full, res))
        elif o is not None and not o.is_listener(cb):
            self.sim.violation('listener', 'listener on %s not registered' % full)
        else:
            self.sim.probe('listeners set')

    # -- settled ---------------------------------------------------------------
    def do_check(self):
        sim = self.sim
        for _, child in self.children():
            d = self.dev(child.name)
            if child.state != 'synced':
                sim.violation('not-synced', '%s is %s' % (child.name, child.state))
                return
            if set(child.sensor) != {L.esc(n) for n in d.sens}:
                sim.violation('child-model', '%s has sensors %s, its device %s' %
                              (child.name, sorted(child.sensor), sorted(d.sens)))
            r = d.spec['res']
            allow = {L.esc(x) for x in r.get('always_allowed_requests', ())}
            excl = {L.esc(x) for x in r.get('always_excluded_requests', ())}
            exp = {L.esc(x) for x in d.reqs}
            exp = {x for x in exp if (r.get('controlled', True) or x in allow) and x not in excl}
            got = {k for k, o in dict.items(child.req) if not isinstance(o, R.KATCPDummyRequest)}
            if got != exp:
                sim.violation('child-model', '%s has requests %s instead of %s' %
                              (child.name, sorted(got), sorted(exp)))
        sim.probe('settled')
        if not self.cont.is_connected():
            sim.violation('not-connected', 'all children are synced')
        for what in ('req', 'sensor', 'group', 'list'):
            self.do_look(what)

    def _op(self, kind, *a):
        if kind == 'updv':
            d = self.devs[a[0]]
            if a[1] in d.sens and d.sens[a[1]][0] == 'integer':
                d.update(a[1], 'nominal', str(a[2]))
            return
        if kind == 'up' and self.devs[a[0]].listener is None:
            return
        L.ResWorld._op(self, kind, *a)

    def do_stop(self):
        self.cont.stop()
        self.t_stop = self.sim.now
        for n, f in self.cont.until_stopped(
                timeout=140 if self.sc.get('early') else 8).items():
            self.ended[n] = None

            def done(f, n=n):
                f.exception()
                self.ended[n] = (self.sim.now, f.exception())
            f.add_done_callback(done)


def run(sim, sc):
    w = World(sim, sc)
    w.run(sc['end'])
    w.sim.at(sc['end'] + 0.01, w.loop.add_callback, w.do_stop)
    w.run(sc['end'] + (150 if sc.get('early') else 20))
    judge(sim, w, sc)


def stalled(w, a, b):
    return sum(d for t, d in w.stalls if t + d >= a and t <= b)


def calm(w, d, a, b):
    """Connection of d undisturbed during [a, b]."""
    cs = [c for c in d.conns if c.t_open < a and (c.ended is None or c.ended[0] > b)]
    if len(cs) != 1 or stalled(w, a, b):
        return None
    for op in w.sc['ops']:
        if op[1] == 'srv' and op[2] == w.devs.index(d) and a - 60 <= op[0] <= b:
            return None
    return cs[0]


def judge(sim, w, sc):
    # -- stop
    for n in [c.name for _, c in w.children()]:
        if w.ended.get(L.esc(n)) is None or w.ended[L.esc(n)][1] is not None:
            sim.violation('stop', 'child %s: until_stopped gave %s after stop' %
                          (n, w.ended.get(L.esc(n))))
        for c in w.dev(n).conns:
            if c.t_open > w.t_stop + (5.0 if sc.get('early') else 1.0) or c.client_open():
                sim.violation('stop', 'child %s still has a connection (no %d) after stop' % (n, c.idx))
    # -- group requests
    for e in w.greqs:
        if e['end'] is None:
            sim.violation('group-request-hangs', 'request %s of group %s at t=%.3f' %
                          (e['name'], e['g'], e['t']))
            continue
        if e['exc'] is not None:
            sim.violation('group-request-raised', 'request %s of group %s: %s' %
                          (e['name'], e['g'], e['exc']))
            continue
        res = e['res']
        if set(res) != set(e['has']):
            sim.violation('group-results', 'results for %s, members %s' % (sorted(res),
                                                                           sorted(e['has'])))
            continue
        for m, has in e['has'].items():
            d = w.dev(m)
            calls = [c for c in d.calls if 'token-%d' % e['n'] in c['args']]
            r = res[m]
            if has == 'dummy':
                continue
            if not has:
                if r is not None or calls:
                    sim.violation('group-results', 'member %s lacks %s, result %r, calls %d' %
                                  (m, e['name'], r, len(calls)))
                continue
            if r is None:
                sim.violation('group-results', 'member %s has %s, but there is no result' %
                              (m, e['name']))
                continue
            if len(calls) > 1:
                sim.violation('group-results', 'member %s was asked %d times' % (m, len(calls)))
            if calls and L.esc(calls[0]['name']) != e['name']:
                sim.violation('group-results', 'member %s asked for %s' % (m, calls[0]['name']))
            if d.greet not in ('mi', 'mit'):
                continue
            if r.succeeded and (not calls or 'fail' in e['args']):
                sim.violation('group-results', 'member %s: success without the device' % m)
            if not r.succeeded and 'fail' not in e['args'] and not (
                    'timed out' in str(r.reply.arguments) and e['end'] - e['t'] < 1.0) and calm(w, d, e['t'], e['end']) and \
                    not any(abs(t - e['t']) < 400 for (dn, n), l in w.edited.items()
                            if dn == d.name for t, g in l) and \
                    not any(o[1] == 'chg' and w.devs[o[2]] is d for o in w.sc['ops']):
                sim.violation('group-results', 'member %s: no success on a good connection: %s' %
                              (m, r))
            sim.probe('member results')
        if bool(res) != all(r is not None and r.succeeded for r in res.values()):
            sim.violation('group-results', 'overall %r' % bool(res))
    judge_waits(sim, w)
    judge_claims(sim, w)


def judge_waits(sim, w):
    for e in w.waits:
        to = e['timeout']
        n = len(e['members'])
        import math
        q = n if e['quorum'] is None else e['quorum']
        if isinstance(q, float):
            q = int(math.ceil(q * n))
        st = stalled(w, e['t'] - 5, e['t'] + 10)
        end = e['end']
        if e['exc'] is not None:
            if e['ok'] and not any(e['t'] - 100 <= t <= end for m in e['members']
                                   for t, g in w.edited.get((m, e['name']), ())):
                sim.violation('group-wait-raised', 'wait %r: %s' % (describe(e), e['exc']))
            continue
        if not e['ok']:
            if end is not None:
                sim.violation('group-wait-missing', 'wait %r: not all members have the sensor with a '
                              'strategy, but the wait gave %s' % (describe(e), bool(e['res'])))
            continue
        horizon = sim.now if end is None else end
        # when did each member meet the condition
        hold = {}
        for m in e['members']:
            l = [(t, v == e['target']) for t, g, r, nm, v in w.seen
                 if r == m and nm == e['name'] and g > e['st'] and t <= horizon]
            hold[m] = [(e['t'], e['now'][m] == e['target'])] + l
        if any(e['t'] - 100 <= t <= horizon for m in e['members']
               for t, g in w.edited.get((m, e['name']), ())):
            continue        # waits on an object that may be replaced
        possible = [m for m in e['members'] if any(h for t, h in hold[m])]
        if end is None:
            if to is not None:
                sim.violation('group-wait-hangs', 'wait %r not finished' % (describe(e),))
            elif len(possible) >= (n if e['grace'] is None else q):
                sim.violation('group-wait-hangs', 'wait %r not finished although %s met the '
                              'condition' % (describe(e), possible))
            continue
        if to is not None and end > e['t'] + to + 0.02 + st:
            sim.violation('group-wait-late', 'wait %r ended at t=%.3f' % (describe(e), end))
            continue
        ok = bool(e['res'])
        if ok and len(possible) < q:
            sim.violation('group-wait-false', 'wait %r succeeded, but only %s met the condition' %
                          (describe(e), possible))
            continue
        if not ok:
            if q <= n and (to is None or end < e['t'] + to - 0.02):
                sim.violation('group-wait-early', 'wait %r failed at t=%.3f already' %
                              (describe(e), end))
                continue
            if to is None:
                continue
            grace = min(e['grace'] if e['grace'] is not None else 1e9, to / 2.)
            edge = e['t'] + to - grace
            sure = []
            for m in e['members']:
                l = hold[m] + [(end, None)]
                for (t, h), (t2, _) in zip(l, l[1:]):
                    if h and t < e['t'] + to - 0.02 - st and (
                            t2 < edge - 0.02 - st or t > edge + 0.02 + st and t2 > t or
                            t2 > edge + 0.02 + st):
                        sure.append(m)
                        break
            if len(sure) >= q:
                sim.violation('group-wait-missed', 'wait %r failed although %s met the condition: '
                              '%s' % (describe(e), sure, hold))
                continue
        sim.probe('group waits ' + ('ok' if ok else 'timed out'))


def describe(e):
    return dict((k, e[k]) for k in ('g', 'members', 'name', 'target', 'timeout', 'quorum', 'grace',
                                    't'))


def judge_claims(sim, w):
    for e in w.claims:
        what = '%s(%r, %r) at t=%.3f' % (e['how'], e['which'], e['strat'], e['t'])
        if e['end'] is None:
            sim.violation('set-hangs', what)
            continue
        if e['exc'] is not None:
            sim.violation('set-raised', '%s: %s' % (what, e['exc']))
            continue
        extra = sorted((m, k) for m, r in e['res'].items() for k in (r or {})
                       if k not in e['exp'].get(m, {}))
        if extra:
            sim.violation('set-too-many', '%s: also set for %s, which it does not match' %
                          (what, extra))
            return
        for m, names in e['exp'].items():
            d = w.dev(m)
            got = e['res'].get(m)
            if got is None and names or not set(names) <= set(got or {}):
                edited = any(e['t'] <= t <= e['end'] for (dn, n), l in w.edited.items()
                             if dn == m for t, g in l)
                if not edited:
                    sim.violation('set-incomplete', '%s: results %r, expected %r' %
                                  (what, e['res'], e['exp']))
                    break
            if d.greet not in ('mi', 'mit'):
                continue
            for k, n in names.items():
                if k not in (got or {}):
                    continue
                ok = got[k] == e['strat']
                mine = [r for r in d.sets if r['name'] == n and r['strat'] == e['norm'] and
                        e['st'] < r['g'] < e['gend']]
                good = [r for r in mine if r['ok'] and r.get('g_done', 1e18) < e['gend']]
                if ok and not good:
                    sim.violation('false-success', '%s: %s %s reported as set, but the device did '
                                  'not accept it (%d attempts)' % (what, m, n, len(mine)))
                    return
                tried = [c for c in d.conns if c.t_open < e['t'] and
                         (c.ended is None or c.ended[0] > e['end'])]
                if got[k] is None and not mine and tried and calm(w, d, e['t'], e['end']) and \
                        w.devs.index(d) not in [o[2] for o in w.sc['ops'] if o[1] == 'down'] and \
                        not any(e['t'] - 100 <= t <= e['end'] for (dn, x), l in w.edited.items()
                                if dn == m for t, g in l):
                    sim.violation('not-tried', '%s: %s %s reported as %r, but was not tried' %
                                  (what, m, n, got[k]))
                    return
                sim.probe('claims ' + ('ok' if ok else 'failed'))
