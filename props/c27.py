"""C27: aggregate sensors always equal their rule applied to their children."""
import re
import threading
from sim import world
from sim.world import katcp, fmt
from katcp import Sensor, BooleanSensorTree, AggregateSensorTree
from props import serverlib as S

ID = 'C27'
SHRINK = ['ops', 'reacts']
RULE = ('4-9 sensors of a device form a boolean tree and an aggregate tree (rules sum, max, count, '
        'all, any; several levels, shared children, aggregates below boolean parents) changed by '
        '8-80 operations: updates in every style, links and rules added and removed, delayed rules, '
        'sensors registered, deregistered and registered again (also as another object of that '
        'name), applications that remove links while being told of an update; performed in the '
        'loop or in a thread while clients sample; non-trivial: a rule or link was active and its '
        'children were updated')
REAL = ['katcp.sensortree', 'katcp.core (Sensor)', 'katcp.sampling', 'katcp.server',
        'tornado ioloop/iostream/gen']
STUB = ['TCP sockets and poller', 'clock', 'thread scheduler', 'clients (scripted)',
        'rules and applications (scripted)']
RUNS = {'quick': 2500, 'thorough': 100000}
ASSUME = ['all changes to the trees and their sensors are made by one thread at a time',
          'parents are not set by anybody else', 'rules do not fail',
          'links that do not exist are not removed; only complete rules are removed',
          'a parent without children and an inactive aggregate may hold any value, but keep it']

RULES = {
    'sum': lambda vs: max(-100000, min(100000, sum(int(v) for v in vs))),
    'max': lambda vs: max(int(v) for v in vs),
    'count': lambda vs: sum(1 for v in vs if v),
    'all': lambda vs: all(vs),
    'any': lambda vs: any(vs),
}


def gen(rng, tier):
    n = rng.randint(4, 9)
    nodes = [('b' if rng.random() < 0.5 else 'i') + str(k) for k in range(n)]
    bools = [x for x in nodes if x[0] == 'b']
    T = rng.choice([0.0, 1.0, 3.0])
    T0 = rng.choice([0.0, 0.5])
    count = rng.randint(8, 80 if tier == 'quick' else 200)
    wts = {'set': rng.choice([4, 8]), 'badd': rng.choice([0, 2, 4]), 'brem': rng.choice([0, 1]),
           'aadd': rng.choice([0, 1, 2]), 'adelay': rng.choice([0, 2, 3]),
           'areg': rng.choice([0, 3, 5]), 'adereg': rng.choice([0, 2, 4]), 'arem': rng.choice([0, 1])}
    if not any(wts[k] for k in ('badd', 'aadd', 'adelay')):
        wts['badd'] = 3
    kinds = [k for k, w in wts.items() for _ in range(w)]

    few = rng.sample(nodes, min(n, rng.choice([2, 3, 4])))     # names that come and go
    delayed = rng.random() < 0.8

    def op(kind):
        a = rng.randrange(n) if rng.random() < 0.2 else rng.randrange((n + 1) // 2)
        if kind == 'set':
            x = nodes[a]
            v = rng.choice([True, False]) if x[0] == 'b' else rng.choice(
                [0, 0, 1, 2, rng.randint(-50, 50)])
            return ['set', x, v, rng.randrange(4), rng.choice([0, 0, 0, 1]),
                    rng.choice(['nominal', 'nominal', 'warn', 'unknown', 'failure'])]
        if kind in ('badd', 'brem'):
            if len(bools) < 2:
                return None
            i, j = sorted(rng.sample(range(len(bools)), 2))
            return [kind, bools[j], bools[i]]
        if kind in ('aadd', 'adelay'):
            p = rng.randrange(1, n) if rng.random() < 0.3 else rng.randrange(n // 2, n)
            ch = rng.sample(nodes[:p], min(p, rng.choice([1, 1, 2, 2, 3, 4])))
            if kind == 'adelay' and delayed:
                ch = [x for x in ch if x in few] or [x for x in nodes[:p] if x in few] or ch
            rule = rng.choice(['all', 'any'] if nodes[p][0] == 'b' else ['sum', 'max', 'count'])
            return [kind, nodes[p], rule, ch, rng.choice(['list', 'tuple', 'set'])]
        if kind == 'areg':
            return ['areg', rng.choice(few if rng.random() < 0.8 else nodes), rng.random() < 0.2]
        if kind == 'adereg':
            return ['adereg', rng.choice(few if rng.random() < 0.8 else nodes), rng.random() < 0.2]
        return ['arem', nodes[rng.randrange(n // 2, n)]]
    ops = []
    for k in range(count):
        o = op(rng.choice(kinds))
        if o:
            ops.append([round(T0 + rng.choice([T * k / count, T / 2]), 6), '@'] + o)
    reacts = []
    if rng.random() < 0.3:
        for _ in range(rng.randint(1, 3)):
            o = op(rng.choice([k for k in kinds if k in ('brem', 'arem', 'adereg')] or ['brem']))
            if o:
                # node, at its k-th update, before or after the trees are told
                reacts.append([rng.choice(nodes[:(n + 1) // 2]), rng.randint(1, 4),
                               rng.random() < 0.5, o])
    for ci in range(rng.randint(0, 3)):
        c = 'c%d' % ci
        t = round(rng.uniform(0, T0 + T), 6)
        ops.append([t, c, 'connect'])
        for m, x in enumerate(rng.sample(nodes, rng.randint(1, n))):
            ops.append([t, c, 'send', '?sensor-sampling[%d] %s %s\n' % (
                m + 1, x, rng.choice(['auto', 'event']))])
    ops.sort(key=lambda o: o[0])
    managed = rng.random() < 0.3
    return {'nodes': nodes, 'ops': ops, 'reacts': reacts, 'net': world.gen_net(rng),
            'managed': managed, 'preempt': world.gen_preempt(rng, rng.choice([0, 6]), hi=500)
            if managed else [], 'horizon': 200}


class Model(object):
    """The sensors, the trees under test and what they have to show."""
    def __init__(self, sim, nodes):
        self.sim, self.nodes = sim, nodes
        self.idx = {x: k for k, x in enumerate(nodes)}
        self.objs = {x: [self.make(x)] for x in nodes}
        self.bt, self.at = BooleanSensorTree(), AggregateSensorTree()
        self.links = {}         # boolean parent object -> set of child objects
        self.rules = {}         # aggregate parent -> dict(rule, fixed, need)
        self.reg = {}           # name -> registered object
        self.frozen = {}        # object -> value it has to keep
        self.hist = {}          # object -> values set
        self.quiet = True
        self.depth = 0
        for x in nodes:
            self.observe(self.objs[x][0])

    def observe(self, s):
        h = self.hist[s] = [s.value()]

        class Rec(object):
            def update(self, sensor, reading):
                h.append(reading[2])
        s.attach(Rec())

    def make(self, x):
        if x[0] == 'b':
            return Sensor.boolean(x, 'bool', default=False)
        return Sensor.integer(x, 'int', '', [-1000000, 1000000], default=0)

    def rule(self, name):
        fn = RULES[name]

        def rule(parent, children):
            vs = [c.value() for c in children]
            parent.set_value(fn(vs) if vs or name != 'max' else 0)
        return rule

    def active(self, rec):
        return all(o is not None for o in rec['need'].values())

    def kids(self, rec):
        return set(rec['fixed']) | set(rec['need'].values())

    def is_parent(self, s):
        return bool(self.links.get(s)) or s in self.rules

    def busy(self, s):
        """set by a tree at present"""
        return bool(self.links.get(s)) or (s in self.rules and self.active(self.rules[s]))

    def react(self, spec):
        x, k, before, op = spec
        s = self.objs[x][0]
        m = self
        left = [k]

        class React(object):
            def update(self, sensor, reading):
                if m.is_parent(sensor):
                    return
                left[0] -= 1
                if left[0] == 0:
                    m.sim.probe('changes made while being told of an update')
                    m.do(op)
        s.attach(React())

    # -- operations; invalid ones are skipped
    def do(self, op):
        kind, args = op[0], op[1:]
        self.sim.log('op', kind, tuple(str(a) for a in args))
        self.depth += 1
        try:
            getattr(self, 'op_' + kind)(*args)
        except Exception as e:      # noqa: E722
            if isinstance(e, world.core.SimAbort):
                raise
            self.sim.violation('raised', '%s %s raised %s: %s' % (
                kind, args, type(e).__name__, re.sub("0x[0-9a-f]+", "0x", str(e))))
        self.depth -= 1
        if not self.depth:
            self.check('%s %s' % (kind, args))

    def op_set(self, x, v, how, ver, status):
        s = self.objs[x][ver % len(self.objs[x])]
        if self.is_parent(s):
            return
        st = {'nominal': Sensor.NOMINAL, 'warn': Sensor.WARN, 'unknown': Sensor.UNKNOWN,
              'failure': Sensor.FAILURE}[status]
        if any(s in ch for ch in self.links.values()) or any(
                self.active(r) and s in self.kids(r) for r in self.rules.values()):
            self.sim.probe('updates of children')
        self.frozen.pop(s, None)
        if how == 0:
            s.set_value(v, st)
        elif how == 1:
            s.set(self.sim.now, st, v)
        elif how == 2:
            s.set_formatted(*s.format_reading((self.sim.now, st, v)))
        else:
            s.set_value(v)

    def op_badd(self, p, c):
        p, c = self.objs[p][0], self.objs[c][-1]
        if p in self.rules:
            return
        self.links.setdefault(p, set()).add(c)
        self.frozen.pop(p, None)
        self.bt.add(p, c)

    def op_brem(self, p, c):
        p = self.objs[p][0]
        for o in self.objs[c]:
            if o in self.links.get(p, ()):
                self.links[p].discard(o)
                self.sim.probe('links removed')
                self.bt.remove(p, o)
                if not self.links[p]:
                    self.freeze(p)
                return

    def op_aadd(self, p, rule, names, typ):
        p = self.objs[p][0]
        if self.is_parent(p):
            return
        ch = [self.objs[x][-1] for x in names]
        self.rules[p] = {'rule': rule, 'fixed': set(ch), 'need': {}}
        self.frozen.pop(p, None)
        self.at.add(p, self.rule(rule), {'list': list, 'tuple': tuple, 'set': set}[typ](ch))

    def op_adelay(self, p, rule, names, typ):
        p = self.objs[p][0]
        if self.is_parent(p):
            return
        self.sim.probe('delayed rules')
        self.rules[p] = rec = {'rule': rule, 'fixed': set(),
                               'need': {x: self.reg.get(x) for x in names}}
        if self.active(rec):
            self.frozen.pop(p, None)
        else:
            self.freeze(p)
        self.at.add_delayed(p, self.rule(rule),
                            {'list': list, 'tuple': tuple, 'set': set}[typ](names))

    def op_areg(self, x, fresh):
        if x in self.reg:
            return
        if fresh and not self.is_parent(self.objs[x][-1]):
            self.objs[x].append(self.make(x))
            self.observe(self.objs[x][-1])
        s = self.objs[x][-1]
        self.reg[x] = s
        for p, r in self.rules.items():
            if x in r['need'] and r['need'][x] is None:
                r['need'][x] = s
                if self.active(r):
                    self.sim.probe('delayed rules completed')
                    self.frozen.pop(p, None)
        self.at.register_sensor(s)

    def op_adereg(self, x, other):
        if x not in self.reg:
            return
        s = self.reg.pop(x)
        gone = []
        for p, r in self.rules.items():
            if s in self.kids(r):
                if self.active(r):
                    gone.append(p)
                    self.sim.probe('rules deactivated')
                r['fixed'].discard(s)
                r['need'][x] = None
        # any sensor of that name stands for the registered one
        self.at.deregister_sensor(self.objs[x][0] if other else s)
        for p in gone:
            self.freeze(p)

    def op_arem(self, p):
        p = self.objs[p][0]
        if p not in self.rules or not self.active(self.rules[p]):
            return
        del self.rules[p]
        self.sim.probe('rules removed')
        self.at.remove(p)
        self.freeze(p)

    def freeze(self, s):
        self.frozen[s] = s.value()

    # -- checks
    def check(self, after):
        n = 0
        for p, ch in self.links.items():
            if not ch:
                if p in self.bt and self.bt.children(p):
                    self.bad('links', after, '%s still has children in the tree' % p.name)
                continue
            n += 1
            if p not in self.bt or self.bt.children(p) != ch:
                self.bad('links', after, 'the children of %s in the tree are not those linked'
                         % p.name)
            want = all(c.value() for c in ch)
            if p.value() is not want:
                self.bad('boolean', after, '%s is %r but its children are %s' % (
                    p.name, p.value(), self.show(ch)))
        for p, r in self.rules.items():
            try:
                self.at.fetch(p)
                act = True
            except KeyError:
                act = False
            if act != self.active(r):
                self.bad('active', after, 'the aggregate %s is %s, names without a registered '
                         'sensor: %s' % (p.name, 'active' if act else 'not active',
                                         [x for x in r['need'] if r['need'][x] is None]))
            if not self.active(r):
                continue
            n += 1
            want = RULES[r['rule']]([c.value() for c in self.kids(r)])
            if p.value() != want:
                self.bad('aggregate', after, '%s is %r but %s of its children %s is %r' % (
                    p.name, p.value(), r['rule'], self.show(self.kids(r)), want))
        for s, v in self.frozen.items():
            if not self.busy(s) and s.value() != v:
                self.bad('affected', after, '%s changed from %r to %r although nothing it depends '
                         'on is linked' % (s.name, v, s.value()))
                self.frozen[s] = s.value()
        if n:
            self.sim.probe('parents checked', n)

    def bad(self, kind, after, text):
        if self.quiet:
            self.quiet = False
            self.sim.violation(kind, 'after %s: %s' % (after, text))

    def show(self, ch):
        return ', '.join(sorted('%s=%r' % (c.name, c.value()) for c in ch))


class World(S.ServerWorld):
    managed = False


def run(sim, sc):
    m = Model(sim, sc['nodes'])
    for r in sc['reacts']:
        if r[2]:
            m.react(r)

    class D(S.Dev):
        def sensors_cfg(self, dev):
            for x in sc['nodes']:
                self.add_sensor(m.objs[x][0])

    class TD(D, katcp.DeviceServer):
        def __init__(self, *a, **kw):
            katcp.DeviceServer.__init__(self, *a, **kw)
    end = max([o[0] for o in sc['ops']] + [0]) + 3
    devops = [[o[0], o[2:]] for o in sc['ops'] if o[1] == '@']
    late = [r for r in sc['reacts'] if not r[2]]
    # those told after the trees attach once half the operations were made
    half = len(devops) // 2
    started = [0]

    def do(op):
        sim.ops_done += 1
        if started[0] == half:
            for r in late:
                m.react(r)
        started[0] += 1
        m.do(op)
    if not sc['managed']:
        w = World(sim, D)
        for t, op in devops:
            sim.at(t, w.loop.add_callback, do, op)
        w.schedule([o for o in sc['ops'] if o[1] != '@'])
        w.run(end)
    else:
        clients = world.Clients(sim, S.PORT)
        dev = TD('127.0.0.1', S.PORT)
        dev.set_concurrency_options(thread_safe=True, handler_thread=False)
        dev.start(timeout=5)
        t0 = sim.now
        for o in sc['ops']:
            if o[1] != '@':
                sim.at(t0 + o[0], clients.op, o[1], o[2], *o[3:])

        def worker():
            for t, op in devops:
                if t0 + t > sim.now:
                    sim.sleep(t0 + t - sim.now)
                do(op)
        th = threading.Thread(target=worker)
        th.start()
        th.join()
        if t0 + end > sim.now:
            sim.sleep(t0 + end - sim.now)

        class W(object):
            pass
        w = W()
        w.clients = clients
    judge_clients(sim, sc, m, w)
    if sc['managed']:
        dev.stop()
        dev.join(20)


def val(x, a):
    return a == b'1' if x[0] == 'b' else int(a)


def judge_clients(sim, sc, m, w):
    strat = {}
    for o in sc['ops']:
        if o[1] != '@' and o[2] == 'send':
            f = o[3].split()
            strat[(o[1], f[1])] = f[2]
    for cname, c in w.clients.conns.items():
        got = {}
        for t, g, p, line in world.parsed(c):
            if p is None:
                sim.violation('garbled', '%s received %r' % (cname, line[:200]))
                continue
            mt, nm, mid, args = p
            if mt == '#' and nm == 'sensor-status':
                got.setdefault(args[2].decode(), []).append(val(args[2].decode(), args[4]))
        if c.eof is not None or c.closed_locally:
            continue
        for (cn, x), st in strat.items():
            if cn != cname:
                continue
            s = m.objs[x][0]
            seq = got.get(x)
            if not seq:
                sim.violation('client-nothing', '%s samples %s but received nothing' % (cname, x))
                continue
            sim.probe('sampled sensors')
            if seq[-1] != s.value():
                sim.violation('client-stale', '%s samples %s (%s): the last value received is %r, '
                              'the sensor is %r' % (cname, x, st, seq[-1], s.value()))
            # what was received are values the sensor took, in order
            pos = len(m.hist[s])
            for v in reversed(seq):
                pos -= 1
                while pos >= 0 and m.hist[s][pos] != v:
                    pos -= 1
                if pos < 0:
                    sim.violation('client-order', '%s samples %s (%s): received %r, the sensor '
                                  'took %r' % (cname, x, st, seq[-8:], m.hist[s][-8:]))
                    break
