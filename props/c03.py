"""C03: per-connection order; other connections are not blocked."""
from sim import world
from props import serverlib as S
from sim.world import katcp

ID = 'C03'
SHRINK = ['ops']
RULE = ('1-3 worker clients pipelining sync/async/concurrent/later/never-ending requests, a probe '
        'client with sync requests, a sampling subscription and mass informs, optionally a '
        'flooding client; small network delays, segmentation')
REAL = ['katcp.server', 'katcp.sampling', 'katcp.core', 'tornado ioloop/iostream/tcpserver/gen']
STUB = ['TCP sockets and poller', 'clock', 'clients (scripted)']
ASSUME = ['slack of 0.6 s simulated for network latency and scheduling']
RUNS = {'quick': 1200, 'thorough': 50000}
SLACK = 0.6


def gen(rng, tier):
    ops = []
    nw = rng.randint(1, 3)
    conf = world.gen_net(rng)
    last = 0
    for ci in range(nw):
        name = 'c%d' % ci
        kinds = ['r-sync', 'r-typed', 'r-co', 'r-cotyped', 'r-conc', 'r-later', 'r-colater',
                 'r-done', 'r-afail', 'r-araise', 'r-cfail', 'r-craise', 'r-fail', 'r-raise']
        n = rng.randint(2, 10 if tier == 'quick' else 20)
        reqs = []
        mid = 1
        for k in range(n):
            kind = rng.choice(kinds)
            if rng.random() < 0.08:
                kind = rng.choice(['r-never', 'r-cnever'])
            d = rng.choice([0, 1, 50, 1500, 4000])
            reqs.append(world.fmt('?', kind, str(mid), '%s.%d' % (name, k), str(d),
                                  str(rng.choice([0, 0, 2]))).decode())
            mid += 1
        t = round(rng.uniform(0, 0.5), 6)
        ops.append([t, name, 'connect'])
        i = 0
        while i < n:
            b = rng.choice([1, 2, 5, 20])
            t += rng.choice([0, 0.01, 1.0])
            ops.append([round(t, 6), name, 'send', ''.join(reqs[i:i + b])])
            i += b
        last = max(last, t)
    ops.append([0, 'p', 'connect'])
    ops.append([0.3, 'p', 'send', '?sensor-sampling[9000] si event\n'])
    t = 0.5
    k = 0
    while t < last + 6:
        t += rng.uniform(0.05, 1.0)
        what = rng.choice(['req', 'set', 'mass'])
        if what == 'req':
            ops.append([round(t, 6), 'p', 'send', '?r-sync[%d] p.%d 0 0\n' % (k + 1, k)])
        else:
            ops.append([round(t, 6), '@', what, k])
        k += 1
    if rng.random() < 0.3:
        ops.append([0.1, 'f', 'connect'])
        tf = round(rng.uniform(1, 3), 6)
        ops.append([tf, 'f', 'send', ''.join('?r-sync[%d] f.%d 0 0\n' % (j + 1, j)
                                             for j in range(400))])
        # probe arrives together with the flood
        ops.append([round(tf + rng.choice([0, 0.0005, 0.002]), 6), 'p', 'send',
                    '?r-sync[%d] p.%d 0 0\n' % (k + 1, k)])
    ops.sort(key=lambda o: o[0])
    return {'ops': ops, 'net': conf}


class World(S.ServerWorld):
    sets = ()
    masses = ()

    def dev_set(self, k):
        self.sets = self.sets + ((self.sim.now, k + 1),)
        self.dev.get_sensor('si').set_value(k + 1)

    def dev_mass(self, k):
        self.masses = self.masses + ((self.sim.now, k),)
        self.dev.mass_inform(katcp.Message.inform('mass', str(k)))


def run(sim, sc):
    w = World(sim)
    w.schedule(sc['ops'])
    until = max([o[0] for o in sc['ops']] or [0]) + 60

    w.run(until)
    check(sim, w, sc)


def check(sim, w, sc):
    sent_at = {}
    for op in sc['ops']:
        if op[2] == 'send':
            for l in op[3].split('\n'):
                if l:
                    p = world.parse_line(l.encode('latin-1'))
                    if p[1].startswith('r-'):
                        sent_at[p[3][0]] = op[0]
    by = {}
    for c in w.dev.calls:
        by.setdefault(c['args'][0].split(b'.')[0].decode(), []).append(c)
    for name, conn in w.clients.conns.items():
        if conn.eof:
            sim.violation('dropped', '%s dropped %r' % (name, conn.eof))
        lines, _ = S.parse_sent(w.clients.sent[name])
        reqs = [world.parse_line(l) for l in lines]
        reqs = [r for r in reqs if r[1].startswith('r-')]
        calls = by.get(name, [])
        tags = [r[3][0] for r in reqs]
        ctags = [c['args'][0] for c in calls]
        if ctags != tags[:len(ctags)]:
            sim.violation('order', '%s: handler order %r, sent %r' % (name, ctags, tags))
            continue
        blocked = False
        for a, b in zip(calls, calls[1:] + [None]):
            if a['kind'] in S.CONCURRENT:
                if b is not None:
                    ready = max(a['t0'], sent_at[b['args'][0]])
                    if b['t0'] > ready + SLACK:
                        sim.violation('delayed-by-concurrent',
                                      '%s: %r started %.3f s after it could (previous %r)' % (
                                          name, b['args'], b['t0'] - ready, a['kind']))
                    if a['end'] is None or b['start'] < a['end']:
                        sim.probe('started during concurrent')
                elif len(calls) < len(reqs):
                    sim.violation('delayed-by-concurrent', '%s: %r never started after %r' % (
                        name, reqs[len(calls)], a['kind']))
            elif b is not None:
                if a['end'] is None or b['start'] < a['end']:
                    sim.violation('overlap', '%s: %r (%s) started before %r (%s) was answered' % (
                        name, b['args'][0], b['kind'], a['args'][0], a['kind']))
                ready = max(a.get('t1', a['t0']), sent_at[b['args'][0]])
                if a['end'] is not None and b['t0'] > ready + SLACK:
                    sim.violation('delayed', '%s: %r started %.3f s after it could' % (
                        name, b['args'], b['t0'] - ready))
            elif a['kind'] == 'r-never':
                blocked = True
                sim.probe('blocked by never-ending')
            elif len(calls) < len(reqs):
                sim.violation('stuck', '%s: %r never started' % (name, reqs[len(calls)]))
        # reply order of sequential requests; every inform/reply of a request precedes the
        # start of its successor (so the successor's output comes later on the wire)
        rep = []
        for t, g, p, l in world.parsed(conn):
            if p and p[0] == '!' and p[1].startswith('r-'):
                rep.append((p[2], t))
        mids = [m for m, t in rep]
        seqkinds = [r[2] for r in reqs if r[1] not in S.CONCURRENT]
        seqrep = [m for m in mids if m in set(seqkinds)]
        exp = [m for m in seqkinds if m in set(seqrep)]
        if seqrep != exp:
            sim.violation('reply-order', '%s: replies %r, expected order %r' % (name, seqrep, exp))
        # a request's reply is on the wire before anything its sequential successor sends
        pos = {}
        for i, (t, g, p, l) in enumerate(world.parsed(conn)):
            if p and p[2]:
                pos.setdefault((p[0], p[2]), i)
        for a, b in zip(reqs, reqs[1:]):
            if a[1] in S.CONCURRENT:
                continue
            ra = pos.get(('!', a[2]))
            for kind in '#!':
                rb = pos.get((kind, b[2]))
                if rb is not None and (ra is None or rb < ra):
                    sim.violation('overlap', '%s: output of %s before reply to %s' % (
                        name, b[2], a[2]))
        for m, t in rep:
            if name != 'p':
                continue
            tag = [r[3][0] for r in reqs if r[2] == m][0]
            if t - sent_at[tag] > SLACK:
                sim.violation('blocked', 'probe request %s answered after %.3f s' % (
                    tag.decode(), t - sent_at[tag]))
        if name == 'p' and len(rep) != len(reqs):
            sim.violation('blocked', 'probe: %d replies to %d requests' % (len(rep), len(reqs)))
    p = w.clients.conns.get('p')
    if p is None:
        return
    sub = [t for t, g, q, l in world.parsed(p) if q and q[0] == '!' and q[1] == 'sensor-sampling']
    got = [(t, q) for t, g, q, l in world.parsed(p) if q and q[1] == 'sensor-status']
    for t, v in w.sets:
        if sub and t > sub[0]:
            hit = [tt for tt, q in got if q[3][-1] == str(v).encode()]
            if not hit or hit[0] - t > SLACK:
                sim.violation('blocked', 'sensor update %d at %.3f arrived at %r' % (v, t, hit))
    mass = [(t, q[3][0]) for t, g, q, l in world.parsed(p) if q and q[1] == 'mass']
    for t, k in w.masses:
        hit = [tt for tt, v in mass if v == str(k).encode()]
        if t > 0.5 and (not hit or hit[0] - t > SLACK):
            sim.violation('blocked', 'mass inform %d at %.3f arrived at %r' % (k, t, hit))
    # flooding client must not starve the probe
    fl = [c['start'] for c in w.dev.calls if c['args'][0].startswith(b'f.')]
    if fl:
        sim.probe('flood')
        conn = w.clients.conns['f']
        for c in w.dev.calls:
            if c['args'][0].startswith(b'p.') and fl[0] < c['start']:
                t = sent_at[c['args'][0]]
                # calls of the flood at or after the latest possible arrival of the probe
                late = [x for x in w.dev.calls if x['args'][0].startswith(b'f.') and
                        x['start'] < c['start'] and x['t0'] > t + SLACK]
                if len(late) > 150:
                    sim.violation('starved', 'probe %r waited for %d flood requests' % (
                        c['args'], len(late)))
