"""C16: incoming informs and replies are routed to the right consumer, in order."""
from sim import world
from props import clientlib as K

ID = 'C16'
SHRINK = ['ops']
RULE = ('streams of unsolicited informs, replies and requests with known and unknown names, with '
        'ids of pending, finished or no requests, malformed lines and empty lines, mixed with the '
        'answers to 0-10 concurrent requests, cut into arbitrary segments; handlers and callbacks '
        'that raise, return failing or slow futures; reconnects and stop/start; non-trivial: >=3 '
        'lines consumed and one was hostile (garbage, raising consumer, id of another request)')
REAL = ['katcp.client', 'katcp.core', 'tornado ioloop/iostream/tcpclient/gen']
STUB = ['TCP sockets and poller', 'clock', 'server (scripted)']
RUNS = {'quick': 1500, 'thorough': 60000}
ASSUME = ('lines still undelivered or unread when the connection ends may be lost; each request '
          'uses its own Message object')

LNAMES = ['evt', 'tick', 'odd', 'zz', 'get', 'ask', 'put', 'unheard-of']
ACTS = ['plain', 'plain', 'plain', 'raise', 'fraise', 'slow']


def gen_line(rng, quiet_ids):
    mtype = rng.choice(['#', '#', '#', '!', '!', '?'])
    name = rng.choice(LNAMES)
    mid = None
    if rng.random() < 0.5 and not quiet_ids:
        mid = str(rng.choice([rng.randint(1, 8), rng.randint(1, 20), 99999]))
    return ['line', mtype, name, mid, [rng.choice(ACTS)]]


def gen(rng, tier):
    greet = rng.choice(['mi', 'mi', 'mi', 'm', 'none'])
    mids = greet == 'mi'
    T = rng.choice([0.1, 1.0, 3.0])
    ops = []
    for k in range(rng.choice([0, 2, rng.randint(0, 10)])):
        r = K.gen_req(rng, 'q%d' % k, rng.choice([0.01, 0.5]), mids, hostile=0.3, use_mid=0.15)
        def fix(q):
            q[2]['style'] = rng.choice(['cb', 'cbud'])
            for n in q[2].get('then') or ():
                fix(n)
        fix(r)
        ops.append([round(0.5 + rng.uniform(0, T), 6), 'req'] + r)
    for _ in range(rng.randint(1, 12 if tier == 'quick' else 40)):
        t = round(0.5 + rng.choice([0, rng.uniform(0, T)]), 6)
        for _ in range(rng.choice([1, 1, 2, 6])):
            if rng.random() < 0.2:
                ops.append([t, 'raw', rng.choice(K.BAD_LINES + ['', '\r']) + '\n'])
            else:
                ops.append([t] + gen_line(rng, False))
    for _ in range(rng.choice([0, 0, 0, 1, 2])):
        t = round(0.5 + rng.uniform(0, T), 6)
        k = rng.choice(['close', 'finish', 'reset', 'disconnect', 'stall', 'hold', 'stop'])
        if k == 'disconnect':
            ops.append([t, 'disconnect'])
        elif k == 'stall':
            ops.append([t, 'stall', rng.choice([0.01, 0.5])])
        elif k == 'hold':
            ops.append([t, 'srv', 'hold'])
            ops.append([round(t + rng.uniform(0, 1), 6), 'srv', 'heal'])
        elif k == 'stop':
            ops.append([t, 'stop'])
            ops.append([round(t + 1.2, 6), 'start'])
            ops.append([round(t + 1.9, 6)] + gen_line(rng, False))
            ops.append([round(t + 1.9, 6), 'req', 'again%d' % len(ops), 'get', {'style': 'cb'},
                        [[0, 'inform', 'i0'], [0, 'reply', 'ok']]])
        else:
            ops.append([t, 'srv', k])
    ops.sort(key=lambda o: o[0])
    sc = {'ops': ops, 'greet': greet, 'net': world.gen_net(rng),
          'client': {'timeout': rng.choice([5.0, 0.3]), 'delay': 0.3}, 'T': T}
    if rng.random() < 0.15:
        sc['asyncio_loop'] = True
    if rng.random() < 0.3:
        sc['latency'] = rng.choice([0.0, 1e-6])
    return sc


def run(sim, sc):
    if 'latency' in sc:
        K.Cl.MAX_LOOP_LATENCY = sc['latency']
    try:
        w = K.ClientWorld(sim, sc)
        end = max([o[0] for o in sc['ops']] + [0]) + 4
        sim.at(end, check_versions, sim, w)
        sim.at(end, w._op, 'stop')
        w.run(end + 2)
    finally:
        if 'latency' in sc:
            del K.Cl.MAX_LOOP_LATENCY
    judge(sim, w, sc)


def check_versions(sim, w):
    """What the server said of its versions is kept."""
    for c in w.srv.conns:
        if not c.client_open() or w.sc.get('greet', 'mi') not in ('mi', 'm'):
            continue
        for rec in c.sent:
            td = c.t_delivered(rec)
            if td is None or td + 1 + w.stall_total() > sim.now or \
                    not rec['line'].startswith(b'#version-connect '):
                continue
            p = rec['line'].decode().split()
            sim.probe('versions kept')
            if w.cl.versions.get(p[1]) != tuple(p[2:]):
                sim.violation('versions', 'the server sent %r, the client has %r' %
                              (rec['line'], dict(w.cl.versions)))


def judge(sim, w, sc):
    lines = [[r for r in c.sent if r['serial'] is not None] for c in w.srv.conns]
    pos = {}
    for ci, ls in enumerate(lines):
        for i, r in enumerate(ls):
            pos[r['serial']] = (ci, i)
    cur = (0, -1)
    pending = {}          # wire id -> request
    idless = []           # requests sent without id, oldest first
    consumed = set()
    hostile = 0

    def forget(r):
        for k in [k for k, v in pending.items() if v is r]:
            del pending[k]
        if r in idless:
            idless.remove(r)

    for e in w.events:
        k = e['kind']
        if k == 'issue':
            r = w.reqs[e['tag']]
            # the id is decided while the request is issued
            mid = r['msg'].mid
            if mid is not None:
                pending[mid.decode()] = r
            else:
                idless.append(r)
            continue
        if k not in ('done', 'inform', 'handler'):
            continue
        s = e.get('serial')
        if s is None:
            if k == 'done':
                forget(w.reqs[e['tag']])
            elif k == 'handler' and e['m'].name not in ('version-connect', 'build-state',
                                                        'version'):
                # nothing but numbered lines reaches handlers, except local failures of
                # requests without a callback
                sim.violation('stray-call', '%s called with %r which the server did not send' %
                              (e['value'], str(e['m'])))
            continue
        if s in consumed:
            sim.violation('delivered-twice', 'line %r was delivered twice' %
                          w.srv.lines[s]['line'])
            continue
        consumed.add(s)
        p = pos[s]
        if p[0] < cur[0] or (p[0] == cur[0] and p[1] <= cur[1]):
            sim.violation('order', 'line %r was delivered after a later line' %
                          w.srv.lines[s]['line'])
        elif p[0] == cur[0] and p[1] > cur[1] + 1 or p[0] > cur[0] and p[1] > 0:
            lo = cur[1] + 1 if p[0] == cur[0] else 0
            sim.violation('skipped', 'line(s) %r were not delivered to anyone although %r was' %
                          ([x['line'] for x in lines[p[0]][lo:p[1]]], w.srv.lines[s]['line']))
        cur = max(cur, p)
        mtype, name, mid = w.srv.lines[s]['p']
        want_req = None
        if mtype in '#!':
            if mid is not None:
                want_req = pending.get(mid)
            else:
                want_req = next((r for r in idless if r['name'] == name), None)
        if want_req is not None and mtype == '#' and want_req['opts'].get('noinf'):
            want_req = None
        if want_req is not None:
            want = ('done' if mtype == '!' else 'inform', want_req['tag'])
        else:
            known = {'#': ('evt', 'tick'), '!': ('evt', 'odd'), '?': ('ask',)}[mtype]
            kind = {'#': 'inform', '!': 'reply', '?': 'request'}[mtype]
            want = ('handler', '%s_%s' % (kind, name) if name in known else
                    'unhandled_%s' % kind)
        got = (k, e['value'] if k == 'handler' else e['tag'])
        if got != want and mid is not None and want[0] == 'handler' and k != 'handler' and \
                w.reqs[e['tag']] in idless and w.srv.lines[s]['what'] == 'unsol':
            # an invented id that happens to equal the client's internal number of a request
            # sent without id; no real server produces it
            want = got
        if got != want:
            sim.violation('misrouted', 'line %r went to %s %s, expected %s %s' %
                          ((w.srv.lines[s]['line'],) + got + want))
        m = e['m']
        line = w.srv.lines[s]['line']
        if bytes(m) + b'\n' != line:
            sim.violation('altered', 'line %r was delivered as %r' % (line, bytes(m)))
        if k == 'done':
            forget(w.reqs[e['tag']])
    # nothing that reached the client in time is lost
    nslow = sum(1 for e in w.events if e['kind'] == 'handler' and
                e['m'].arguments[:1] in ([b'slow'], [b'fraise']))
    slack = w.stall_total() + 0.06 * nslow + 0.01
    own_ends = [e['t'] for e in w.events if e['kind'] in ('stop', 'disconnect')]
    garbage = any(o[1] == 'raw' for o in sc['ops'])
    for ci, ls in enumerate(lines):
        c = w.srv.conns[ci]
        end = min([t for t in [c.ended[0] if c.ended else None] if t is not None] +
                  [t for t in own_ends if t >= c.t_open] + [sim.now])
        for r in ls:
            td = c.t_delivered(r)
            if td is not None and td + slack < end and r['serial'] not in consumed:
                sim.violation('lost', 'line %r reached the client at t=%.6f, %.3f s before the '
                              'connection ended, but was delivered to nobody' %
                              (r['line'], td, end - td))
    # requests from the server are answered by their handler's reply
    for ci, c in enumerate(w.srv.conns):
        got = [p for _t, _g, p in c.requests if p[0] == '!']
        want = []
        for e in w.events:
            if e['kind'] == 'handler' and e['value'] == 'request_ask' and e['serial'] and \
                    pos[e['serial']][0] == ci and e['m'].arguments[0] == b'plain':
                want.append(('!', 'ask', w.srv.lines[e['serial']]['p'][2],
                             [b'ok'] + list(e['m'].arguments)))
        if got != want[:len(got)] or (len(got) < len(want) and c.ended is None and
                                      c.raw.eof is None):
            sim.violation('request-reply', 'server received replies %r, expected %r' %
                          (got, want))
    ids = {}
    for c in w.srv.conns:
        for _t, _g, (mtype, name, mid, args) in c.requests:
            if mtype == '?' and mid is not None:
                if mid in ids:
                    sim.violation('id-reused', 'message id %s was used for %s and for %s' %
                                  (mid, ids[mid], args[:1]))
                ids[mid] = args[:1]
    sim.probe('lines consumed', len(consumed))
    if garbage:
        sim.probe('garbage sent')
