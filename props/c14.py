"""C14: a client request completes exactly once, with its own answer or a failure."""
from sim import world
from props import clientlib as K

ID = 'C14'
SHRINK = ['ops']
RULE = ('1-20 overlapping requests (same and different names, with and without ids, future, '
        'callback and callback-with-user-data style, issued from outside and from inside '
        'completion callbacks, also while disconnected and after stop) against a scripted server '
        'that answers in any order, late, twice, with wrong or missing ids, or not at all; server '
        'close/reset/half-close/vanish/partition, refused and slow connects, disconnect() and '
        'stop() at any point; non-trivial: two requests were outstanding together or a fault '
        'fired while one was')
REAL = ['katcp.client', 'katcp.core', 'tornado ioloop/iostream/tcpclient/gen']
STUB = ['TCP sockets and poller', 'clock', 'server (scripted)']
RUNS = {'quick': 1500, 'thorough': 60000}
ASSUME = ('each request uses its own Message object; without message ids a server answers requests '
          'of one name in order, and attribution is only required while no earlier request of '
          'that name on the connection ended without its reply')


def gen_faults(rng, T):
    ops = []
    for _ in range(rng.choice([0, 0, 1, 1, 2, 4])):
        t = round(rng.uniform(0, T), 6)
        k = rng.choice(['close', 'finish', 'half', 'reset', 'reset', 'hold', 'disconnect',
                        'noread', 'down', 'stall', 'conndelay', 'vanish'])
        if k in ('close', 'finish', 'half', 'reset', 'vanish'):
            ops.append([t, 'srv', k])
        elif k == 'hold':
            ops.append([t, 'srv', 'hold'])
            ops.append([round(t + rng.uniform(0, 2), 6), 'srv', 'heal'])
        elif k == 'noread':
            ops.append([t, 'srv', 'noread'])
            ops.append([round(t + rng.uniform(0, 2), 6), 'srv', 'read'])
        elif k == 'disconnect':
            ops.append([t, 'disconnect'])
        elif k == 'down':
            ops.append([t, 'down'])
            ops.append([t, 'srv', 'reset'])
            ops.append([round(t + rng.uniform(0, 2), 6), 'up'])
        elif k == 'stall':
            ops.append([t, 'stall', rng.choice([0.02, 0.3, 1.5])])
        elif k == 'conndelay':
            ops.append([t, 'conndelay', round(rng.uniform(0, 2), 3)])
    return ops


def gen(rng, tier):
    greet = rng.choice(['mi', 'mi', 'mi', 'mi', 'm', 'v4', 'none'])
    mids = greet == 'mi'
    T = rng.choice([0.5, 2.0, 5.0])
    dmax = rng.choice([0.01, 0.3, 2.0])
    n = rng.randint(1, 12 if tier == 'quick' else 30)
    names = rng.choice([K.NAMES, K.NAMES[:1], K.NAMES[:2]])
    ops = []
    hostile = rng.choice([0, 0.3, 0.8])
    use_mid = rng.choice([0, 0.3])
    own_ids = rng.random() < 0.3
    for k in range(n):
        t = rng.choice([0.1, round(rng.uniform(0, T), 6), round(rng.uniform(0, T), 6)])
        ops.append([t, 'req'] + K.gen_req(rng, 'q%d' % k, dmax, mids, names, hostile=hostile,
                                          use_mid=use_mid))
        if own_ids and rng.random() < 0.3:
            ops[-1][4]['mid'] = str(rng.choice([500, 2 ** 31, 10 ** 12]) + k)
    ops += gen_faults(rng, T)
    if rng.random() < 0.3:
        t = round(rng.uniform(0, T + 1), 6)
        ops.append([t, 'stop'])
        if rng.random() < 0.5:
            t2 = round(t + rng.choice([0, 0.001, 0.5, 2]), 6)
            ops.append([t2, 'start'])
    ops.sort(key=lambda o: o[0])
    sc = {'ops': ops, 'greet': greet, 'net': world.gen_net(rng),
          'client': {'timeout': rng.choice([5.0, 1.0, None]),
                     'auto_reconnect': rng.random() < 0.8, 'delay': rng.choice([0.5, 0.05])},
          'T': T}
    if greet == 'none' and rng.random() < 0.5:
        sc['preset'] = rng.choice(['5.0-MI', '5.0-M'])
    if rng.random() < 0.2:
        sc['greet_delay'] = round(rng.uniform(0, 1), 3)
    if rng.random() < 0.15:
        sc['asyncio_loop'] = True
    return sc


def run(sim, sc):
    w = K.ClientWorld(sim, sc)
    end = max([o[0] for o in sc['ops']] + [0]) + 12
    sim.at(end, w._op, 'stop')
    w.run(end + 5)
    judge(sim, w, sc)


def judge(sim, w, sc):
    evs = w.events
    # moments after which everything outstanding has to fail
    losses = [(e['g'], e['t']) for e in evs if e['kind'] == 'notify' and not e['value']]
    stops = [(e['g'], e['t']) for e in evs if e['kind'] == 'stop']
    ncomp = 0
    unclean = set()       # (conn idx, name) where id-less attribution became ambiguous
    for rec in w.srv.lines.values():
        if rec['what'] == 'stray' and rec['p'][2] is None:
            unclean.add((rec['conn'].idx, rec['p'][1]))
    order = sorted(w.reqs.values(), key=lambda r: r['g'])
    overlapping = any(a['done'] and b['g'] < a['done'][0]['g']
                      for a, b in zip(order, order[1:]))
    if overlapping:
        sim.probe('overlapping requests')
    sim.probe('requests', len(order))
    for r in order:
        tag = r['tag']
        if r['opts'].get('noreply'):
            continue
        if r['exc'] is not None:
            sim.violation('raised', 'request %s raised %s instead of completing with a failure'
                          % (tag, r['exc']))
        n = len(r['done'])
        if n > 1:
            sim.violation('completed-twice', 'request %s completed %d times: %r' %
                          (tag, n, [d['value'] for d in r['done']]))
        if n == 0:
            if r['exc'] is None:
                sim.violation('never-completed', 'request %s (issued t=%.3f, timeout %r) had not '
                              'completed %.1f s after it was issued although the client was '
                              'stopped' % (tag, r['t'], r['timeout'], sim.now - r['t']))
            continue
        ncomp += 1
        d = r['done'][0]
        m = d['m']
        if m.mtype != m.REPLY or m.name != r['name']:
            sim.violation('not-a-reply', 'request %s completed with %r, not a reply of the same '
                          'name' % (tag, d['value']))
            if m.name != r['name']:
                continue
        conn, exp_inf, exp_reply = K.expected_lines(w, r)
        informs = r.get('future_informs', r['informs'])
        got_inf = [K.serial_of(i) for i in informs]
        want_inf = [x['serial'] for x in exp_inf]
        info = w.srv.by_tag.get(tag)
        mid = info['mid'] if info else None
        key = (info['conn'].idx, r['name']) if info else None
        if info is not None:
            own, want = r['opts'].get('mid'), r['opts'].get('use_mid')
            if own is not None and mid != own:
                sim.violation('wrong-id', 'request %s was given id %r, sent with %r' %
                              (tag, own, mid))
            if mid is None and (want or want is None and told_ids(info['conn'], r['t'])):
                sim.violation('no-id', 'request %s was sent without an id (use_mid %r)' %
                              (tag, want))
        attrib = info is not None and (mid is not None or key not in unclean)
        if info is None:
            # nothing can have been sent for it
            if d['serial'] is not None:
                sim.violation('foreign-reply', 'request %s never reached the server but completed '
                              'with %r' % (tag, d['value'])) if w.srv.lines[d['serial']]['p'][2] \
                    is not None else None
                continue
        if r['opts'].get('noinf'):
            got_inf = want_inf = []
        if d['serial'] is not None:
            sim.probe('replied')
            if attrib and (exp_reply is None or d['serial'] != exp_reply['serial']):
                sim.violation('wrong-answer', 'request %s completed with %r, expected %r' %
                              (tag, d['value'], exp_reply and exp_reply['line']))
            elif attrib and got_inf != want_inf:
                sim.violation('informs', 'request %s got informs %r, server sent %r before its '
                              'reply' % (tag, got_inf, want_inf))
            if info is not None and (m.mid.decode() if m.mid else None) != mid:
                sim.violation('wrong-id', 'request %s with id %r completed by %r' %
                              (tag, mid, d['value']))
        else:
            sim.probe('failed')
            if m.arguments[:1] != [b'fail']:
                sim.violation('wrong-answer', 'request %s completed with %r which nobody sent' %
                              (tag, d['value']))
            if attrib and got_inf != want_inf[:len(got_inf)]:
                sim.violation('informs', 'failed request %s got informs %r, server sent %r' %
                              (tag, got_inf, want_inf))
            want_mid = r['msg'].mid
            if want_mid is not None and m.mid != want_mid:
                sim.violation('wrong-id', 'failure of request %s carries id %r, the request %r' %
                              (tag, m.mid, want_mid))
            # a failure needs a cause
            cause = not r['connected']
            if r['timeout'] is not None and d['t'] >= r['t'] + r['timeout'] - 1e-6:
                cause = True
            if any(r['g'] < g < d['g'] for g, _t in losses + stops):
                cause = True
            if any(g < d['g'] and not any(g < x['g'] < r['g'] for x in evs
                                          if x['kind'] == 'stopped') for g, _t in stops):
                cause = True
            if r['msg'].mid is not None and sc.get('greet') != 'mi' or \
                    r['opts'].get('use_mid') or r['opts'].get('mid'):
                cause = cause or b'not supported' in m.arguments[1]
            if not cause:
                # the close may have been noticed by the stream before the notification
                c = w.srv.conns[r['conn'] - 1] if r['conn'] else None
                if c is not None and any(e['kind'] == 'disconnect' for e in evs
                                         if e['g'] < d['g']):
                    cause = True
            if not cause:
                sim.violation('failed-without-cause', 'request %s issued while connected failed '
                              'at t=%.3f with %r' % (tag, d['t'], d['value']))
        # later id-less answers of that name on this connection are ambiguous
        if info is not None and mid is None and d['serial'] is None:
            unclean.add(key)
        if info is not None and mid is None and d['serial'] is not None and not attrib:
            unclean.add(key)
    # a reply the client has read completes its request at once
    quiet = w.stall_total() == 0
    for r in order:
        conn, _inf, rep = K.expected_lines(w, r)
        if rep is None or not r['done'] or r['opts'].get('noreply'):
            continue
        if rep['p'][2] is None:
            continue
        td = rep['conn'].t_delivered(rep)
        d = r['done'][0]
        if td is None or rep['conn'] is not conn or not quiet:
            continue
        if d['serial'] is None and d['t'] > td + 1e-6:
            sim.violation('reply-ignored', 'the reply %r reached the client at t=%.6f but request '
                          '%s failed at t=%.6f with %r' % (rep['line'], td, r['tag'], d['t'],
                                                           d['value']))
        if d['serial'] is not None and d['t'] > td + 1e-6 and not slow_handlers(w):
            sim.violation('late-completion', 'the reply to %s reached the client at t=%.6f but '
                          'completed it at t=%.6f' % (r['tag'], td, d['t']))
    sim.probe('completions', ncomp)


def told_ids(c, t):
    """The client has known for a while that it can use message ids."""
    for rec in c.sent:
        if rec['line'].startswith(b'#version-connect katcp-protocol 5.0-MI'):
            td = c.t_delivered(rec)
            return td is not None and td + 0.1 + sum(
                o[2] for o in c.srv.w.sc['ops'] if o[1] == 'stall') < t
    return False


def slow_handlers(w):
    return any(e['kind'] == 'handler' and e['m'].arguments[:1] == [b'slow'] for e in w.events)
