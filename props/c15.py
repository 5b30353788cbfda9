"""C15: request timeouts fire on time, and only when no reply came."""
from sim import world
from props import clientlib as K

ID = 'C15'
SHRINK = ['ops']
RULE = ('1-25 overlapping requests with own, default or no timeout (also zero) whose answers '
        'arrive around, before or after the expiry, in one piece or byte by byte, with loop '
        'stalls and late, repeated, id-less and foreign answers; non-trivial: a request timed out '
        'or an answer arrived within 50 ms of the expiry')
REAL = ['katcp.client', 'katcp.core', 'tornado ioloop/iostream/tcpclient/gen']
STUB = ['TCP sockets and poller', 'clock', 'server (scripted)']
RUNS = {'quick': 1500, 'thorough': 60000}
ASSUME = ('each request uses its own Message object; the server stays reachable (losses are C14); the '
          'wall clock that tornado schedules by does not step; '
          'a timeout is on time if it fires within 10 ms plus the injected loop stalls')


def gen(rng, tier):
    greet = rng.choice(['mi', 'mi', 'mi', 'm'])
    mids = greet == 'mi'
    T = rng.choice([0.2, 1.0, 4.0])
    default = rng.choice([5.0, 1.0, 0.25, None])
    hostile = rng.choice([0, 0.5])
    ops = []
    conf = world.gen_net(rng)
    rtt = conf.get('lat_min', 0.0001) + conf.get('lat_max', 0.002)
    for k in range(rng.randint(1, 14 if tier == 'quick' else 30)):
        t = round(1.0 + rng.choice([0.0, rng.uniform(0, T), rng.uniform(0, T)]), 6)
        tag, name, opts, plan = K.gen_req(
            rng, 'q%d' % k, 0.2, mids, hostile=hostile,
            timeouts=(None, 'd', 'd', 0, 0.001, 0.05, 0.3, 0.3, 1.0))
        tmo = opts.get('timeout', default)
        if tmo is not None and plan and rng.random() < 0.7:
            # aim the reply at the expiry
            used = sum(s[0] for s in plan)
            for s in plan:
                s[0] = 0
            plan[-1 if rng.random() < 0.5 else 0][0] = max(0, round(rng.choice([
                tmo - rtt, tmo - rtt * 0.5, tmo, tmo * 0.5, tmo + 0.05, tmo + 0.3,
                rng.uniform(0, 2 * tmo), tmo - rtt + rng.uniform(-0.01, 0.01)]), 6))
        ops.append([t, 'req', tag, name, opts, plan])
    for _ in range(rng.choice([0, 0, 1, 3])):
        ops.append([round(1 + rng.uniform(0, T + 0.5), 6), 'stall',
                    rng.choice([0.005, 0.02, 0.3, 1.0])])
    ops.sort(key=lambda o: o[0])
    sc = {'ops': ops, 'greet': greet, 'net': conf,
          'client': {'timeout': default, 'auto_reconnect': rng.random() < 0.5}, 'T': T}
    if rng.random() < 0.15:
        sc['asyncio_loop'] = True
    return sc


def run(sim, sc):
    w = K.ClientWorld(sim, sc)
    end = max([o[0] for o in sc['ops']] + [0]) + 9
    sim.at(end, w._op, 'stop')
    w.run(end + 3)
    judge(sim, w, sc)


def stalled(w, a, b):
    """Total stall time that can delay something due between a and b."""
    return any(t < b + 1e-9 and t + d + 0.001 > a for t, d in w.stalls)


def judge(sim, w, sc):
    t_stop = w.t_stop
    lost = [e for e in w.events if e['kind'] == 'notify' and not e['value'] and e['t'] < t_stop]
    if lost:
        sim.violation('connection-lost', 'the connection was lost at t=%.3f although nothing '
                      'disturbed it' % lost[0]['t'])
        return
    stall = w.stall_total()
    # without ids an answer after a timeout may be taken for a later request's
    unclean = {}
    for rec in w.srv.lines.values():
        if rec['what'] == 'stray' and rec['p'][2] is None:
            unclean[rec['p'][1]] = -1
    order = sorted(w.reqs.values(), key=lambda r: r['g'])
    tag_of = {}
    for r in order:
        info = w.srv.by_tag.get(r['tag'])
        if info is not None and info['mid'] is None and \
                (not r['done'] or r['done'][0]['serial'] is None):
            unclean.setdefault(r['name'], r['g'])
    for s, rec in w.srv.lines.items():
        tag_of[s] = rec
    for r in order:
        tag, tmo = r['tag'], r['timeout']
        conn, _inf, rep = K.expected_lines(w, r)
        info = w.srv.by_tag.get(tag)
        mid = info['mid'] if info else None
        clean = mid is not None or not r['name'] in unclean or \
            r['g'] < unclean[r['name']]
        td = rep['conn'].t_delivered(rep) if rep is not None else None
        d = r['done'][0] if r['done'] else None
        if not r['connected']:
            continue
        due = None if tmo is None else r['t'] + tmo
        if due is not None and td is not None and abs(td - due) < 0.05:
            sim.probe('answer near expiry')
        if d is None or (d['t'] >= t_stop - 1e-6 and d['serial'] is None):
            if due is not None and due + stall + 0.01 < t_stop:
                sim.violation('no-timeout', 'request %s issued t=%.6f with timeout %r never '
                              'completed before the client was stopped at t=%.3f' %
                              (tag, r['t'], tmo, t_stop))
            continue
        if d['serial'] is None:
            if sc['greet'] != 'mi' and r['opts'].get('use_mid'):
                continue                              # could not be sent
            # the connection is up and the client not stopped: this is a timeout
            sim.probe('timed out')
            if due is None:
                sim.violation('timeout-without-limit', 'request %s without timeout failed at '
                              't=%.6f: %r' % (tag, d['t'], d['value']))
                continue
            if d['t'] < due - 1e-6:
                sim.violation('early-timeout', 'request %s issued t=%.6f with timeout %r failed '
                              'at t=%.6f: %r' % (tag, r['t'], tmo, d['t'], d['value']))
            if d['t'] > due + 0.01 + stall:
                sim.violation('late-timeout', 'request %s issued t=%.6f with timeout %r failed '
                              'only at t=%.6f' % (tag, r['t'], tmo, d['t']))
            if not stalled(w, due, due) and d['t'] > due + 0.01 and \
                    not stalled(w, r['t'], d['t']):
                sim.violation('late-timeout', 'request %s issued t=%.6f with timeout %r failed '
                              'only at t=%.6f' % (tag, r['t'], tmo, d['t']))
            if td is not None and clean and td < due - 1e-4 and not stalled(w, r['t'], due):
                sim.violation('timeout-despite-reply', 'request %s: its reply reached the client '
                              'at t=%.6f, before the expiry at t=%.6f, but it failed with %r' %
                              (tag, td, due, d['value']))
        else:
            rec = tag_of.get(d['serial'])
            if rec is None or (clean and rec['tag'] != tag):
                sim.violation('foreign-answer', 'request %s completed with %r' %
                              (tag, d['value']))
            if due is not None and d['t'] > due + 0.01 + stall:
                sim.violation('no-timeout', 'request %s issued t=%.6f with timeout %r completed '
                              'only at t=%.6f' % (tag, r['t'], tmo, d['t']))
        if clean:
            for m in r.get('future_informs', r['informs']):
                s = K.serial_of(m)
                rec = tag_of.get(s)
                if rec is not None and rec['tag'] != tag:
                    sim.violation('foreign-inform', 'request %s got inform %r' % (tag, str(m)))
