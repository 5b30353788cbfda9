"""C23: inspecting-client states are legal, ordered, and settle when idle."""
from props import inspectlib as I
from props import clientlib as K

ID = 'C23'
SHRINK = ['ops', 'behav', 'lbehav', 'cb']
RULE = ('as C22 (interface changes, announcements, failing, slow, partial, dropped and malformed '
        'inspections, disconnects, partitions, downtime, stalls), with more failures in a row, '
        'connection losses placed inside slow state callbacks, callbacks that raise in any state, '
        'first synchronisation without inspection, and long idle windows at the end, connected '
        'or with the device down; non-trivial: >=2 synchronisations and one loss, failure or '
        'slow callback in between')
REAL = ['katcp.inspecting_client', 'katcp.client', 'katcp.core', 'tornado ioloop/iostream/gen']
STUB = ['TCP sockets and poller', 'clock', 'device (scripted)', 'random (seeded)']
RUNS = {'quick': 1500, 'thorough': 60000}
ASSUME = ('the device answers the requests of one connection one after the other and announces every '
          'change eventually; a connection that dies silently while idle is not judged; the client '
          'is started once')

D = (False, False, False, False)
C = (True, False, False, False)
M = (True, False, True, True)
N = (True, False, False, True)
S = (True, True, False, True)
NAMES = {D: 'disconnected', C: 'connected', M: 'data-synced+changed', N: 'data-synced',
         S: 'synced'}


def gen(rng, tier):
    sc = I.gen_scenario(rng, tier, churn=rng.choice([0.5, 1.0]), hostile=rng.choice([0.2, 0.5, 0.9]))
    mids = sc['greet'] in ('mi', 'mit')
    if rng.random() < 0.5:       # failures in a row
        n = rng.randint(1, 9)
        k = rng.choice(['fail', 'fail', 'malformed', 'mix'])
        sc['behav'] = [[rng.choice(['fail', 'malformed', 'partial']) if k == 'mix' else k,
                        rng.choice([0, 0, 0.1]), 0] for _ in range(n)] + sc['behav']
        last = sc['ops'].pop()
        last[0] = round(last[0] + rng.choice([20, 200, 600]), 6)
        sc['ops'][-1][0] = last[0]
        sc['ops'].append(last)
    if rng.random() < 0.5:
        # lose the connection within a slow callback
        n = rng.randrange(8)
        cb = sc['cb']
        while len(cb) <= n:
            cb.append(['plain'])
        cb[n] = ['sleep', rng.choice([0.3, 3.0, 10.0])]
        sc['cut_in_cb'] = [n, round(rng.uniform(0, cb[n][1] * 1.1), 6),
                           rng.choice(['close', 'finish', 'reset', 'half'])]
    if rng.random() < 0.15:
        sc['initial_inspection'] = False
    if rng.random() < 0.4:
        sc['resync'] = rng.choice([0.2, 1.0, 20.0])
    sc['idle'] = rng.choice(['up', 'up', 'down'])
    sc['end'] = sc['ops'][-1][0] + 90 + 3 * sc['sync_timeout'] + 60
    return sc


class World(I.InspWorld):
    def state_cb(self, state, changes):
        cut = self.sc.get('cut_in_cb')
        if cut and len(self.cbs) == cut[0] and self.dev.conns and not self.calm:
            c = self.dev.conns[-1]
            self.sim.after(cut[1], self.dev.conn_op, c, cut[2])
        return I.InspWorld.state_cb(self, state, changes)


def run(sim, sc):
    w = World(sim, sc)
    end = sc['end']
    res = {}

    def check():
        w.cut = len(w.cbs)
        res['state'] = tuple(w.cl.state)
        res['asked'] = len(w.dev.asked)
        if sc['idle'] == 'down':
            w._op('down')
            w._op('srv', 'close')

    def check_idle():
        res['state2'] = tuple(w.cl.state)
        res['cbs2'] = len(w.cbs)
        res['asked2'] = len(w.dev.asked)
        w.do_stop()
    sim.at(end, w.loop.add_callback, check)
    sim.at(end + 3, lambda: res.update(cbs1=len(w.cbs)))
    sim.at(end + 600, w.loop.add_callback, check_idle)
    w.run(end + 605)
    judge(sim, w, sc, res)


def judge(sim, w, sc, res):
    dev, cbs = w.dev, w.cbs
    stall = lambda a, b: sum(d for t, d in w.stalls if t + d >= a and t <= b)
    eps = 0.05
    init = sc.get('resync', 5)
    base = lambda k: min(90.0, init * 3.0 ** min(k, 40))
    # -- each state and its predecessor
    full = []
    for s in dev.snaps:
        if s.name is None and s.kind == 'sensor-list':
            t = s.conn.t_delivered(s.rec)
            if t is not None:
                full.append((t, s.rec['g'], s.conn.idx))
    free = 1 if sc.get('initial_inspection') is False else 0
    nsync = 0
    prev = None
    for e in cbs:
        st = e['state']
        name = NAMES.get(st)
        if name is None:
            sim.violation('illegal-state', 't=%.3f: state %r' % (e['t'], st))
            return
        if e['overlap']:
            sim.violation('callbacks-overlap', 't=%.3f: callback for %s while another one is busy' %
                          (e['t'], name))
            return
        if st in (M, N):
            if prev is None or prev['state'] not in (C, D):
                sim.violation('illegal-transition', 't=%.3f: %s after %s' %
                              (e['t'], name, prev and NAMES[prev['state']]))
                return
            if (st == M) != (not e['none']):
                sim.violation('illegal-state', 't=%.3f: %s with changes %r' %
                              (e['t'], name, e['ch']))
        elif st == S:
            nsync += 1
            ok = prev is not None and prev['state'] in (M, N)
            if not ok and free and prev is not None and prev['state'] in (C, D):
                ok = True
            elif ok:
                if prev['end'] is None or prev['how'] in ('raise', 'sleepraise'):
                    sim.violation('synced-early', 't=%.3f: synced although the callback for '
                                  'data-synced did not complete' % e['t'])
                    return
                last = [x for x in full if x[0] <= e['t'] and x[1] < e['g']]
                if not last or (e['conn'] is not None and last[-1][2] != e['conn']):
                    sim.violation('synced-without-inspection', 't=%.3f: synced on connection %s, '
                                  'but inspected was %s' % (e['t'], e['conn'], last and
                                                            last[-1][2]))
                    return
            if not ok:
                sim.violation('illegal-transition', 't=%.3f: synced after %s' %
                              (e['t'], prev and NAMES[prev['state']]))
                return
            free = 0
        prev = e
    # -- loss of the connection leads out of synced
    for c in dev.conns:
        if c.ended is None:
            continue
        t_e = c.ended[0]
        cur = None
        for e in cbs:
            if e['t'] <= t_e:
                cur = e
        if cur is None or cur['state'] != S or cur['conn'] != c.idx:
            continue
        nxt = cbs[cur['n'] + 1] if cur['n'] + 1 < len(cbs) else None
        due = t_e
        if cur['end'] is None or cur['end'] > due:
            if cur['end'] is None:
                continue
            due = cur['end']
        if cur['how'] in ('raise', 'sleepraise'):
            continue                  # failed callback: next state comes after the retry delay
        due += stall(t_e - 5, due + 5) + eps
        if nxt is None or nxt['t'] > due:
            sim.violation('synced-after-loss', 'connection %d ended at t=%.3f while synced, next '
                          'state at %s' % (c.idx, t_e, nxt and nxt['t']))
            return
        sim.probe('losses while synced')
    # -- retry delays
    lo = hi = 0
    holds, h0 = [], None
    for o in sc['ops']:
        if o[1:] == ['srv', 'hold'] and h0 is None:
            h0 = o[0]
        elif o[1:] == ['srv', 'heal'] and h0 is not None:
            holds.append((h0, max(y[0] for y in sc['ops'] if y[1:] == ['srv', 'heal'])))
    asked = [(t, g, c) for t, g, c, k, n in dev.asked if n is None]
    fails = [(c.t_delivered(rec), rec['g'], c, kind) for t, c, kind, rec, n in dev.failures
             if rec is not None and n is None and
             not (sc['greet'] == 'mit' and kind == 'help' and b' ok' in rec['line'])]
    for e, x in zip(cbs[:w.cut], cbs[1:w.cut]):
        if e['end'] is None:
            continue
        raised = e['how'] in ('raise', 'sleepraise')
        slack = eps + stall(e['end'] - 5, x['t'] + 5)
        if e['state'] == S and not raised:
            lo = hi = 0
            continue
        if raised:
            if e['state'] == S:
                lo = 0
            d = x['t'] - e['end']
            if not 0.05 * base(lo) - eps <= d <= base(hi) + slack:
                sim.violation('retry-delay', 'callback failed at t=%.3f, next attempt %.3f s later; '
                              'failures in a row before: %d..%d' % (e['end'], d, lo, hi))
                return
            sim.probe('retry delays checked')
            lo, hi = lo + 1, hi + 1
            continue
        if x['state'] not in (C, D):
            continue
        if any(h[0] - 1 <= x['t'] and e['t'] <= h[1] + 1 for h in holds):
            hi += 1               # requests may be stuck in a partition
            continue
        mine = [a for a in asked if e['gend'] < a[1] < x['g'] and a[0] >= e['end']]
        if not mine:
            if e['state'] in (C, D) and any(
                    c.ended is not None and e['t'] - 1 <= c.ended[0] <= x['t'] for c in dev.conns):
                hi += 1
            continue
        if e['state'] in (M, N):
            continue
        t0 = mine[0][0]
        f = [y for y in fails if y[0] is not None and y[0] >= t0 and e['gend'] < y[1] < x['g'] and
             y[0] <= x['t']]
        if len(f) == 1 and f[0][0] - e['end'] < sc['sync_timeout'] - 0.5 - slack and not any(
                c.ended is not None and e['t'] <= c.ended[0] <= f[0][0] for c in dev.conns):
            d = x['t'] - f[0][0]
            if not 0.05 * base(lo) - eps <= d <= base(hi) + slack:
                sim.violation('retry-delay', 'inspection failed at t=%.3f, next attempt %.3f s '
                              'later; failures in a row before: %d..%d' % (f[0][0], d, lo, hi))
                return
            sim.probe('retry delays checked')
            if lo >= 3:
                sim.probe('retry delays checked after >=3 failures')
        else:
            # timed out or cut; it failed somewhere between request and timeout
            if not 0.05 * base(lo) - eps <= x['t'] - t0 <= \
                    sc['sync_timeout'] + 1 + base(hi) + slack:
                sim.violation('retry-delay', 'inspection begun at t=%.3f failed, next attempt at '
                              't=%.3f; failures in a row before: %d..%d' % (t0, x['t'], lo, hi))
                return
            sim.probe('retry delays bounded')
        lo, hi = lo + 1, hi + 1
    # -- nothing happens without a reason
    exits = [e for e, x in zip(cbs, cbs[1:]) if e['state'] == S]
    reasons = sum(1 for e in exits if e['how'] in ('raise', 'sleepraise'))
    reasons += sum(1 for c in dev.conns if not c.client_open())
    for c in dev.conns:
        reasons += sum(1 for r in c.sent if b'-changed' in r['line'] and r['line'][:1] == b'#')
    if len(exits) > reasons:
        sim.violation('polling', 'left synced %d times with only %d connection ends and '
                      'announcements' % (len(exits), reasons))
        return
    ends = sorted((c.ended or (c.t_open, 0))[0] for c in dev.conns)
    for c in dev.conns:
        if c.ended is None:
            continue
        nxt = [o.t_open for o in dev.conns if o.t_open > c.ended[0]]
        if any(o.t_open <= c.ended[0] and (o.ended is None or o.ended[0] > c.ended[0])
               for o in dev.conns if o is not c):
            continue
        t1 = min(nxt) if nxt else sim.now
        inside = [e for e in cbs if c.ended[0] < e['t'] < t1]
        raises = sum(1 for e in inside if e['how'] in ('raise', 'sleepraise'))
        if len(inside) > 4 + 2 * raises:
            sim.violation('busy-while-disconnected', '%d state callbacks between t=%.3f and %.3f '
                          'while disconnected' % (len(inside), c.ended[0], t1))
            return
    # -- settles
    if res.get('state') != S:
        sim.violation('not-synced', 'at t=%.3f the client is %s, %.1f s after the last fault' %
                      (sc['end'], NAMES.get(res.get('state')), sc['end'] - sc['ops'][-1][0]))
        return
    want = S if sc['idle'] == 'up' else D
    if res['state2'] != want:
        sim.violation('idle-state', 'idle (%s) for 600 s the client is %s' %
                      (sc['idle'], NAMES.get(res['state2'])))
    if res['cbs2'] != res['cbs1'] or res['asked2'] != res['asked']:
        sim.violation('polling', '%d state callbacks and %d inspection requests in an idle window' %
                      (res['cbs2'] - res['cbs1'], res['asked2'] - res['asked']))
    if sc['idle'] == 'up' and cbs[-1]['state'] != D:
        sim.violation('state-after-stop', 'last state is %s' % NAMES[cbs[-1]['state']])
    sim.probe('synchronisations', nsync)
