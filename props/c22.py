"""C22: the inspecting client's model converges to the device's interface."""
from sim import world
from props import inspectlib as I
from props import clientlib as K
from tornado import gen as tgen

ID = 'C22'
SHRINK = ['ops', 'behav', 'lbehav', 'cb']
RULE = ('0-25 sets of additions, removals and redefinitions of up to 6 sensors and 5 requests, '
        'announced late, repeatedly or with the final announcement only; inspections answered '
        'slowly, after the sync timeout, partially, malformed, with failures, never, or cut by a '
        'disconnect; lookups of unknown, new and changed items at any time and from the state '
        'callback; slow and failing state callbacks; disconnects, half closes, resets, partitions, '
        'server downtime with a changed interface afterwards, stalls; protocols 4, 5 with and '
        'without message ids and timeout hints; non-trivial: >=2 inspections accepted and one '
        'reported a change or was preceded by a failure')
REAL = ['katcp.inspecting_client', 'katcp.client', 'katcp.core', 'tornado ioloop/iostream/gen']
STUB = ['TCP sockets and poller', 'clock', 'device (scripted)', 'random (seeded)']
RUNS = {'quick': 1500, 'thorough': 60000}
ASSUME = ('the device answers the requests of one connection one after the other and announces every '
          'change eventually; a connection that dies silently while idle is not judged; named '
          'inspections are only made through lookups')


def gen(rng, tier):
    sc = I.gen_scenario(rng, tier)
    sc['end'] = sc['ops'][-1][0] + 90 + 3 * sc['sync_timeout'] + 60
    sc['final'] = [['s', n] for n in I.SN] + [['r', n] for n in I.RN]
    rng.shuffle(sc['final'])
    return sc


def run(sim, sc):
    w = I.InspWorld(sim, sc)
    end = sc['end']
    res = {}

    @tgen.coroutine
    def final():
        w.cut = len(w.cbs)
        res['synced'] = w.cl.synced
        res['state'] = tuple(w.cl.state)
        res['sensors'] = set(w.cl.sensors)
        res['requests'] = set(w.cl.requests)
        res['objs'] = []
        if w.cl.synced:
            for what, n in sc['final'] + [['r', 'help']]:
                e = yield w.lookup(what, n)
                res['objs'].append(e)
        res['done'] = True
        w.do_stop()
    sim.at(end, w.loop.add_callback, final)
    w.run(end + 40)
    if w.started.done() and w.started.exception():
        sim.violation('connect-failed', repr(w.started.exception()))
    judge(sim, w, sc, res)


def defs(kind, snap, hints):
    """name -> comparable definition."""
    out = {}
    for n, v in snap.data.items():
        if kind == 'sensors':
            out[n] = (v[0], v[1], v[2], tuple(v[3]))
        else:
            out[n] = (v[0], hints.get(n))
    return out


def judge(sim, w, sc, res):
    dev = w.dev
    model = {'sensors': {}, 'requests': {}}
    fold = {'sensors': set(), 'requests': set()}
    hint_proto = sc['greet'] == 'mit'
    full = []
    for s in dev.snaps:
        if s.name is None:
            t = s.conn.t_delivered(s.rec)
            if t is not None:
                full.append((t, s))
    accepted = 0
    changed = failed = 0
    lookups = [(s.rec['t'], s.kind, s.name) for s in dev.snaps if s.name is not None and s.data]
    cut = getattr(w, 'cut', len(w.cbs))
    prev_data = -1
    for e in w.cbs[:cut]:
        if not e['state'][3]:
            # a failed or new inspection must not have touched the model
            for kind in ('sensors', 'requests'):
                looked = {n for t, k, n in lookups if (k == 'sensor-list') == (kind == 'sensors')}
                extra = e[kind] - set(model[kind]) - looked
                lost = set(model[kind]) - e[kind]
                if extra or lost:
                    sim.violation('failed-inspection-changed-model', 't=%.3f: %s of the model '
                                  'differ from the last accepted inspection: extra %s, missing %s'
                                  % (e['t'], kind, sorted(extra), sorted(lost)))
                    return
            if e['ch']['sensors']['added'] or e['ch']['requests']['added']:
                sim.violation('changes-without-data', 'state %r came with changes' % (e['state'],))
            continue
        if e['state'][1]:
            continue                                  # synced: no new data
        prev = [x for x in full if x[0] <= e['t'] and x[1].rec['g'] < e['g']]
        sl = [s for t, s in prev if s.kind == 'sensor-list']
        if not sl:
            sim.violation('data-without-inspection', 't=%.3f: data-synced without any complete '
                          'inspection' % e['t'])
            return
        sl = sl[-1]
        hl = [s for t, s in prev if s.kind == 'help' and s.conn is sl.conn and
              s.rec['g'] < sl.rec['g']]
        hh = [s for t, s in prev if s.kind == 'request-timeout-hint' and s.conn is sl.conn and
              s.rec['g'] < sl.rec['g']]
        if not hl:
            sim.violation('data-without-inspection', 't=%.3f: data-synced without a complete help'
                          % e['t'])
            return
        hints = {}
        if hint_proto:
            if not hh:
                sim.violation('data-without-inspection', 't=%.3f: data-synced without hints' % e['t'])
                return
            hints = {n: v[1] for n, v in hh[-1].data.items()}
        accepted += 1
        for kind, snap in (('requests', hl[-1]), ('sensors', sl)):
            new = defs(kind, snap, hints)
            old = model[kind]
            added = {n for n in new if n not in old or old[n] != new[n]}
            removed = {n for n in old if n not in new or old[n] != new[n]}
            lk = 'sensor-list' if kind == 'sensors' else 'help'
            looked = {n for t, k, n in lookups if k == lk and prev_data <= t <= e['t']}
            got = e['ch'][kind]
            opt = looked - set(old)
            if got['added'] != added or not (removed <= got['removed'] <= removed | opt):
                sim.violation('wrong-changes', 't=%.3f: %s reported added %s removed %s, but the '
                              'model was %s and the device said %s: added %s removed %s'
                              % (e['t'], kind, sorted(got['added']), sorted(got['removed']),
                                 sorted(old), sorted(new), sorted(added), sorted(removed)))
                return
            fold[kind] = (fold[kind] - got['removed']) | got['added']
            if e[kind] != set(new) or fold[kind] != e[kind]:
                sim.violation('wrong-model', 't=%.3f: %s are %s, the device said %s, the reported '
                              'changes add up to %s' % (e['t'], kind, sorted(e[kind]), sorted(new),
                                                       sorted(fold[kind])))
                return
            if added or removed:
                changed += 1
            model[kind] = new
        prev_data = e['t']
    failed = len(dev.failures)
    if 'done' not in res:
        sim.violation('lookup-hangs', 'final lookups did not finish: %r' %
                      [(e['what'], e['name'], e['exc']) for e in res.get('objs', ())])
        return
    if not res['synced']:
        sim.violation('not-converged', 'at t=%.3f the client is in state %r, %.1f s after the last '
                      'fault' % (sc['end'], res['state'], sc['end'] - sc['ops'][-1][0]))
        return
    for kind, truth in (('sensors', dev.sens), ('requests', dev.reqs)):
        if res[kind] != set(truth):
            sim.violation('not-converged', '%s are %s, the device has %s' %
                          (kind, sorted(res[kind]), sorted(truth)))
            return
        if fold[kind] != set(truth):
            sim.violation('changes-lost', 'reported changes of %s add up to %s, the device has %s' %
                          (kind, sorted(fold[kind]), sorted(truth)))
            return
    for e in res['objs']:
        what, n = e['what'], e['name']
        table = dev.sens if what == 's' else dev.reqs
        if e['exc']:
            sim.violation('lookup-failed', 'lookup of %s %s: %s' % (what, n, e['exc']))
        elif (e['obj'] is not None) != (n in table):
            sim.violation('lookup-wrong', '%s %s: got %s' % (what, n, e['obj'] is not None))
        elif e['obj'] is not None:
            if what == 's':
                bad = I.sensor_mismatch(e['obj'], n, table[n])
            else:
                bad = I.request_mismatch(e['obj'], n, table[n], hint_proto)
            if bad:
                sim.violation('stale-object', '%s %s has %s' % (what, n, bad))
    for e in w.lookups:
        if e['end'] is None:
            sim.violation('lookup-hangs', 'lookup of %s %s at t=%.3f never ended' %
                          (e['what'], e['name'], e['t']))
    sim.probe('inspections accepted', accepted)
    sim.probe('inspections with changes', changed)
    sim.probe('inspection failures', failed)
    if accepted >= 2 and (changed >= 2 or failed):
        sim.nontrivial = True
