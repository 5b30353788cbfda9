"""C02: exactly one reply per request, own connection, id echoed, informs before reply."""
from sim import world
from props import serverlib as S

ID = 'C02'
SHRINK = ['ops']
RULE = ('random pipelined requests of all handler kinds from 1-4 raw clients with network '
        'segmentation, delays, short reads/writes, partitions that heal, paused readers, other '
        'clients being reset/closed/vanishing, loop stalls; non-trivial: >=2 requests were '
        'outstanding together or a fault fired')
REAL = ['katcp.server', 'katcp.core', 'katcp.kattypes', 'tornado ioloop/iostream/tcpserver/gen']
STUB = ['TCP sockets and poller', 'clock', 'clients (scripted)']

KINDS = list(S.OK_KINDS) * 2 + list(S.OWN_KINDS) + ['r-cached'] * 2 + list(S.FAIL_KINDS)


def gen(rng, tier):
    nclients = rng.randint(1, 4)
    ops = []
    intact = []
    for ci in range(nclients):
        name = 'c%d' % ci
        t = rng.choice([0.0, 0.01, rng.uniform(0, 0.5)])
        ops.append([t, name, 'connect'])
        kinds = KINDS if rng.random() < 0.7 else [rng.choice(KINDS) for _ in range(3)]
        kinds = kinds + ['r-cnever'] * rng.choice([0, 0, 1])
        reqs = S.gen_requests(rng, name, rng.randint(1, 12 if tier == 'quick' else 25), kinds)
        i = 0
        pace = rng.choice([0, 0.001, 0.02, 0.3])
        while i < len(reqs):
            n = rng.choice([1, 1, 2, 5, 12])
            batch = ''.join(r[0] for r in reqs[i:i + n])
            i += n
            t += rng.uniform(0, pace) if pace else 0
            ops.append([round(t, 6), name, 'send', batch])
        tend = t
        if rng.random() < 0.45 and ci > 0:
            kind = rng.choice(['close', 'finish', 'half', 'reset', 'vanish', 'noread'])
            ops.append([round(rng.uniform(0, tend + 0.3), 6), name, kind])
        else:
            intact.append(name)
            if rng.random() < 0.25:
                t0 = rng.uniform(0, tend + 0.1)
                ops.append([round(t0, 6), name, 'noread'])
                ops.append([round(t0 + rng.uniform(0, 3), 6), name, 'read'])
            if rng.random() < 0.2:
                t0 = rng.uniform(0, tend + 0.1)
                ops.append([round(t0, 6), name, 'hold'])
                ops.append([round(t0 + rng.uniform(0, 3), 6), name, 'heal'])
    if rng.random() < 0.2:
        ops.append([round(rng.uniform(0, 1), 6), '@', 'stall', rng.choice([0.05, 0.5, 2])])
    ops.sort(key=lambda o: o[0])
    conf = world.gen_net(rng)
    if rng.random() < 0.2:
        conf['bufsize'] = rng.choice([64, 300, 2000])
    return {'ops': ops, 'intact': intact, 'net': conf}


def run(sim, sc):
    w = S.ServerWorld(sim)
    w.schedule(sc['ops'])
    until = max([o[0] for o in sc['ops']] or [0]) + 25
    w.run(until)
    check(sim, w, sc)


def requests_of(sent):
    lines, _rest = S.parse_sent(sent)
    return [world.parse_line(l) for l in lines]


def check(sim, w, sc):
    overlap = 0
    for name, c in w.clients.conns.items():
        reqs = requests_of(w.clients.sent[name])
        by_mid = {r[2]: i for i, r in enumerate(reqs) if r[2]}
        by_tag = {r[3][0]: i for i, r in enumerate(reqs)}
        replies = {}
        informs = {}
        for t, g, p, line in world.parsed(c):
            if p is None:
                sim.violation('garbled-line', '%s received unparsable %r' % (name, line))
                continue
            mtype, nm, mid, args = p
            if nm in ('version-connect', 'log', 'disconnect'):
                continue
            i = None
            if mid is not None:
                i = by_mid.get(mid)
            else:
                for tag, k in by_tag.items():
                    if reqs[k][1] == nm and reqs[k][2] is None and \
                            any(a == tag or a.endswith(b' ' + tag) or
                                b'boom ' + tag + b'\n' in a + b'\n' or
                                b"boom " + tag + b"'" in a for a in args):
                        i = k
                        break
                if i is None and mtype == '!' and (nm == 'r-cached' or args[:1] == [b'fail']):
                    cand = [k for k, r in enumerate(reqs) if r[1] == nm and r[2] is None
                            and k not in replies and
                            (nm in S.FAIL_ANY or nm == 'r-cached')]
                    if cand:
                        i = cand[0]
            if i is None:
                sim.violation('stray', '%s received %r that answers none of its requests'
                              % (name, line))
                continue
            r = reqs[i]
            if nm != r[1] or mid != r[2]:
                sim.violation('wrong-id', '%s: %r does not carry name/id of %r' % (name, line, r))
                continue
            if mtype == '#':
                if i in replies:
                    sim.violation('inform-after-reply', '%s: %r after reply' % (name, line))
                informs.setdefault(i, []).append(args)
            elif mtype == '!':
                replies.setdefault(i, []).append(args)
                if len(replies[i]) > 1:
                    sim.violation('duplicate-reply', '%s: second reply %r to %r' % (name, line, r))
                pred, desc = S.expected_reply(nm, r[3])
                if pred is None:
                    sim.violation('unexpected-reply', '%s: %r to %r' % (name, line, r))
                elif not pred(args):
                    sim.violation('wrong-reply', '%s: reply %r to %r, expected %s' %
                                  (name, line, r, desc))
                exp = [[r[3][0], str(k).encode()] for k in range(S.n_informs(nm, r[3]))]
                if nm not in S.FAIL_ANY and informs.get(i, []) != exp:
                    sim.violation('informs', '%s: informs %r before reply to %r, expected %r' %
                                  (name, informs.get(i, []), r, exp))
            else:
                sim.violation('stray', '%s received %r' % (name, line))
        if name in sc['intact'] and not c.closed_locally:
            if c.eof is not None:
                sim.violation('dropped', 'connection of %s closed by the server: %r' % (name, c.eof))
                continue
            for i, r in enumerate(reqs):
                if i not in replies and r[1] not in ('r-cnever', 'r-never'):
                    sim.violation('missing-reply', '%s: no reply to %r' % (name, r))
        if len(reqs) > 1:
            overlap += 1
    ends = [(c['start'], c['end']) for c in w.dev.calls if c['end']]
    ends.sort()
    for a, b in zip(ends, ends[1:]):
        if b[0] < a[1]:
            sim.probe('overlapping requests')
            break
    sim.probe('replies', sum(len(world.parsed(c)) for c in w.clients.conns.values()))
