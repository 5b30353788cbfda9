"""C01: server executes exactly the complete well-formed lines sent, however TCP cuts them up."""
from sim import world
from props import serverlib as S

ID = 'C01'
SHRINK = ['ops']
RULE = ('random byte streams of well-formed, blank, malformed, CR/LF/CRLF-terminated and '
        'unterminated lines with arbitrary escaped argument bytes, cut into random writes and '
        'TCP segments, several clients; ended by nothing, FIN, close, RST, half-close at random '
        'byte positions')
REAL = ['katcp.server', 'katcp.core', 'katcp.kattypes', 'tornado ioloop/iostream/tcpserver/gen']
STUB = ['TCP sockets and poller', 'clock', 'clients (scripted)']
RUNS = {'quick': 1500, 'thorough': 60000}

SPECIALS = [0, 9, 10, 13, 27, 32, 92, 64, 0x2f, 65, 97, 110, 200, 255, 0xc3, 0xa9, 33, 35, 63, 91]


def rand_arg(rng):
    r = rng.random()
    if r < 0.15:
        return b''
    if r < 0.3:
        return bytes(rng.randrange(256) for _ in range(rng.randint(1, 20)))
    return bytes(rng.choice(SPECIALS) for _ in range(rng.randint(1, 8)))


def bad_line(rng):
    good = b'?r-sync x 0 0'
    c = rng.randrange(15)
    if c == 0:
        return b'r-sync x 0 0'
    if c == 1:
        return b'?r-sync x\\q 0 0'
    if c == 2:
        return b'?r-sync x 0 0 y\\'
    if c == 3:
        return b'?r_sync x 0 0'
    if c == 4:
        return b'?r-sync[abc] x 0 0'
    if c == 5:
        return b'?r-sync[] x 0 0'
    if c == 6:
        return b'?1sync x 0 0'
    if c == 7:
        return b'?r-sync x 0 0 a\0b'
    if c == 8:
        return b'?r-sync x 0 0 \x1b'
    if c == 9:
        return b'  '
    if c == 10:
        return b' ' + good
    if c == 11:
        return b'?'
    if c == 12:
        return b'\xff\xfe' + good
    if c == 13:
        return b'?r-sync[12 x 0 0'
    return bytes(rng.choice([0x2a, 0x25, 0xe9, 0x20]) for _ in range(rng.randint(1, 6))) + b'?x'


def gen(rng, tier):
    ops = []
    intact = []
    for ci in range(rng.randint(1, 3)):
        name = 'c%d' % ci
        stream = bytearray()
        n = rng.randint(1, 10 if tier == 'quick' else 30)
        mid = 1
        for k in range(n):
            r = rng.random()
            if r < 0.5:
                args = [rand_arg(rng) for _ in range(rng.randint(0, 4))]
                m = None
                if rng.random() < 0.6:
                    m = str(mid)
                    mid += 1
                kind = rng.choice(['r-sync', 'r-sync', 'r-co', 'r-done'])
                line = world.fmt('?', kind, m, '%s.%d' % (name, k),
                                 str(rng.choice([0, 0, 5])), '0', *args)[:-1]
                if rng.random() < 0.25:
                    line = line.replace(b' ', rng.choice([b'  ', b'\t', b' \t ']))
                if rng.random() < 0.1:
                    line += rng.choice([b' ', b'\t', b'  '])
            elif r < 0.65:
                line = b''
            elif r < 0.85:
                line = bad_line(rng)
            elif r < 0.92:
                line = world.fmt(rng.choice('#!'), 'noise', None, '%s.%d' % (name, k))[:-1]
            else:
                line = world.fmt('?', 'nosuch-request', rng.choice([None, '99%d' % k]), 'x')[:-1]
            stream += line + rng.choice([b'\n', b'\n', b'\r\n', b'\r', b'\n\n', b'\n\r'])
        if rng.random() < 0.5:
            stream += rng.choice([b'?r-sync %s.tail 0 0' % name.encode(), b'?r-sy', b'?', b'\\',
                                  b'?r-sync %s.tail 0 0 \\' % name.encode()])
        t = rng.choice([0.0, rng.uniform(0, 0.2)])
        ops.append([round(t, 6), name, 'connect'])
        # cut into writes
        pos = 0
        style = rng.choice(['whole', 'few', 'many', 'bytes'])
        while pos < len(stream):
            if style == 'whole':
                step = len(stream)
            elif style == 'few':
                step = rng.randint(1, max(1, len(stream) // 2))
            elif style == 'many':
                step = rng.randint(1, 12)
            else:
                step = 1 if rng.random() < 0.7 else rng.randint(1, 30)
            t += rng.choice([0, 0, 0.0005, rng.uniform(0, 0.05)])
            ops.append([round(t, 6), name, 'send', bytes(stream[pos:pos + step]).decode('latin-1')])
            pos += step
        end = rng.choice(['none', 'none', 'none', 'finish', 'close', 'reset', 'half', 'early'])
        if end == 'none':
            intact.append(name)
        elif end == 'early':
            ops.append([round(rng.uniform(0, t + 0.01), 6), name,
                        rng.choice(['finish', 'close', 'reset', 'half'])])
        else:
            ops.append([round(t + rng.choice([0, 0.001, 0.3]), 6), name, end])
    if rng.random() < 0.15:
        ops.append([round(rng.uniform(0, 0.3), 6), '@', 'stall', rng.choice([0.02, 0.5])])
    ops.sort(key=lambda o: o[0])
    return {'ops': ops, 'intact': intact, 'net': world.gen_net(rng),
            'port': rng.choice([S.PORT, S.PORT, 0])}


def run(sim, sc):
    w = S.ServerWorld(sim, port=sc.get('port', S.PORT))
    w.schedule(sc['ops'])
    w.run(max([o[0] for o in sc['ops']] or [0]) + 12)
    check(sim, w, sc)


def classify(lines):
    """-> [(kind, parsed)] per non-blank line"""
    out = []
    for l in lines:
        try:
            p = world.parse_line(l)
        except world.BadLine:
            out.append(('bad', l))
            continue
        if p[0] == '?':
            out.append(('req', p))
        else:
            out.append(('other', p))
    return out


def check(sim, w, sc):
    calls = {}
    for c in w.dev.calls:
        tag = c['args'][0] if c['args'] else b''
        calls.setdefault(tag.split(b'.')[0].decode('latin-1'), []).append(c)
    for name in calls:
        if name not in w.clients.conns:
            sim.violation('invented', 'handler called for no client: %r' % calls[name])
    for name, c in w.clients.conns.items():
        lines, rest = S.parse_sent(w.clients.sent[name])
        items = classify(lines)
        exp = [(p[1], p[2], p[3]) for k, p in items if k == 'req' and p[1] != 'nosuch-request']
        got = [(x['kind'], x['mid'].decode() if x['mid'] is not None else None, x['args'])
               for x in calls.get(name, [])]
        if got != exp[:len(got)]:
            i = 0
            while i < len(got) and i < len(exp) and got[i] == exp[i]:
                i += 1
            sim.violation('wrong-execution', '%s: execution %d was %r, expected %r' % (
                name, i, got[i], exp[i] if i < len(exp) else 'nothing'))
            continue
        odd = [p for k, p in items if k == 'other']
        if name not in sc['intact'] or c.closed_locally:
            sim.probe('cut streams')
            continue
        if c.eof is not None:
            sim.violation('dropped', '%s: connection closed by server %r' % (name, c.eof))
            continue
        if len(got) != len(exp):
            sim.violation('not-executed', '%s: %d of %d requests executed; next was %r' % (
                name, len(got), len(exp), exp[len(got)]))
            continue
        gotodd = [a for k, a in w.dev.odd if a and a[0].split(b'.')[0] == name.encode()]
        if gotodd != [p[3] for p in odd]:
            sim.violation('wrong-execution', '%s: informs/replies handled %r, expected %r' % (
                name, gotodd, [p[3] for p in odd]))
        # responses in line order
        resp = [p for t, g, p, l in world.parsed(c)]
        resp = [p for p in resp if p is None or p[1] not in ('version-connect',)]
        want = []
        for k, p in items:
            if k == 'req':
                if p[1] == 'nosuch-request':
                    want.append(('invalid', p))
                else:
                    want.append(('reply', p))
            elif k == 'bad':
                want.append(('error', p))
                sim.probe('malformed lines')
        ok = len(resp) == len(want)
        for r, (k, p) in zip(resp, want):
            if r is None:
                ok = False
            elif k == 'reply':
                ok = ok and r == ('!', p[1], p[2], [b'ok'] + p[3])
            elif k == 'invalid':
                ok = ok and r[:3] == ('!', p[1], p[2]) and r[3][:1] == [b'invalid']
            else:
                ok = ok and r[0] == '#' and r[1] == 'log' and r[3][:1] == [b'error']
            if not ok:
                sim.violation('wrong-response', '%s: received %r for %r' % (name, r, (k, p)))
                break
        else:
            if not ok:
                sim.violation('wrong-response', '%s: %d responses, expected %d: %r vs %r' % (
                    name, len(resp), len(want), resp[-2:], want[-2:]))
        sim.probe('executed', len(got))
