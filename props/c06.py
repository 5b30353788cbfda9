"""C06: size limits on what clients send and on what they do not read."""
from sim import world
from sim.world import katcp as k
import katcp.server
from props import serverlib as S

ID = 'C06'
SHRINK = ['ops', 'clients']
RULE = ('limits shrunk to 64..4096 bytes; clients that send lines around the limit one at a time, '
        'pipeline short lines, overrun the limit after and during other requests, stop reading with '
        'less or more than the write limit outstanding, next to a probe client; segmentation, short '
        'reads and writes, small socket buffers')
REAL = ['katcp.server', 'katcp.core', 'tornado ioloop/iostream/tcpserver/gen']
STUB = ['TCP sockets and poller', 'clock', 'clients (scripted)',
        'KATCPServer.MAX_MSG_SIZE / MAX_WRITE_BUFFER_SIZE lowered (documented as settable)']
RUNS = {'quick': 1500, 'thorough': 60000}
ASSUME = ['a line of exactly the limit plus its terminator may be treated either way']


class Dev6(S.Dev):
    def request_x_sink(self, req, msg):
        """takes any arguments, short reply"""
        rec = self._begin(req, msg)
        self._end(rec)
        return req.make_reply('ok', msg.arguments[0])

    @world.gen.coroutine
    def request_x_cosink(self, req, msg):
        """takes any arguments, short reply"""
        rec = self._begin(req, msg)
        yield world.gen.sleep(0.02)
        self._end(rec)
        raise world.gen.Return(req.make_reply('ok', msg.arguments[0]))

    def request_x_out(self, req, msg):
        """x-out tag count size: count informs of `size` bytes each, then ok"""
        rec = self._begin(req, msg)
        tag, n, size = self._p(msg)
        self._end(rec)
        for i in range(n):
            req.inform(tag, str(i), 'y' * size)
        return req.make_reply('ok', tag)


def gen(rng, tier):
    M = rng.choice([64, 100, 256, 1000, 4096])
    W = rng.choice([2000, 5000, 20000])
    clients = {}
    ops = []
    net = world.gen_net(rng)
    net['bufsize'] = rng.choice([400, 3000, 1 << 20])
    if net.get('seg'):
        net['seg'] = max(net['seg'], M // 16)
    kinds = ['exact', 'pipe', 'over', 'over', 'bigpipe', 'slow', 'slow', 'lazy']
    for ci in range(rng.randint(1, 4)):
        name = 'c%d' % ci
        kind = rng.choice(kinds)
        c = {'kind': kind}
        t = round(rng.uniform(0, 0.3), 6)
        ops.append([t, name, 'connect'])
        t += 0.5
        if kind == 'exact':
            # one line at a time, sized up to the limit (terminator included)
            lines = []
            for j in range(rng.randint(1, 5)):
                pre = '?x-sink[%d] %s.%d ' % (j + 1, name, j)
                total = rng.choice([M, M - 1, rng.randint(len(pre) + 3, M), M // 2, M // 4])
                total = max(total, len(pre) + 2)
                lines.append(pre + 'z' * (total - len(pre) - 1) + rng.choice('\n\n\r'))
            c['lines'] = lines
        elif kind in ('pipe', 'bigpipe'):
            lines = []
            lo, hi = (0, M // 4) if kind == 'pipe' else (M // 4, M)
            for j in range(rng.randint(2, 12)):
                pre = '?x-%s[%d] %s.%d ' % (rng.choice(['sink', 'sink', 'cosink']), j + 1, name, j)
                n = rng.randint(lo, hi) - len(pre) - 1
                if n < 1:
                    pre = '?x-sink[%d] %s.%d' % (j + 1, name, j)
                    n = 0
                lines.append(pre + 'z' * n + '\n')
            if kind == 'pipe' and max(map(len, lines)) > M // 4:
                lines = [l for l in lines if len(l) <= M // 4] or ['#n\n']
            c['lines'] = lines
            c['maxline'] = max(map(len, lines))
            data = ''.join(lines)
            i = 0
            while i < len(data):
                n = rng.choice([len(data), rng.randint(1, M), rng.randint(1, 2 * M)])
                ops.append([round(t, 6), name, 'send', data[i:i + n]])
                i += n
                t += rng.choice([0, 0, 0.001, 0.05])
        elif kind == 'over':
            pre = ''
            for j in range(rng.randint(0, 4)):
                pre += S.req_line(rng.choice(['r-sync', 'r-co', 'r-conc', 'r-raise']), str(j + 1),
                                  '%s.%d' % (name, j), rng.choice([0, 0, 30]), 0)
            junk = rng.choice(['?r-sync[99] %s.99 0 0 ' % name, 'x', '?', '#a '])
            n = M + 1 + rng.choice([0, 0, 1, M, 3 * M, rng.randint(0, 40)])
            junk = (junk + 'j' * n)[:max(n, M + 1)]
            post = rng.choice(['', '', '\n', '\n?r-sync[50] %s.50 0 0\n' % name])
            data = pre + junk + post
            c['pre'] = pre
            i = 0
            mode = rng.choice(['one', 'two', 'many'])
            while i < len(data):
                if mode == 'one':
                    n = len(data)
                elif mode == 'two':
                    n = len(pre) if i < len(pre) else len(data)
                else:
                    n = rng.randint(1, M)
                n = max(n, 1)
                ops.append([round(t, 6), name, 'send', data[i:i + n]])
                i += n
                t += rng.choice([0, 0.001, 0.1])
            c['end'] = t
        else:
            # stops reading; total output below W (lazy) or above W + bufsize (slow)
            ops.append([round(t - 0.01, 6), name, 'noread'])
            size = rng.choice([10, 100, min(1500, W // 4)])
            budget = W - 1500 if kind == 'lazy' else W + net['bufsize'] + 3000
            if kind == 'slow' and net['bufsize'] > 10000:
                size = max(size, 1000)
                for o in ops:
                    pass
            total = 0
            j = 0
            lim = 60
            while True:
                n = rng.randint(1, 8) if budget < 40000 else 200
                cost = n * (size + 45) + 60 if kind == 'lazy' else n * size
                if kind == 'lazy' and total + cost > budget:
                    break
                ops.append([round(t, 6), name, 'send',
                            '?x-out[%d] %s.%d %d %d\n' % (j + 1, name, j, n, size)])
                total += cost
                j += 1
                t += rng.choice([0, 0.002, 0.1])
                if kind == 'slow' and total > budget:
                    break
                if j > lim and kind == 'lazy':
                    break
            c['end'] = t
            c['n'] = j
            if rng.random() < 0.7 or kind == 'lazy':
                ops.append([round(t + rng.choice([0.01, 2.0]), 6), name, 'read'])
        clients[name] = c
    ops.append([0, 'p', 'connect'])
    for j in range(rng.randint(3, 10)):
        ops.append([round(rng.uniform(0.4, 3), 6), 'p', 'send', '?r-sync p.%d 0 0\n' % j])
    if rng.random() < 0.3:
        ops.append([round(rng.uniform(0.5, 1.5), 6), '@', 'mass', 5])
    ops.sort(key=lambda o: o[0])
    return {'ops': ops, 'clients': sorted([n, c] for n, c in clients.items()), 'net': net, 'M': M,
            'W': W}


class World6(S.ServerWorld):
    def dev_mass(self, size):
        self.dev.mass_inform(k.Message.inform('mass', 'x' * size))


def run(sim, sc):
    KS = katcp_server = katcp.server.KATCPServer
    old = KS.MAX_MSG_SIZE, KS.MAX_WRITE_BUFFER_SIZE
    try:
        KS.MAX_MSG_SIZE = sc['M']
        KS.MAX_WRITE_BUFFER_SIZE = sc['W']
        w = World6(sim, Dev6)
        w.schedule(sc['ops'])
        cl = dict((n, c) for n, c in sc['clients'])
        peak = {}

        def watch(name):
            # bytes the server has taken from this client but cannot have acted on
            c = w.clients.conns.get(name)
            if c is not None and c.ep.peer is not None:
                peak[name] = max(peak.get(name, 0), c.ep.peer.consumed)
            if sim.now < end:
                sim.after(0.05, watch, name)

        def lockstep(name, c):
            conn = w.clients.conns.get(name)
            if conn is None:
                sim.after(0.05, lockstep, name, c)
                return
            state = {'i': 0}

            def nxt():
                if state['i'] < len(c['lines']):
                    i = state['i']
                    state['i'] += 1
                    sim.at(max(sim.now, 0.5) + 0.01, w.clients.op, name, 'send', c['lines'][i])

            def on_line(conn_, line):
                if line.startswith(b'!'):
                    nxt()
            conn.on_line = on_line
            nxt()
        end = max([o[0] for o in sc['ops']] or [0]) + 15
        for name, c in cl.items():
            if c['kind'] == 'exact':
                sim.after(0.35, lockstep, name, c)
            if c['kind'] == 'over':
                watch(name)
        w.run(end)
        check(sim, w, sc, cl, peak)
    finally:
        KS.MAX_MSG_SIZE, KS.MAX_WRITE_BUFFER_SIZE = old


def check(sim, w, sc, cl, peak):
    calls = {}
    for r in w.dev.calls:
        tag = r['args'][0].decode('latin-1') if r['args'] else ''
        calls.setdefault(tag.split('.')[0], []).append(tag)
    for name, tags in calls.items():
        if len(set(tags)) != len(tags):
            sim.violation('run-again', '%s: requests executed more than once: %r' % (name, tags))
    hooks = {}
    for g, what, conn in w.dev.hooks:
        hooks.setdefault(conn.address, []).append(what)
    for name, conn in w.clients.conns.items():
        kind = cl[name]['kind'] if name in cl else 'probe'
        addr = '%s:%d' % conn.ep.laddr if conn.ep.laddr else None
        hk = hooks.get(addr, [])
        got = calls.get(name, [])
        sent, _ = S.parse_sent(w.clients.sent[name])
        p = [x for x in (try_parse(l) for l in sent) if x]
        want = [x[3][0].decode('latin-1') for x in p if x[0] == '?' and x[3]]
        if hk.count('disconnect') > 1 or hk.count('connect') > 1:
            sim.violation('hooks', '%s: %r' % (name, hk))
        if kind in ('probe', 'pipe', 'exact', 'bigpipe', 'lazy'):
            if conn.eof or 'disconnect' in hk:
                sim.violation('cut-within-limits', '%s (%s) was disconnected: %r, limit %d' % (
                    name, kind, conn.eof, sc['M']))
                continue
            if sorted(got) != sorted(want):
                sim.violation('lost-request', '%s (%s): executed %r of %r' % (
                    name, kind, got, want))
            nrep = sum(1 for t, g, q, l in world.parsed(conn) if q and q[0] == '!')
            if nrep != len(want):
                sim.violation('lost-reply', '%s (%s): %d replies for %d requests' % (
                    name, kind, nrep, len(want)))
            sim.probe('served ' + kind)
        elif kind == 'over':
            pre, _ = S.parse_sent(cl[name]['pre'].encode('latin-1'))
            pretags = [world.parse_line(l)[3][0].decode() for l in pre]
            if got != pretags[:len(got)]:
                sim.violation('invented', '%s: executed %r, valid were %r' % (name, got, pretags))
            full = len(w.clients.sent[name]) > len(cl[name]['pre']) + sc['M']
            if full and not conn.out:
                if conn.eof is None and not conn.closed_locally:
                    sim.violation('not-cut', '%s sent %d bytes without terminator and is still '
                                  'connected (limit %d)' % (
                                      name, len(w.clients.sent[name]) - len(cl[name]['pre']),
                                      sc['M']))
                else:
                    sim.fault('oversized_line')
                    if hk != ['connect', 'disconnect']:
                        sim.violation('hooks', '%s: %r' % (name, hk))
            if peak.get(name, 0) > len(cl[name]['pre']) + 5 * sc['M'] + 8:
                sim.violation('unbounded-read', '%s: %d bytes read without terminator (limit %d)'
                              % (name, peak[name], sc['M']))
        elif kind == 'slow':
            need = 0
            for x in p:
                if x[1] == 'x-out' and x[3][0].decode() in got:
                    need += int(x[3][1]) * int(x[3][2])
            resumed = conn.reading
            if need > sc['W'] + sc['net']['bufsize'] and not resumed:
                sim.fault('reader_over_limit')
                if hk != ['connect', 'disconnect']:
                    sim.violation('not-cut', '%s does not read %d bytes (limit %d) and is still '
                                  'connected' % (name, need, sc['W']))
            if conn.eof is None and resumed and 'disconnect' in hk:
                sim.violation('half-dead', '%s: disconnected but socket still open' % name)
        # whatever arrived must be intact and in order
        seen = {}
        for i, (t, g, line) in enumerate(conn.lines):
            if not line:
                continue
            q = try_parse(line)
            if q is None:
                sim.violation('garbled-line', '%s: %r' % (name, line[:200]))
            elif q[1] == 'x-out' and q[0] == '#':
                tag = q[3][0]
                if int(q[3][1]) != seen.get(tag, -1) + 1:
                    sim.violation('inform-order', '%s: %r after %r' % (name, q[3][:2],
                                                                      seen.get(tag)))
                seen[tag] = int(q[3][1])


def try_parse(l):
    try:
        return world.parse_line(l)
    except world.BadLine:
        return None
