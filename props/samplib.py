"""Sampling world and reference model shared by C09-C12."""
import threading
from sim import world
from sim.world import gen as tgen, katcp
from katcp import Sensor, ProtocolFlags
from props import serverlib as S

ST = {'unknown': Sensor.UNKNOWN, 'nominal': Sensor.NOMINAL, 'warn': Sensor.WARN,
      'error': Sensor.ERROR, 'failure': Sensor.FAILURE, 'unreachable': Sensor.UNREACHABLE,
      'inactive': Sensor.INACTIVE}
BIG = 1 << 60
LAG = 0.0003        # a few turns of the loop between making and writing an inform
TOL = 0.0021        # timers of the loops may be rounded up to a millisecond


def make_sensor(name):
    k = name[1]
    if k == 'i':
        return Sensor.integer(name, 'int', 'count', [-1000, 1000])
    if k == 'f':
        return Sensor.float(name, 'float', 'm', [-1e3, 1e3])
    if k == 'd':
        return Sensor.discrete(name, 'disc', '', ['on', 'off', 'lost'])
    if k == 'b':
        return Sensor.boolean(name, 'bool')
    if k == 's':
        return Sensor.string(name, 'str')
    if k == 't':
        return Sensor.timestamp(name, 'ts')
    raise ValueError(name)


def gen_value(rng, name):
    k = name[1]
    if k == 'i':
        return rng.choice([0, 1, 2, 3, rng.randint(-50, 50)])
    if k == 'f':
        return rng.choice([0.0, 0.5, 1.0, 1.25, round(rng.uniform(-5, 5), 3)])
    if k == 'd':
        return rng.choice(['on', 'off', 'lost'])
    if k == 'b':
        return rng.choice([True, False])
    if k == 's':
        return rng.choice(['', 'a', 'a b', 'b\n', 'x' * 50, '\u00e9'])
    return rng.choice([0.0, 1.5e9, 1.5e9 + 0.25, round(rng.uniform(0, 10), 2)])


def gen_update(rng, name):
    return [rng.choice(['nominal'] * 4 + ['warn', 'error', 'unknown', 'failure']),
            gen_value(rng, name)]


def fmt_value(name, v):
    k = name[1]
    if k == 'b':
        return b'1' if v else b'0'
    if k == 'i':
        return str(v).encode()
    if k in 'ft':
        return None
    return v.encode('utf-8')


class SampMixin(object):
    """Adds the ledger of sensor updates and of sampling requests."""
    names = ()

    def sensors_cfg(self, dev):
        self.ledger = {}        # (name, version) -> [update records]
        self.ver_of = {}
        self.objs = {}
        self.reqs = []
        self.removals = []
        self.all_objs = []
        self.churn = []         # (stamp, name): sensors added or removed
        self.nupd = 0
        for n in self.names:
            self.new_sensor(n)

    def new_sensor(self, name):
        v = self.ver_of[name] = self.ver_of.get(name, -1) + 1
        s = self.objs[name] = make_sensor(name)
        self.all_objs.append(s)
        self.ledger[(name, v)] = []
        self.do_set(name, 'unknown', s.value())
        self.churn.append((self.sim.stamp(), name))
        self.add_sensor(s)

    def do_set(self, name, status, value, how=0):
        key = (name, self.ver_of[name])
        self.nupd += 1
        n = self.nupd
        ts = 1.4e9 + n * 0.25
        s = self.objs[name]
        rec = {'g0': self.sim.stamp(), 't0': self.sim.now, 'g1': BIG, 't1': 1e9, 'ts': ts,
               'status': status, 'value': value}
        self.ledger[key].append(rec)
        if how == 1:
            s.set_value(value, ST[status], ts)
        elif how == 2:
            f = s.format_reading((ts, ST[status], value))
            s.set_formatted(*f)
        else:
            s.set(ts, ST[status], value)
        rec['g1'] = self.sim.stamp()
        rec['t1'] = self.sim.now
        self.sim.log('set', name, n)

    def do_remove(self, name):
        if name not in self._sensors:
            return
        rec = {'g0': self.sim.stamp(), 't0': self.sim.now, 'g1': BIG, 'name': name,
               'version': self.ver_of[name]}
        self.removals.append(rec)
        self.churn.append((self.sim.stamp(), name))
        self.remove_sensor(name)
        self.ioloop.add_callback(lambda: rec.__setitem__('g1', self.sim.stamp()))

    def do_readd(self, name):
        if name not in self._sensors:
            self.new_sensor(name)

    def _note(self, req, msg, fn, clear=False):
        rec = {'g0': self.sim.stamp(), 't0': self.sim.now, 'g1': BIG, 't1': 1e9,
               'conn': req.client_connection, 'mid': msg.mid.decode() if isinstance(msg.mid, bytes) else msg.mid,
               'args': [a for a in msg.arguments], 'clear': clear,
               'present': set(self._sensors), 'versions': dict(self.ver_of)}
        self.reqs.append(rec)

        def done(f):
            rec['g1'] = self.sim.stamp()
            rec['t1'] = self.sim.now
        f = fn(self, req, msg)
        f.add_done_callback(done)
        return f

    def request_sensor_sampling(self, req, msg):
        """sampling"""
        return self._note(req, msg, katcp.DeviceServer.request_sensor_sampling)

    def request_sensor_sampling_clear(self, req, msg):
        """clear"""
        return self._note(req, msg, katcp.DeviceServer.request_sensor_sampling_clear, True)

    def request_upd(self, req, msg):
        """update a sensor from a request handler: name status times"""
        name = msg.arguments[0].decode()
        for i in range(int(msg.arguments[2])):
            self.do_set(name, msg.arguments[1].decode(), self.objs[name].value())
        return req.make_reply('ok')


class LoopDev(SampMixin, S.Dev):
    pass


class ThreadDev(SampMixin, S.Dev, katcp.DeviceServer):
    def __init__(self, *a, **kw):
        katcp.DeviceServer.__init__(self, *a, **kw)


class SampWorld(S.ServerWorld):
    managed = False
    left_at = None      # stamp when all clients were made to leave

    def _devop(self, kind, *args):
        if kind == 'stall':
            self.__dict__.setdefault('stalls', []).append((self.sim.now, self.sim.now + args[0]))
        S.ServerWorld._devop(self, kind, *args)

    def in_loop(self, fn, *args):
        loop = self.dev.ioloop if self.managed else self.loop
        if loop is not None:
            loop.add_callback(fn, *args)

    def dev_set(self, name, status, value, how=0, times=1):
        for _ in range(times):
            self.dev.do_set(name, status, value, how)

    def dev_sets(self, items):
        for name, status, value in items:
            self.dev.do_set(name, status, value)

    def dev_remove(self, name):
        self.dev.do_remove(name)

    def dev_readd(self, name):
        self.dev.do_readd(name)


def maybe_v4(rng, sc):
    """Turn some scenarios into ones for a katcp v4 device: times in (whole) milliseconds."""
    if sc.get('bulk') or rng.random() > 0.15:
        return sc
    sc['v4'] = True
    for o in sc['ops']:
        if o[2:3] == ['send'] and o[3].startswith('?sensor-sampling['):
            f = o[3].split()
            if len(f) == 4 and f[2] == 'period' and num(f[3]) and 0 < num(f[3]) < 4:
                f[3] = str(max(3, int(round(num(f[3]) * 1000))) if rng.random() < 0.8 else
                           rng.randint(4000, 100000))
            elif len(f) > 2 and f[2] == 'differential' and f[1][1] == 't':
                f[2:] = ['event']
            o[3] = ' '.join(f) + '\n'
    return sc


def world_for(sim, sc):
    names = sc['names']

    class D(ThreadDev if sc['managed'] else LoopDev):
        pass
    D.names = names
    if sc.get('bulk'):
        D.PROTOCOL_INFO = ProtocolFlags(5, 1, [ProtocolFlags.MULTI_CLIENT,
                                               ProtocolFlags.MESSAGE_IDS,
                                               ProtocolFlags.BULK_SET_SENSOR_SAMPLING])
    if sc.get('v4'):
        D.PROTOCOL_INFO = ProtocolFlags(4, 0, [ProtocolFlags.MULTI_CLIENT])
        sim.probe('v4 devices')
    if not sc['managed']:
        w = SampWorld(sim, D, start=False)
        w.dev.start()
        return w
    w = SampWorld.__new__(SampWorld)
    w.sim, w.managed, w.loop = sim, True, None
    w.clients = world.Clients(sim, S.PORT)
    w.dev = D('127.0.0.1', S.PORT)
    w.dev.set_concurrency_options(thread_safe=True, handler_thread=sc['handler_thread'])
    w.dev.start(timeout=5)
    return w


def execute(sim, sc, tail=3.0, before_stop=None, on_world=None):
    w = world_for(sim, sc)
    if on_world:
        on_world(w)
    until = max([o[0] for o in sc['ops']] + [0]) + tail
    for t, off in sc.get('clock', []):
        sim.at(t, step_clock, sim, off)
    if not sc['managed']:
        w.schedule(sc['ops'])
        if before_stop:
            sim.at(until, w.loop.add_callback, before_stop, w)
            until += 4
        w.run(until)
        return w
    w.schedule([[o[0] + sim.now] + o[1:] for o in sc['ops']])

    def worker(seq):
        for item in seq:
            if item[0]:
                sim.sleep(item[0])
            w.dev.do_set(*item[1:])
    ts = []
    for seq in sc['threads']:
        th = threading.Thread(target=worker, args=(seq,))
        th.start()
        ts.append(th)
    for th in ts:
        th.join()
    if until > sim.now:
        sim.sleep(until - sim.now)
    sim.sleep(1.5)
    if before_stop:
        w.dev.ioloop.add_callback(before_stop, w)
        sim.sleep(4)
    w.stop_called = sim.stamp()
    w.dev.stop()
    w.dev.join(20)
    return w


def step_clock(sim, off):
    sim.fault('clock_step')
    sim.clock_offset += off


# -- reference model ---------------------------------------------------------
def split_names(arg, bulk):
    return arg.decode().split(',') if bulk else [arg.decode()]


def judge(req, bulk, cur):
    """Expected outcome of a sampling request.

    cur: {name: (strategy, [params])} currently in force for this client.
    -> (reply args or None for 'fail', {name: (strategy, params)} changes)"""
    args = req['args']
    if req['clear']:
        return [b'ok'], {n: (b'none', []) for n in list(cur)}
    if not args:
        return None, {}
    is_bulk = bulk and (b',' in args[0] or len(args) > 1)
    names = split_names(args[0], is_bulk)
    if any(n not in req['present'] for n in names):
        return None, {}
    if len(args) == 1:
        if is_bulk:
            return None, {}
        s, p = cur.get(names[0], (b'none', []))
        return [b'ok', args[0], s] + p, {}
    strat, params = args[1], args[2:]
    for n in names:
        if not valid(strat, params, n):
            return None, {}
    return [b'ok', args[0], strat] + params, {n: (strat, params) for n in names}


def num(b):
    try:
        return float(b)
    except ValueError:
        return None


def valid(strat, params, name):
    k = name[1]
    if strat in (b'none', b'auto', b'event'):
        return not params
    vals = [num(p) for p in params]
    if any(v is None or v != v for v in vals):
        return False
    if strat == b'period':
        return len(vals) == 1 and vals[0] > 0
    if strat == b'differential':
        if len(vals) != 1 or k not in 'ift' or not vals[0] > 0:
            return False
        return k != 'i' or isint(params[0])
    if strat == b'event-rate':
        return len(vals) == 2 and 0 <= vals[0] <= vals[1]
    if strat == b'differential-rate':
        if len(vals) != 3 or k not in 'if' or not 0 <= vals[1] <= vals[2] or not vals[0] > 0:
            return False
        return k != 'i' or isint(params[0])
    return False


def isint(b):
    try:
        int(b)
        return True
    except ValueError:
        return False


def idx_lo(upd, g):
    """Last update certainly in force at stamp g."""
    r = 0
    for i, u in enumerate(upd):
        if u['g1'] <= g:
            r = i
    return r


def idx_hi(upd, g):
    """Last update possibly in force at stamp g."""
    r = 0
    for i, u in enumerate(upd):
        if u['g0'] <= g:
            r = i
    return r


def differs(strat, params, name, a, b):
    """Whether update b must be reported when a was last sent."""
    if a['status'] != b['status']:
        return True
    if strat in (b'differential', b'differential-rate'):
        thr = int(params[0]) if name[1] == 'i' else float(params[0])
        return abs(b['value'] - a['value']) > thr
    return a['value'] != b['value']


class Sub(object):
    """One accepted subscription of one client to one sensor version."""
    def __init__(self, name, version, strat, params, req):
        self.name, self.version = name, version
        self.strat, self.params = strat, params
        self.req = req
        self.e, self.r = (req['g0'], req['g1']) if req else (0, 0)
        self.te, self.tr = (req['t0'], req['t1']) if req else (0, 0)
        self.e2, self.r2 = BIG, BIG     # may end from e2 on, has ended by r2
        self.te2, self.tr2 = 1e9, 1e9

    def __repr__(self):
        return '%s %s (requested at %.4f)' % (self.strat.decode(),
                                              b' '.join(self.params).decode(), self.te)


def check_exact(sub, lines, upd, intact, managed):
    """auto, event, differential: exact sequence. lines: [(t, idx)]. -> error or None"""
    if not lines:
        return None if not intact else 'no initial reading'
    i = lines[0][1]
    lo = idx_lo(upd, sub.e)
    if not lo <= i <= max(idx_hi(upd, sub.r), lo):
        return 'initial reading is update %d, expected %d..%d' % (i, lo, idx_hi(upd, sub.r))
    must_to = idx_lo(upd, sub.e2)
    may_to = idx_hi(upd, sub.r2)
    starts = [i + 1]
    if managed:
        starts += list(range(i, lo, -1))
    err = None
    got = [x[1] for x in lines[1:]]
    for j0 in starts:
        last = upd[i]
        exp = []
        for j in range(j0, len(upd)):
            if sub.strat == b'auto' or differs(sub.strat, sub.params, sub.name, last, upd[j]):
                exp.append(j)
                last = upd[j]
        if got != exp[:len(got)]:
            bad = [k for k in range(len(got)) if k >= len(exp) or got[k] != exp[k]][0]
            e = 'after initial reading %d received updates %s, expected %s' % (
                i, got[max(0, bad - 3):bad + 3], exp[max(0, bad - 3):bad + 3])
        elif got and got[-1] > may_to:
            e = 'update %d was sent although the strategy had ended (at update %d)' % (
                got[-1], may_to)
        elif intact and len(got) < len([j for j in exp if j <= must_to]):
            e = 'update %d was not sent (sent %s)' % (exp[len(got)], got[-5:])
        else:
            return None
        err = err or e
    return err


def check_loose(sub, lines, upd, intact, managed):
    """Readings of a timer driven strategy without looking at the clock."""
    if not lines:
        return None if not intact else 'no initial reading'
    got = [i for _, i in lines]
    if got[0] < idx_lo(upd, sub.e):
        return 'initial reading is update %d, which is older than the subscription' % got[0]
    # updates made by other threads during set-up may be repeated
    first = [i for i in got[1:] if i < got[0]] if managed and sub.strat != b'period' else []
    if first and first[0] < idx_lo(upd, sub.e):
        return 'update %d repeated, which is older than the subscription' % first[0]
    later = [i for i in got if i >= got[0]]
    if later != sorted(later) or first != sorted(first) or len(later) + len(first) != len(got):
        return 'readings go back: %s' % got
    if got[-1] > idx_hi(upd, sub.r2):
        return 'update %d was sent although the strategy had ended' % got[-1]
    return None


def current_ok(upd, t, idx, stalls):
    """Whether update idx can have been the current reading when the inform that
    left the server at time t was made."""
    tmin = made(t, stalls)
    if upd[idx]['t0'] > t + 1e-6:
        return False
    nxt = upd[idx + 1] if idx + 1 < len(upd) else None
    return nxt is None or nxt['t1'] >= tmin


def made(t, stalls, due=None):
    """Earliest time at which an inform that left at time t can have been made: a stall may
    come between making and writing it, if it was due right before the stall."""
    t -= LAG
    for a, b in reversed(stalls):
        if a <= t <= b + LAG and (due is None or any(
                lo - LAG <= a and hi + TOL + LAG >= a for lo, hi in due)):
            t = a - LAG
    return t


def stall_after(stalls, t):
    """Earliest time >= t at which the loop is responsive."""
    for a, b in stalls:
        if a - LAG <= t <= b:
            t = b
    return t


def check_period(sub, lines, upd, intact, stalls, end):
    p = float(sub.params[0])
    if not lines:
        return None if not intact else 'no initial reading'
    T0 = lines[0][0]
    if T0 > stall_after(stalls, sub.te) + TOL + max(0, sub.tr - sub.te):
        return 'first reading at %.4f' % T0
    for t, i in lines:
        if not current_ok(upd, t, i, stalls):
            return 'reading sent at %.4f is update %d, which was not current' % (t, i)
    # intervals that may contain the nominal time of the last inform
    state = [(made(T0, stalls), T0)]
    for k, (t, i) in enumerate(lines[1:], 1):
        prev = lines[k - 1][0]
        m = made(prev, stalls, state)
        nxt = []
        for lo, hi in state:
            due = []
            if m <= hi + p + TOL:           # on time: one period after the last
                due.append((lo + p, hi + p))
            if prev >= lo + p - TOL:        # fell behind: a new phase
                due.append((max(m, lo) + p, prev + p))
            for a, b in due:
                if a - TOL <= t <= stall_after(stalls, b) + TOL:
                    # a prompt inform tells where the timer was due
                    a2 = min(b, max(a, made(t, stalls, [(a, b)]) - TOL))
                    nxt.append((a2, min(b, t)))
        if not nxt:
            return 'inform %d at %.4f, previous at %.4f, due at %.4f' % (
                k, t, prev, min(lo for lo, hi in state) + p)
        state = sorted(set(nxt))[:20]
    stop = min(end, sub.te2)
    last = lines[-1][0]
    hi = max(h for _, h in state) + p
    if last > hi - TOL:
        hi = max(hi, last + p)
    nxt = stall_after(stalls, hi)
    if intact and nxt + TOL < stop:
        return 'no inform at %.4f (last at %.4f, subscription until %.4f)' % (nxt, last, stop)
    return None


def check_rate(sub, lines, upd, intact, stalls, end):
    params = sub.params
    if sub.strat == b'differential-rate':
        short, long_ = float(params[1]), float(params[2])
    else:
        short, long_ = float(params[0]), float(params[1])
    if not lines:
        return None if not intact else 'no initial reading'
    T0 = lines[0][0]
    if T0 > stall_after(stalls, sub.te) + TOL + max(0, sub.tr - sub.te):
        return 'first reading at %.4f' % T0
    stop = min(end, sub.te2)
    for k, (t, i) in enumerate(lines):
        if not current_ok(upd, t, i, stalls):
            return 'reading sent at %.4f is update %d, which was not current' % (t, i)
        nt = lines[k + 1][0] if k + 1 < len(lines) else None
        if nt is not None and nt - t < short - 1e-5:
            return 'informs at %.4f and %.4f are closer than %s s' % (t, nt, short)
        lim = stall_after(stalls, t + long_) + TOL
        if nt is None:
            if intact and lim < stop:
                return 'nothing sent for %s s after %.4f' % (long_, t)
        elif nt > lim:
            return 'nothing sent between %.4f and %.4f (longest period %s)' % (t, nt, long_)
        # a change must be reported as soon as allowed
        for j in range(i + 1, len(upd)):
            u = upd[j]
            if nt is not None and u['t0'] > nt:
                break
            if u['t0'] >= stop:
                break
            if not differs(sub.strat, params, sub.name, upd[i], u):
                continue
            D = stall_after(stalls, max(u['t1'], t + short)) + TOL
            if nt is not None and nt <= D:
                break
            # overdue: excused only if the sensor has reverted by then
            cur = [x for x in range(len(upd)) if upd[x]['t0'] <= D]
            if cur and not differs(sub.strat, params, sub.name, upd[i], upd[cur[-1]]):
                continue
            if nt is None and (not intact or D >= stop):
                break
            return 'change (update %d at %.4f) after inform at %.4f (update %d) not reported ' \
                'by %.4f; next inform %s' % (j, u['t0'], t, i, D, nt)
        if nt is not None and nt - t < long_ - TOL:
            ni = lines[k + 1][1]
            if not any(differs(sub.strat, params, sub.name, upd[i], upd[j])
                       for j in range(i + 1, len(upd)) if upd[j]['t0'] <= nt + 1e-6):
                return 'inform at %.4f (update %d) although nothing changed since %.4f' % (
                    nt, ni, t)
    return None


def validate(sub, lines, upd, intact, managed, stalls, end, timing=True):
    if sub is None or sub.strat == b'none':
        return 'update sent without a strategy: %s' % (lines[:3],) if lines else None
    if upd is None:
        return 'unknown sensor version'
    if sub.strat in (b'auto', b'event', b'differential'):
        return check_exact(sub, lines, upd, intact, managed)
    if not timing:
        return check_loose(sub, lines, upd, intact, managed)
    if sub.strat == b'period':
        return check_period(sub, lines, upd, intact, stalls, end)
    if sub.strat in (b'event-rate', b'differential-rate'):
        return check_rate(sub, lines, upd, intact, stalls, end)
    return None


def check_streams(sim, sc, w, end, kinds=None, timing=True):
    """Checks every client's replies and sensor-status stream against the model."""
    dev = w.dev
    bulk = sc.get('bulk')
    merged = []
    for a, b in sorted(getattr(w, 'stalls', [])):
        if merged and a <= merged[-1][1] + LAG:
            merged[-1] = (merged[-1][0], max(merged[-1][1], b))
        else:
            merged.append((a, b))
    stalls = merged
    ts_index = {}
    for (name, ver), upd in dev.ledger.items():
        for i, u in enumerate(upd):
            ts_index[(name, round(u['ts'] * 4))] = (ver, i)
    for cname, c in w.clients.conns.items():
        addr = '%s:%d' % c.ep.laddr if c.ep.laddr else None
        intact = cname in sc['intact'] and (not c.closed_locally or w.left_at)
        reqs = {r['mid']: r for r in dev.reqs if r['conn'].address == addr}
        order = [r for r in dev.reqs if r['conn'].address == addr]
        if intact and c.eof is not None and not sc['managed'] and not w.left_at:
            sim.violation('dropped', 'connection of %s closed: %r' % (cname, c.eof))
            continue
        # stream
        items = []          # ('line', name, t, ver, idx) / ('reply', req)
        replies = {}
        for t, g, p, line in world.parsed(c):
            if p is None:
                sim.violation('garbled', '%s received %r' % (cname, line[:200]))
                continue
            mt, nm, mid, args = p
            if mt == '#' and nm == 'sensor-status':
                it = parse_status(dev, ts_index, args, sc)
                if isinstance(it, str):
                    sim.violation('bad-status', '%s received %r: %s' % (cname, line[:200], it))
                    continue
                items.append(('line', it[0], t, it[1], it[2]))
            elif mt == '!' and nm in ('sensor-sampling', 'sensor-sampling-clear'):
                r = reqs.get(mid)
                if r is None or mid in replies:
                    sim.violation('stray-reply', '%s received %r' % (cname, line[:200]))
                    continue
                replies[mid] = args
                items.append(('reply', r))
        # requests one after another: expected replies and strategy changes
        cur = {}
        subs = {}           # name -> [Sub]
        unsure = set()      # sensors whose removal raced with a request
        for r in order:
            # removed sensors lose their strategies
            for rm in dev.removals:
                n = rm['name']
                if rm['g0'] < r['g0'] and n in cur and cur_version(subs, n) <= rm['version']:
                    end_by_removal(subs, n, rm)
                    cur.pop(n, None)
            exp, changes = judge(r, bulk, cur)
            if sc.get('v4'):
                if any(s.endswith(b'-rate') for s, p in changes.values()):
                    exp, changes = None, {}         # not in v4
            # sensors that came or went while the request was being handled
            raced = set(n for g, n in dev.churn if r['g0'] < g < r['g1'])
            asked = set(split_names(r['args'][0], True)) if r['args'] else set()
            if r['clear']:
                unsure.update(raced)
            elif raced & asked:
                sim.probe('requests racing with sensor removal')
                unsure.update(asked)
            if asked & unsure:
                if len(r['args']) > 1:
                    for n in asked:
                        cur.pop(n, None)
                    unsure.update(asked)
                rep = replies.get(r['mid'])
                if rep is not None and rep[:1] not in ([b'ok'], [b'fail']):
                    sim.violation('reply', '%s: %r answered %r' % (cname, r['args'], rep))
                continue
            for n, (s, p) in changes.items():
                last = subs.setdefault(n, [Sub(n, 0, b'none', [], None)])[-1]
                if last.e2 == BIG or last.e2 > r['g0']:
                    last.e2, last.te2 = r['g0'], r['t0']
                if last.r2 == BIG:
                    last.r2, last.tr2 = r['g1'], r['t1']
                q = p
                if sc.get('v4') and s == b'period':
                    q = [b'%r' % (float(p[0]) / 1000)]
                subs[n].append(Sub(n, r['versions'].get(n, 0), s, q, r))
                if s == b'none':
                    cur.pop(n, None)
                else:
                    cur[n] = (s, p)
            rep = replies.get(r['mid'])
            if rep is None:
                if intact and r['g1'] < min(getattr(w, 'stop_called', BIG), w.left_at or BIG):
                    sim.violation('no-reply', '%s: no reply to %r' % (cname, r['args']))
                continue
            if exp is None:
                if rep[:1] != [b'fail']:
                    sim.violation('accepted', '%s: %r answered %r, expected a refusal' % (
                        cname, r['args'], rep))
            elif rep != exp:
                sim.violation('reply', '%s: %r answered %r, expected %r' % (
                    cname, r['args'], rep, exp))
        for rm in dev.removals:
            n = rm['name']
            if n in cur and cur_version(subs, n) <= rm['version']:
                end_by_removal(subs, n, rm)
        closed = [d for d in dev.hooks if d[1] == 'disconnect' and d[2].address == addr]
        for n in list(subs):
            last = subs[n][-1]
            if closed and closed[0][0] < last.e2:
                last.e2 = min(last.e2, closed[0][0])
            if w.managed:
                last.e2 = min(last.e2, w.stop_called)
            if w.left_at:
                last.e2 = min(last.e2, w.left_at)
        # per sensor
        for name in sc['names']:
            if name in unsure:
                continue
            ss = subs.get(name, [Sub(name, 0, b'none', [], None)])
            segs = [[]]
            for it in items:
                if it[0] == 'line':
                    if it[1] == name:
                        segs[-1].append(it)
                elif len(segs) < len(ss) and it[1] is ss[len(segs)].req:
                    segs.append([])
            while len(segs) < len(ss):
                segs.append([])
            err = check_sensor(dev, ss, segs, intact, w.managed, stalls, end, timing)
            if err:
                sub, e = err
                if kinds is not None and sub.strat not in kinds and sub.strat != b'none':
                    continue
                sim.violation('sampling-' + sub.strat.decode(), '%s, sensor %s, strategy %r: %s'
                              % (cname, name, sub, e))
            for s in ss[1:]:
                sim.probe('subscriptions ' + s.strat.decode())
        sim.probe('sensor-status lines', sum(1 for i in items if i[0] == 'line'))


def cur_version(subs, n):
    return subs[n][-1].version if n in subs else -1


def end_by_removal(subs, n, rm):
    last = subs[n][-1]
    if last.e2 > rm['g0']:
        last.e2, last.te2 = rm['g0'], rm['t0']
    last.r2 = min(last.r2, rm['g1'])


def check_sensor(dev, ss, segs, intact, managed, stalls, end, timing=True):
    """Finds split points between consecutive subscriptions; -> None or (sub, error)."""
    lines = []
    for k, seg in enumerate(segs):
        lines += [(it, k) for it in seg]
    n = len(lines)
    bound = []
    pos = 0
    for seg in segs:
        pos += len(seg)
        bound.append(pos)
    # subscription k covers lines [p_k, p_{k+1}); p_k lies in segment k-1
    feas = {0: None}
    starts = {0}
    err = None
    for k, sub in enumerate(ss):
        lo = bound[k - 1] if k else 0
        hi = bound[k]
        last = k + 1 == len(ss)
        ends = [n] if last else list(range(lo, hi + 1))
        nxt = set()
        first_err = None
        for p in sorted(starts):
            for q in ends:
                if q < p:
                    continue
                chunk = lines[p:q]
                if any(it[3] != sub.version for it, _ in chunk):
                    e = 'update of another sensor object of that name'
                else:
                    upd = dev.ledger.get((sub.name, sub.version))
                    e = validate(sub, [(it[2], it[4]) for it, _ in chunk], upd, intact,
                                 managed, stalls, end, timing)
                if e is None:
                    nxt.add(q)
                elif first_err is None or q == hi:
                    first_err = e
        if not nxt:
            return sub, first_err or 'no consistent reading'
        starts = nxt
    return None


def parse_status(dev, ts_index, args, sc):
    if len(args) != 5 or args[1] != b'1':
        return 'malformed'
    ts = num(args[0])
    name = args[2].decode('latin-1')
    if ts is None:
        return 'bad timestamp'
    if sc.get('v4'):
        if b'.' in args[0]:
            return 'timestamp not in milliseconds'
        ts /= 1000
    hit = ts_index.get((name, round(ts * 4)))
    if hit is None or abs(ts * 4 - round(ts * 4)) > 1e-5:
        return 'no update of this sensor has that timestamp'
    ver, i = hit
    u = dev.ledger[(name, ver)][i]
    if args[3] != u['status'].encode():
        return 'status does not belong to that update (%s)' % u['status']
    want = fmt_value(name, u['value'])
    if want is None:
        v = num(args[4])
        if v is not None and sc.get('v4') and name[1] == 't':
            v = v / 1000 + (0.0005 if v % 1 == 0 else 1e9)      # truncated
            tol = 0.00051
        else:
            tol = 1e-6
        if v is None or abs(v - u['value']) > tol:
            return 'value does not belong to that update (%r)' % (u['value'],)
    elif args[4] != want:
        return 'value does not belong to that update (%r)' % (u['value'],)
    return name, ver, i
