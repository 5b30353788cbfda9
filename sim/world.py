"""Installs the simulator, imports katcp from the repository and offers the
building blocks shared by the property modules."""
import logging
import os
import random
import re
import sys
import traceback
import warnings

REPO = os.environ.get('VERIF_REPO', '/repo')
warnings.simplefilter('ignore')

from . import core, net   # noqa: E402
core.install()
SimIOLoop = net.install()
sys.path.insert(0, REPO)
sys.dont_write_bytecode = True

import tornado.gen as gen                   # noqa: E402
import tornado.ioloop                       # noqa: E402
import tornado.concurrent                   # noqa: E402
import katcp                                # noqa: E402
import katcp.core                           # noqa: E402
import katcp.server                         # noqa: E402
import katcp.client                         # noqa: E402
import katcp.sampling                       # noqa: E402
import katcp.inspecting_client              # noqa: E402
import katcp.resource_client                # noqa: E402
import katcp.ioloop_manager                 # noqa: E402
import katcp.sensortree                     # noqa: E402

assert os.path.realpath(katcp.__file__).startswith(os.path.realpath(REPO)), katcp.__file__
KATCP_DIR = os.path.dirname(os.path.abspath(katcp.__file__)) + os.sep
PROPS_DIR = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'props') + os.sep
logging.getLogger('tornado').setLevel(logging.WARNING)
RealAsyncIOLoop = katcp.ioloop_manager.AsyncIOLoop


class HarnessError(Exception):
    pass


def harness_fault(e):
    """True for exceptions of scenario code that say nothing about the code's behaviour: the
    harness itself is wrong, or an internal name it borrows has gone."""
    if isinstance(e, (NameError, ImportError, AssertionError, HarnessError)):
        return True
    if isinstance(e, AttributeError):
        m = re.search(r"attribute '?(\w+)", str(e))
        return not m or m.group(1).startswith('_')
    return isinstance(e, TypeError) and 'argument' in str(e)


def blame(e, tb):
    """Kind of violation an exception out of scenario code stands for: the code is to blame if
    the exception came from there, or if what it returned could not be read as a result at
    all. None: the harness itself is wrong."""
    if any(f.filename.startswith(KATCP_DIR) for f in traceback.extract_tb(tb)):
        return 'unexpected-exception'
    return None if harness_fault(e) else 'unusable-result'


def swallowed(sim, e, tb):
    """An event loop logged exception e, or it ended a thread. Nobody in the scenario saw it, so
    if it came out of a call the scenario made it is judged here."""
    if isinstance(e, core.SimAbort):
        return
    for f in traceback.extract_tb(tb):
        if f.filename.startswith(KATCP_DIR):
            return
        if f.filename.startswith(PROPS_DIR):
            break
    else:
        return
    what = blame(e, tb)
    text = re.sub('0x[0-9a-f]+', '0x', ''.join(traceback.format_exception(type(e), e, tb))[-1500:])
    if what is None:
        sim.harness_error = sim.harness_error or text
    else:
        sim.violation(what, text)


class NoThread(object):
    """Stands for a thread that cannot be found."""

    def is_alive(self):
        return False


def loop_thread(owner):
    """The thread of the managed loop of a server or client, wherever it is kept."""
    th = getattr(getattr(owner, '_ioloop_manager', None), '_ioloop_thread', None)
    return th if th is not None else NoThread()


def run_scenario(mod, sc):
    """One simulated execution. Returns a result dict (pure function of sc and code)."""
    random.seed('global:%s' % (sc['seed'],))
    for name, lg in list(logging.root.manager.loggerDict.items()):
        if name.split('.')[0] == 'katcp' and isinstance(lg, logging.Logger):
            lg.setLevel(logging.NOTSET)     # ?log-level changes python logger levels
    IOLoop = tornado.ioloop.IOLoop
    IOLoop.clear_current()
    IOLoop.clear_instance()
    sim = core.Sim(sc['seed'], horizon=sc.get('horizon', 3600.0),
                   max_steps=sc.get('max_steps', 300000),
                   preempt=sc.get('preempt'), lock_yield=sc.get('lock_yield', 0.0),
                   katcp_dir=KATCP_DIR, preempt_files=sc.get('preempt_files'))
    net.Net(sim, net.NetConf(**sc.get('net', {})))
    sim.ops_done = 0
    sim.swallowed = lambda e, tb: swallowed(sim, e, tb)
    # which event loop class managed (threaded) loops use in this run
    katcp.ioloop_manager.AsyncIOLoop = (RealAsyncIOLoop if sc.get('asyncio_loop')
                                        else SimIOLoop)
    sim.start()
    ended = 'done'
    try:
        try:
            mod.run(sim, sc)
        except core.SimAbort as e:
            ended = e.kind
            if e.kind == 'harness':
                raise HarnessError(sim.harness_error)
            if e.kind == 'steps':
                sim.violation('spin', 'step limit reached: something runs without end '
                              'at t=%.3f' % sim.now)
            elif e.kind == 'deadlock':
                sim.violation('deadlock', 'every thread is blocked for ever')
            elif e.kind == 'horizon':
                sim.violation('hang', 'operation did not complete within %.0f simulated '
                              'seconds' % sim.horizon)
        except HarnessError:
            raise
        except Exception:
            what = blame(*sys.exc_info()[1:])
            if what is None:
                raise
            ended = 'exception'
            sim.violation(what, re.sub('0x[0-9a-f]+', '0x', traceback.format_exc()[-1500:]))
    finally:
        sim.finish()
        IOLoop.clear_current()
        IOLoop.clear_instance()
    if hasattr(mod, 'after') and ended == 'done':
        mod.after(sim, sc)      # the run is over; its objects are still there
    if sim.harness_error:
        raise HarnessError(sim.harness_error)
    return {'violations': sim.violations, 'digest': sim.hexdigest(), 'ended': ended,
            'simtime': sim.now, 'steps': sim.steps, 'switches': sim.switches,
            'faults': dict(sim.faults), 'probes': dict(sim.probes),
            'ops': sim.ops_done, '_sim': sim}


def run_loop(sim, loop, until):
    """Run a loop on the main simulated thread until simulated time `until`."""
    def stop():
        loop.add_callback(loop.stop)
    sim.at(until, stop)
    loop.start()


# -- independent KATCP line codec (the oracle's own) ------------------------
_UNESC = {b'\\': b'\\', b'_': b' ', b'0': b'\0', b'n': b'\n', b'r': b'\r',
          b'e': b'\x1b', b't': b'\t', b'@': b''}
_ESC = {0x5c: b'\\\\', 0x20: b'\\_', 0: b'\\0', 10: b'\\n', 13: b'\\r', 0x1b: b'\\e',
        9: b'\\t'}
_HEAD = re.compile(br'^([!#?])([a-zA-Z][a-zA-Z0-9\-]*)(?:\[([1-9][0-9]*)\])?$')


class BadLine(Exception):
    pass


def esc(arg):
    if isinstance(arg, str):
        arg = arg.encode('utf-8')
    if not arg:
        return b'\\@'
    out = b''.join(_ESC.get(b, bytes([b])) for b in arg)
    return out


def unesc(arg):
    out = []
    i = 0
    while i < len(arg):
        b = arg[i:i + 1]
        if b == b'\\':
            i += 1
            c = arg[i:i + 1]
            if c not in _UNESC or not c:
                raise BadLine('escape')
            out.append(_UNESC[c])
        elif b in (b'\0', b'\x1b'):
            raise BadLine('raw special')
        else:
            out.append(b)
        i += 1
    return b''.join(out)


def parse_line(line):
    """-> (mtype, name, mid or None, [args bytes])"""
    parts = re.split(br'[ \t]+', line)
    if parts and not parts[-1]:
        parts.pop()
    if not parts:
        raise BadLine('empty')
    m = _HEAD.match(parts[0])
    if not m:
        raise BadLine('head %r' % parts[0])
    return (m.group(1).decode(), m.group(2).decode(),
            m.group(3).decode() if m.group(3) else None,
            [unesc(a) for a in parts[1:]])


def fmt(mtype, name, mid, *args):
    h = mtype + name + ('[%s]' % mid if mid is not None else '')
    return b' '.join([h.encode()] + [esc(a) for a in args]) + b'\n'


def parsed(conn):
    """[(t, gseq, parsed or None, raw line)] of the non-empty lines a raw peer received."""
    out = []
    for t, g, line in conn.lines:
        if not line:
            continue
        try:
            p = parse_line(line)
        except BadLine:
            p = None
        out.append((t, g, p, line))
    return out


class Clients(object):
    """Raw scripted clients of a server under test."""
    def __init__(self, sim, port):
        self.sim = sim
        self.port = port
        self.conns = {}
        self.sent = {}

    def connect(self, name):
        c = net.RawConn.connect(self.sim.net, self.port, name)
        self.conns[name] = c
        self.sent[name] = bytearray()
        return c

    def op(self, name, kind, *args):
        sim = self.sim
        sim.ops_done += 1
        sim.log('op', name, kind, args)
        if kind == 'connect':
            if name not in self.conns:
                self.connect(name)
            return
        c = self.conns.get(name)
        if c is None:
            return
        if kind == 'send':
            data = args[0].encode('latin-1')
            if not c.closed_locally and not c.fin_after_flush:
                self.sent[name] += data
                c.send(data)
        elif kind == 'close':
            sim.fault('client_close')
            c.close()
        elif kind == 'finish':
            sim.fault('client_finish')
            c.finish()
        elif kind == 'half':
            sim.fault('client_half_close')
            c.half_close()
        elif kind == 'reset':
            sim.fault('client_reset')
            c.reset()
        elif kind == 'vanish':
            sim.fault('client_vanish')
            c.vanish()
        elif kind == 'noread':
            sim.fault('client_stops_reading')
            c.stop_reading()
        elif kind == 'read':
            c.start_reading()
        elif kind == 'hold':
            sim.fault('partition')
            c.ep.hold()
            if c.ep.peer is not None:
                c.ep.peer.hold()
        elif kind == 'heal':
            c.ep.release()
            if c.ep.peer is not None:
                c.ep.peer.release()
        else:
            raise ValueError(kind)


def gen_net(rng, harsh=True):
    """Random network behaviour for a run."""
    conf = {}
    style = rng.randrange(6)
    if style == 0:
        conf.update(lat_min=0.0, lat_max=0.0, conn_lat_max=0.0)
    elif style == 1:
        conf.update(lat_min=0.0, lat_max=0.004, grid=0.002)
    elif style == 2:
        conf.update(lat_min=0.0001, lat_max=0.2, conn_lat_max=0.2)
    if harsh:
        r = rng.random()
        if r < 0.25:
            conf.update(seg=1, seg_prob=rng.choice([0.05, 0.3, 1.0]))
        elif r < 0.5:
            conf.update(seg=rng.choice([2, 3, 7, 20]), seg_prob=rng.choice([0.2, 1.0]))
        if rng.random() < 0.3:
            conf['short_send'] = rng.choice([0.1, 0.5])
        if rng.random() < 0.3:
            conf['short_recv'] = rng.choice([0.1, 0.5])
    return conf


def gen_preempt(rng, n, lo=1, hi=2000, stall_prob=0.3, max_stall=0.05):
    """n preemption points: [lines since the previous one, stall seconds]."""
    import math
    out = []
    for _ in range(n):
        gap = int(math.exp(rng.uniform(math.log(lo), math.log(hi))))
        stall = round(rng.uniform(0.0001, max_stall), 6) if rng.random() < stall_prob else 0
        out.append([max(1, gap), stall])
    return out
