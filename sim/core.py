"""Deterministic simulator core: virtual clock, event queue, baton-passing threads.

Exactly one thread runs at any time (it holds the "baton"). Whenever it would
block (lock, sleep, poll) it enters the scheduler, which runs due events,
picks the next ready thread with the seeded PRNG, or, if nobody is ready,
jumps the clock to the next event or deadline.

`install()` must be called before tornado and katcp are imported.
"""
import _thread
import collections
import gc
import hashlib
import heapq
import random
import sys
import os
import threading
import time
import traceback

_alloc = _thread.allocate_lock
_real_start = _thread.start_new_thread
_real_set_sentinel = threading._set_sentinel
get_ident = _thread.get_ident
real_time = time.time
real_monotonic = time.monotonic
real_sleep = time.sleep

EPOCH = 1500000000.0
TICK = 1e-5

SIM = None      # the active simulation, if any


class SimKilled(BaseException):
    """Unwinds a simulated thread left over at the end of a run."""


class SimAbort(BaseException):
    """Raised in the main thread when the run cannot or must not go on.

    kind: 'horizon' (simulated time is up), 'deadlock' (no thread can ever run
    again), 'steps' (step limit: something spins), 'harness' (bug in harness).
    """
    def __init__(self, kind):
        BaseException.__init__(self, kind)
        self.kind = kind


class SThread(object):
    __slots__ = ('name', 'sem', 'pred', 'deadline', 'sentinels', 'done', 'kills',
                 'ident', 'blocked', 'index')

    def __init__(self, name, index):
        self.name = name
        self.index = index
        self.sem = _alloc()
        self.sem.acquire()
        self.pred = None
        self.deadline = None
        self.blocked = False
        self.sentinels = []
        self.done = False
        self.kills = 0
        self.ident = None


class Event(object):
    __slots__ = ('t', 'seq', 'fn', 'args')

    def __init__(self, t, seq, fn, args):
        self.t = t
        self.seq = seq
        self.fn = fn
        self.args = args

    def __lt__(self, o):
        return (self.t, self.seq) < (o.t, o.seq)

    def cancel(self):
        self.fn = None
        self.args = ()


class Sim(object):
    def __init__(self, seed, horizon=3600.0, max_steps=400000, preempt=None,
                 lock_yield=0.0, trace_keep=4000, katcp_dir='/repo/katcp/',
                 preempt_files=None):
        self.seed = seed
        self.rng = random.Random('sched:%s' % (seed,))
        self.net_rng = random.Random('net:%s' % (seed,))
        self.now = 0.0
        self.clock_offset = 0.0
        self.horizon = horizon
        self.max_steps = max_steps
        self.steps = 0
        self.events = []
        self.seq = 0
        self.in_event = False
        self.killing = False
        self.abort_kind = None
        self.aborted = False
        self.harness_error = None
        self.threads = []
        self.nthreads = 0
        self.lock_yield = lock_yield
        self.main = self._new_thread('main')
        self.main.ident = get_ident()
        self.cur = self.main
        self.digest = hashlib.sha1()
        self.trace = collections.deque(maxlen=trace_keep)
        self.cleanup = []           # called when the run is over
        self.faults = collections.Counter()
        self.probes = collections.Counter()
        self.violations = []
        self.logrecords = collections.deque(maxlen=200)
        # called with exceptions that event loops log or that end threads
        self.swallowed = None
        self.nlog = 0
        self.switches = 0
        self.parked = []
        self.preempt = list(preempt or [])
        self.preempt_pos = 0
        self.lines = 0
        self.next_line = self.preempt[0][0] if self.preempt else -1
        self.katcp_dir = katcp_dir
        # what counts for preemption: all of katcp, or only some of its files
        self.preempt_in = tuple(katcp_dir + f for f in preempt_files or ('',))
        self.no_preempt = 0
        self.gseq = 0

    # -- bookkeeping ---------------------------------------------------
    def _new_thread(self, name):
        st = SThread(name, self.nthreads)
        self.nthreads += 1
        self.threads.append(st)
        return st

    def log(self, *items):
        """Record in the trace and digest. Never touches PRNGs or real clocks."""
        self.digest.update(repr(items).encode('utf-8', 'backslashreplace'))
        self.trace.append((round(self.now, 6),) + items)

    def stamp(self):
        """Global event sequence number."""
        self.gseq += 1
        return self.gseq

    def violation(self, kind, msg):
        self.violations.append({'kind': kind, 'msg': str(msg), 't': round(self.now, 6)})
        self.log('VIOLATION', kind)

    def fault(self, kind, n=1):
        self.faults[kind] += n

    def probe(self, name, n=1):
        self.probes[name] += n

    # -- events --------------------------------------------------------
    def at(self, t, fn, *args):
        self.seq += 1
        ev = Event(max(t, self.now), self.seq, fn, args)
        heapq.heappush(self.events, ev)
        return ev

    def after(self, dt, fn, *args):
        return self.at(self.now + dt, fn, *args)

    def _run_due(self):
        evs = self.events
        while evs and evs[0].t <= self.now:
            ev = heapq.heappop(evs)
            fn = ev.fn
            if fn is None:
                continue
            self.in_event = True
            try:
                fn(*ev.args)
            except Exception:
                self.harness_error = traceback.format_exc()
                self.abort_kind = 'harness'
            finally:
                self.in_event = False

    # -- scheduling ----------------------------------------------------
    def _ready(self, st):
        if not st.blocked:
            return True
        if st.deadline is not None and st.deadline <= self.now:
            return True
        return st.pred is not None and bool(st.pred())

    def _pick(self, avoid=None):
        while True:
            self.steps += 1
            if self.killing:
                return self.main
            if self.abort_kind is None and self.steps > self.max_steps:
                self.abort_kind = 'steps'
            if self.abort_kind is not None:
                return self.main
            self._run_due()
            if self.abort_kind is not None:
                return self.main
            if len(self.threads) == 1:
                st = self.threads[0]
                if self._ready(st):
                    return st
            else:
                ready = [st for st in self.threads if self._ready(st)]
                if avoid is not None and len(ready) > 1 and avoid in ready:
                    ready.remove(avoid)
                if ready:
                    if len(ready) == 1:
                        return ready[0]
                    return ready[self.rng.randrange(len(ready))]
            # nobody ready: advance time
            while self.events and self.events[0].fn is None:
                heapq.heappop(self.events)
            nxt = self.events[0].t if self.events else None
            for st in self.threads:
                if st.deadline is not None and (nxt is None or st.deadline < nxt):
                    nxt = st.deadline
            if nxt is None:
                self.abort_kind = 'deadlock'
                return self.main
            if nxt > self.horizon:
                self.now = self.horizon
                self.abort_kind = 'horizon'
                return self.main
            if nxt > self.now:
                self.now = nxt

    def _transfer(self, cur, nxt):
        if nxt is not cur:
            self.switches += 1
            self.digest.update(b'S%d@%.6f' % (nxt.index, self.now))
            self.cur = nxt
            nxt.sem.release()
            cur.sem.acquire()

    def _check_wake(self, cur):
        if self.killing and cur is not self.main:
            self._kill_current(cur)
        if cur is self.main and self.abort_kind is not None and not self.aborted:
            self.aborted = True
            raise SimAbort(self.abort_kind)

    def _kill_current(self, cur):
        cur.kills += 1
        if cur.kills > 200:
            # swallows everything: park this thread for good
            self.parked.append(cur)
            cur.done = True
            if cur in self.threads:
                self.threads.remove(cur)
            self.cur = self.main
            self.main.sem.release()
            dead = _alloc()
            dead.acquire()
            dead.acquire()
        raise SimKilled()

    def block(self, pred, deadline=None, avoid=False):
        """Block the calling (current) thread. True if pred holds on return."""
        cur = self.cur
        if self.in_event:
            raise RuntimeError('simulator: blocking call inside an event')
        if self.killing:
            if cur is self.main:
                return True
            self._kill_current(cur)
        if self.aborted and cur is self.main:
            # unwinding the main thread after an abort: never block again
            raise SimAbort(self.abort_kind)
        cur.pred = pred
        cur.deadline = deadline
        cur.blocked = True
        nxt = self._pick(cur if avoid else None)
        self._transfer(cur, nxt)
        cur.blocked = False
        p = cur.pred
        cur.pred = None
        cur.deadline = None
        self._check_wake(cur)
        return True if p is None else bool(p())

    def yield_(self, avoid=False):
        self.block(_true, None, avoid)

    def sleep(self, dt):
        self.block(None, self.now + max(dt, 0))

    def maybe_yield(self):
        """Optional scheduling point (lock operations)."""
        if (self.lock_yield and len(self.threads) > 1 and not self.in_event and
                not self.killing and not self.aborted and
                self.rng.random() < self.lock_yield):
            self.yield_()

    # -- threads -------------------------------------------------------
    def start_thread(self, fn, args, kwargs):
        st = self._new_thread('t%d' % self.nthreads)
        sim = self

        def boot():
            st.sem.acquire()
            st.ident = get_ident()
            try:
                if not sim.killing:
                    st.blocked = False
                    if sim.preempt:
                        sys.settrace(sim._tracer)
                    fn(*args, **kwargs)
            except SimKilled:
                pass
            except SystemExit:
                pass
            except BaseException:
                sim.logrecords.append(('thread', traceback.format_exc()))
            finally:
                sys.settrace(None)
                sim._thread_exit(st)
        st.blocked = False
        _real_start(boot, ())
        return st.index + 100000

    def _thread_exit(self, st):
        for l in st.sentinels:
            if l._l:
                l._l = False
        if st.done:
            return
        st.done = True
        if st in self.threads:
            self.threads.remove(st)
        if self.killing:
            nxt = self.main
        else:
            nxt = self._pick()
        self.cur = nxt
        self.digest.update(b'X%d' % nxt.index)
        nxt.sem.release()

    # -- preemption ----------------------------------------------------
    def _tracer(self, frame, event, arg):
        code = frame.f_code
        # PyPy's JIT may skip line events inside one-line loops
        if code.co_filename.startswith(self.preempt_in) and code.co_name[0] != '<':
            return self._local_tracer
        return None

    def _local_tracer(self, frame, event, arg):
        if event == 'line':
            self.lines += 1
            if self.lines >= self.next_line and self.next_line >= 0:
                self._do_preempt(frame)
        return self._local_tracer

    def _do_preempt(self, frame):
        if (self.in_event or self.killing or self.aborted or self.no_preempt or
                len(self.threads) < 2):
            return
        _, stall = self.preempt[self.preempt_pos]
        self.preempt_pos += 1
        if self.preempt_pos < len(self.preempt):
            self.next_line = self.lines + self.preempt[self.preempt_pos][0]
        else:
            self.next_line = -1
        self.log('preempt', self.cur.index, frame.f_code.co_name, frame.f_lineno, stall)
        self.fault('preemption')
        if stall > 0:
            self.block(None, self.now + stall)
        else:
            self.yield_(avoid=True)

    # -- lifecycle -----------------------------------------------------
    def start(self):
        global SIM
        assert SIM is None
        SIM = self
        if self.preempt:
            sys.settrace(self._tracer)

    def finish(self):
        """Kill leftover threads and deactivate."""
        global SIM
        sys.settrace(None)
        for fn in self.cleanup:
            fn()
        self.killing = True
        for st in list(self.threads):
            if st is self.main or st.done:
                continue
            self.cur = st
            st.sem.release()
            self.main.sem.acquire()
        self.cur = self.main
        SIM = None

    def hexdigest(self):
        return self.digest.hexdigest()


def _true():
    return True


class SimLock(object):
    """Replacement of _thread.lock for everything created after install()."""
    __slots__ = ('_l', '__weakref__')

    def __init__(self):
        self._l = False

    def _free(self):
        return not self._l

    def acquire(self, blocking=True, timeout=-1):
        sim = SIM
        if sim is not None and sim.lock_yield:
            sim.maybe_yield()
        if not self._l:
            self._l = True
            return True
        if not blocking:
            return False
        if sim is None:
            raise RuntimeError('simulated lock would block outside a simulation')
        deadline = None if timeout is None or timeout < 0 else sim.now + timeout
        while self._l:
            if not sim.block(self._free, deadline):
                return False
            if sim.killing:
                break
        self._l = True
        return True

    acquire_lock = acquire

    def release(self):
        if not self._l:
            raise RuntimeError('release unlocked lock')
        self._l = False
        sim = SIM
        if sim is not None and sim.lock_yield:
            sim.maybe_yield()

    release_lock = release

    def locked(self):
        return self._l

    locked_lock = locked

    def _at_fork_reinit(self):
        self._l = False

    def __enter__(self):
        return self.acquire()

    def __exit__(self, *a):
        self.release()


def _sim_start_new_thread(fn, args, kwargs={}):
    sim = SIM
    if sim is None:
        return _real_start(fn, args, kwargs)
    return sim.start_thread(fn, args, kwargs)


def _sim_set_sentinel():
    l = SimLock()
    if SIM is not None:
        SIM.cur.sentinels.append(l)
    return l


def sim_time():
    s = SIM
    return EPOCH + s.now + s.clock_offset if s is not None else EPOCH


def sim_monotonic():
    s = SIM
    return 1000.0 + s.now if s is not None else 1000.0


def sim_sleep(dt):
    s = SIM
    if s is not None and not s.in_event:
        s.sleep(dt)


def _excepthook(args):
    if args.exc_type is SimKilled:
        return
    s = SIM
    if s is not None:
        s.logrecords.append(('thread-exception', ''.join(traceback.format_exception(
            args.exc_type, args.exc_value, args.exc_traceback))))
        s.probe('thread died with exception')
        if s.swallowed:
            s.swallowed(args.exc_value, args.exc_traceback)


_installed = False


def install():
    global _installed
    if _installed:
        return
    _installed = True
    import logging
    import queue
    time.time = sim_time
    time.monotonic = sim_monotonic
    time.perf_counter = sim_monotonic
    time.sleep = sim_sleep
    threading._allocate_lock = SimLock
    threading.Lock = SimLock
    threading._CRLock = None
    threading._start_new_thread = _sim_start_new_thread
    threading._set_sentinel = _sim_set_sentinel
    threading._time = sim_monotonic
    threading.excepthook = _excepthook
    queue.time = sim_monotonic
    threading._active_limbo_lock = SimLock()
    threading._shutdown_locks_lock = SimLock()
    real_getpid = os.getpid
    os.getpid = lambda: real_getpid() if SIM is None else 4242
    logging.logThreads = False
    logging.logProcesses = False

    def handle(self, record):
        s = SIM
        if s is not None:
            s.nlog += 1
            s.logrecords.append((round(s.now, 6), record))
            if s.swallowed and record.exc_info and record.exc_info[1] is not None and \
                    record.name.startswith(('tornado', 'asyncio', 'concurrent')):
                s.swallowed(record.exc_info[1], record.exc_info[2])
    logging.Logger.handle = handle
    logging.getLogger().setLevel(logging.WARNING)

    def formatted(self):
        pass


def format_log(sim, n=40):
    out = []
    for t, rec in list(sim.logrecords)[-n:]:
        if isinstance(rec, str):
            out.append('%s %s' % (t, rec))
            continue
        try:
            m = rec.getMessage()
        except Exception as e:
            m = 'unformattable %r %r' % (rec.msg, e)
        if rec.exc_info and rec.exc_info[0] is not None:
            m += '\n' + ''.join(traceback.format_exception(*rec.exc_info))
        out.append('%s %s %s: %s' % (t, rec.levelname, rec.name, m))
    return '\n'.join(out)


def collect():
    """Run finalisers between simulations (never during one)."""
    gc.enable()
    gc.collect()
    gc.disable()
