"""Records conditions and waits on them, and judges the outcome of each wait."""
from sim import world
from sim.world import katcp
import katcp.core as kc
from tornado import gen as tgen

EPS = 0.003


class Watch(object):
    """History of named conditions. Polled whenever an event or state object changes, so that
    no change escapes; conditions are read through public calls only."""
    def __init__(self, sim):
        self.sim = sim
        self.preds = {}
        self.hist = {}
        self.polling = False
        watch = self

        def wrap(cls, name):
            orig = getattr(cls, name)

            def wrapped(self, *args, **kw):
                watch.poll()
                try:
                    return orig(self, *args, **kw)
                finally:
                    watch.poll()
            setattr(cls, name, wrapped)
            sim.cleanup.append(lambda: setattr(cls, name, orig))
        for cls, name in ((kc.AsyncEvent, 'set'), (kc.AsyncEvent, 'clear'),
                          (kc.AsyncState, 'set_state')):
            wrap(cls, name)

    def add(self, name, fn):
        if name not in self.preds:
            self.preds[name] = fn
            self.hist[name] = []
            self.poll()

    def poll(self):
        if self.polling:
            return
        self.polling = True
        self.sim.no_preempt += 1
        try:
            for name, fn in self.preds.items():
                v = bool(fn())
                h = self.hist[name]
                if not h or h[-1][2] != v:
                    h.append((self.sim.stamp(), self.sim.now, v))
        finally:
            self.sim.no_preempt -= 1
            self.polling = False

    def value_at(self, name, g):
        v = False
        for hg, t, hv in self.hist[name]:
            if hg > g:
                break
            v = hv
        return v

    def first_true(self, name, g0, t0):
        """(stamp, time) at which the condition first held at or after g0."""
        if self.value_at(name, g0):
            return g0, t0
        for g, t, v in self.hist[name]:
            if g > g0 and v:
                return g, t
        return None


class Waits(object):
    def __init__(self, sim, watch):
        self.sim, self.watch = sim, watch
        self.recs = []

    def issue(self, desc, pred, timeout, fn):
        """Call fn() -> future; record how it ends."""
        self.watch.poll()
        rec = {'desc': desc, 'pred': pred, 'timeout': timeout, 'g0': self.sim.stamp(),
               't0': self.sim.now, 'done': None, 'ends': 0}
        self.recs.append(rec)
        self.sim.log('wait', desc, pred, timeout)
        try:
            f = fn()
        except Exception as e:
            self.end(rec, 'raise %s: %s' % (type(e).__name__, e))
            return rec, None

        def done(f):
            self.watch.poll()
            e = f.exception()
            if e is None:
                self.end(rec, 'ok', f.result())
            elif isinstance(e, tgen.TimeoutError):
                self.end(rec, 'timeout')
            else:
                self.end(rec, 'raise %s: %s' % (type(e).__name__, e))
        f.add_done_callback(done)
        return rec, f

    def end(self, rec, how, value=None):
        rec['ends'] += 1
        rec['done'] = (self.sim.stamp(), self.sim.now, how, value)
        self.sim.log('waited', rec['desc'], how)

    def judge(self, end_t, stalls=0.0, eps=EPS):
        for r in self.recs:
            self.judge_one(r, end_t, stalls, eps)

    def first_of(self, r):
        p = r['pred']
        if isinstance(p, str):
            return self.watch.first_true(p, r['g0'], r['t0'])
        firsts = [self.watch.first_true(n, r['g0'], r['t0']) for n in p[1]]
        if p[0] == 'all':       # each at some time, not necessarily together
            return None if None in firsts else max(firsts)
        firsts = [f for f in firsts if f is not None]
        return min(firsts) if firsts else None

    def judge_one(self, r, end_t, stalls=0.0, eps=EPS):
        sim = self.sim
        what = 'wait %s for %s from t=%.6f with timeout %r' % (r['desc'], r['pred'], r['t0'], r['timeout'])
        first = self.first_of(r)
        deadline = None if r['timeout'] is None else r['t0'] + max(0, r['timeout'])
        if r['done'] is None:
            if first is not None and first[1] + stalls + eps < end_t and (
                    deadline is None or first[1] < deadline - eps):
                sim.violation('wait-hangs', '%s: the condition held at %.6f but the wait has not ended' % (
                    what, first[1]))
            elif deadline is not None and deadline + stalls + eps < end_t:
                sim.violation('wait-hangs', '%s has not ended by t=%.3f' % (what, end_t))
            else:
                sim.probe('waits pending')
            return
        g, t, how, value = r['done']
        if how == 'ok':
            if first is None or first[0] > g:
                sim.violation('false-success', '%s succeeded at %.6f but the condition did not hold' % (what, t))
            elif t > first[1] + stalls + eps:
                sim.violation('late-success', '%s: the condition held at %.6f, success at %.6f' % (
                    what, first[1], t))
            elif deadline is not None and first[1] > deadline + stalls + eps:
                sim.violation('late-success', '%s succeeded at %.6f' % (what, t))
            sim.probe('waits met')
        elif how == 'timeout':
            if deadline is None:
                sim.violation('timeout', '%s timed out' % what)
            elif t < deadline - 1e-4:
                sim.violation('timeout-early', '%s timed out at %.6f' % (what, t))
            elif t > deadline + stalls + eps:
                sim.violation('timeout-late', '%s timed out at %.6f' % (what, t))
            elif first is not None and first[1] < deadline - eps - (stalls if r.get('queued') else 0):
                sim.violation('false-timeout', '%s timed out although the condition held at %.6f' % (
                    what, first[1]))
            sim.probe('waits timed out')
        else:
            sim.violation('wait-raises', '%s ended with %s' % (what, how))
