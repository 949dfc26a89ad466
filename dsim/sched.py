"""Deterministic scheduler for the threads of a run.

Real threads, but only the one that holds the baton runs; the baton moves only at yield points: every line executed in
/repo/simphox (sys.settrace), every entry into and exit from the native solver (where ctypes releases the GIL) and
every lock operation of simphox.  Who gets it is decided by the plan (`points`: [step, choice] pairs).
"""
import os
import sys
import threading

from . import seams
from .core import HarnessError


class Abort(BaseException):
    pass


class Scheduler:
    def __init__(self, ctx, points, max_steps=400000, trace_lines=True):
        self.ctx = ctx
        self.points = {int(s): int(c) for s, c in points}
        self.max_steps = max_steps
        self.trace_lines = trace_lines
        self.step = 0
        self.threads = []       # dicts
        self.by_ident = {}
        self.current = None
        self.deadlock = None
        self.abort = False
        self.switches = []
        self.kills = {}         # index of a thread -> [lines until an exception, exception class]
        self.mutex = seams._real['Lock']()

    def spawn(self, name, fn):
        t = {'name': name, 'fn': fn, 'state': 'ready', 'on': None, 'exc': None, 'ev': seams_event(), 'idx': len(self.threads)}
        self.threads.append(t)
        return t

    def is_sim_thread(self):
        return threading.get_ident() in self.by_ident

    # ---- tracing
    def _local(self, frame, event, arg):
        if event == 'line':
            self.yield_point('line')
        return self._local

    def _global(self, frame, event, arg):
        return self._local if frame.f_code.co_filename.startswith(seams.PKG) else None

    def trace_again(self):
        if self.trace_lines:
            sys.settrace(self._global)

    def _body(self, t):
        self.by_ident[threading.get_ident()] = t
        t['ev'].wait()
        try:
            if self.abort:
                raise Abort()
            if self.trace_lines:
                sys.settrace(self._global)
            try:
                t['fn']()
            finally:
                sys.settrace(None)
        except Abort:
            pass
        except BaseException as e:  # noqa
            t['exc'] = e
        t['state'] = 'done'
        self._next(t, None)

    def _ready(self):
        return [t for t in self.threads if t['state'] == 'ready']

    def _next(self, me, choice):
        """Hand the baton on (me is not ready any more, or choice says who)."""
        ready = self._ready()
        if not ready:
            timed = [t for t in self.threads if t['state'] == 'blocked' and t.get('timed')]
            if timed:  # simulated time passes until the first timeout
                timed[0]['state'], timed[0]['timed_out'] = 'ready', True
                ready = timed[:1]
            else:
                if any(t['state'] == 'blocked' for t in self.threads) and not self.abort:
                    self.deadlock = ', '.join(t['name'] for t in self.threads if t['state'] == 'blocked')
                    self._stop()
                if all(t['state'] == 'done' for t in self.threads) or self.abort:
                    self.finished.set()
                return
        if choice is None:
            nxt = min(ready, key=lambda t: (t['idx'] - me['idx'] - 1) % len(self.threads))
        else:
            nxt = ready[choice % len(ready)]
        if nxt is not me:
            self.switches.append((me['idx'], nxt['idx']))
        self.current = nxt
        nxt['ev'].set()

    def _stop(self):
        self.abort = True
        for t in self.threads:
            t['ev'].set()

    def yield_point(self, kind):
        t = self.by_ident.get(threading.get_ident())
        if t is None:
            return
        if self.abort:
            raise Abort()
        self.step += 1
        if self.step > self.max_steps:
            self.overrun = True
            self._stop()
            raise Abort()
        kill = self.kills.get(t['idx'])
        if kill and kind == 'line':
            kill[0] -= 1
            if kill[0] <= 0:
                del self.kills[t['idx']]
                raise kill[1]('simulated')   # ends the tracing of this thread as well, see trace_again
        c = self.points.get(self.step)
        if c is None:
            return
        ready = self._ready()
        if len(ready) <= 1 and ready and ready[0] is t:
            return
        self.ctx.probe('preempt-' + kind)
        self.locs.append((t['idx'], kind, self.step))
        t['ev'].clear()
        self._next(t, c)
        if self.current is not t:
            t['ev'].wait()
            if self.abort:
                raise Abort()

    def block(self, lock, timed=False):
        t = self.by_ident[threading.get_ident()]
        if self.abort:
            raise Abort()
        self.ctx.probe('lock-contended')
        t['state'], t['on'], t['timed'], t['timed_out'] = 'blocked', lock, timed, False
        t['ev'].clear()
        self._next(t, None)
        t['ev'].wait()
        if self.abort:
            raise Abort()
        t['on'] = None
        return not t['timed_out']

    def wake(self, lock):
        for t in self.threads:
            if t['state'] == 'blocked' and t['on'] is lock:
                t['state'] = 'ready'

    def run(self):
        self.finished = seams_event()
        self.locs = []
        self.overrun = False
        seams.S.sched = self
        try:
            ths = []
            for t in self.threads:
                th = threading.Thread(target=self._body, args=(t,), daemon=True)
                ths.append(th)
                th.start()
            # deterministic registration
            while len(self.by_ident) < len(self.threads):
                os.sched_yield()
            self.current = self.threads[0]
            self.threads[0]['ev'].set()
            if not self.finished.wait(120):
                raise HarnessError('the scheduled threads did not finish (a real blocking call outside the seams?)')
            for th in ths:
                th.join(5)
        finally:
            seams.S.sched = None
        self.ctx.steps += self.step
        self.ctx.interleaving(tuple(self.switches), tuple((i, k) for i, k, _ in self.locs))
        return self


class _Event:
    """Event on the real primitives (threading.Event would go through the patched Lock)."""

    def __init__(self):
        self._cond = threading.Condition(seams._real['Lock']())
        self._flag = False

    def set(self):
        with self._cond:
            self._flag = True
            self._cond.notify_all()

    def clear(self):
        with self._cond:
            self._flag = False

    def wait(self, timeout=None):
        with self._cond:
            return self._cond.wait_for(lambda: self._flag, timeout)


def seams_event():
    return _Event()
