"""Controlled scheduler: runs real threads one at a time and enumerates every
schedule with at most a given number of preemptions.  A thread can be preempted
before each line of the code selected by `inside`; a finished thread hands over
for free.  Stateless search: a schedule is replayed from the start each time.
"""
import os
import sys
import threading


def in_dir(name):
    pat = os.sep + name + os.sep
    return lambda filename: pat in filename


class _Run:
    def __init__(self, bodies, plan, inside):
        self.bodies, self.plan, self.inside = bodies, plan, inside
        self.n = len(bodies)
        self.sem = [threading.Semaphore(0) for _ in bodies]
        self.done = [False] * self.n
        self.results = [None] * self.n
        self.steps = []           # (thread that ran, number of alternatives)
        self.at = 0               # global step counter
        self.current = 0
        self.finished = threading.Semaphore(0)
        self.points = []          # step indices where a preemption was possible: (step, thread)

    def point(self, me):
        """a scheduling point inside thread me"""
        step = self.at
        self.at += 1
        others = [t for t in range(self.n) if t != me and not self.done[t]]
        if others:
            self.points.append((step, me, tuple(others)))
        to = self.plan.get(step)
        if to is not None and to in others:
            self.current = to
            self.sem[to].release()
            self.sem[me].acquire()

    def _thread(self, me):
        self.sem[me].acquire()
        code = self.inside

        def local(frame, event, arg):
            if event == 'line':
                self.point(me)
            return local

        def tracer(frame, event, arg):
            if event == 'call' and code(frame.f_code.co_filename):
                return local
            return None
        sys.settrace(tracer)
        try:
            try:
                self.results[me] = ('ok', self.bodies[me]())
            except BaseException as e:
                self.results[me] = ('exc', f'{type(e).__name__}: {e}')
        finally:
            sys.settrace(None)
            self.done[me] = True
            left = [t for t in range(self.n) if not self.done[t]]
            if left:
                self.sem[left[0]].release()
            else:
                self.finished.release()

    def go(self, first):
        ts = [threading.Thread(target=self._thread, args=(i,), daemon=True) for i in range(self.n)]
        for t in ts:
            t.start()
        self.sem[first].release()
        if not self.finished.acquire(timeout=60):
            raise RuntimeError('deadlock under schedule')
        for t in ts:
            t.join()


def explore(bodies, verdict, bound, inside, make=None, limit=None):
    """every schedule with at most `bound` preemptions; returns their number.
    make(): called before each run, returns fresh bodies (overrides bodies)"""
    count = 0
    for first in range(len(bodies) if make is None else len(make())):
        stack = [({}, 0)]
        while stack:
            plan, frm = stack.pop()
            run = _Run(make() if make else bodies, plan, inside)
            run.go(first)
            count += 1
            verdict(run.results, (first, sorted(plan.items())))
            if len(plan) >= bound:
                continue
            for step, me, others in run.points:
                if step < frm:
                    continue
                for o in others:
                    stack.append(({**plan, step: o}, step + 1))
    return count
