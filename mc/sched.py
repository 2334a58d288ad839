"""Controlled scheduler: stateless exploration of thread interleavings of the real code.

Threads run one at a time.  A scheduling point is every source line (or every
bytecode instruction) executed in a file of the package under test; at each of
them the explorer may preempt the running thread.  `explore` enumerates every
schedule with at most `bound` preemptions, by depth-first search over the
points actually reached.
"""
import os
import sys
import threading

import lsst.skymap as _pkg

ROOT = os.path.dirname(os.path.abspath(_pkg.__file__)) + os.sep


class Stuck(Exception):
    pass


class Run:
    """One execution of `bodies` under the switch plan [(global step, thread to switch to)]."""

    def __init__(self, bodies, first, plan, opcodes=False, timeout=20.0):
        self.bodies = bodies
        self.n = len(bodies)
        self.plan = dict(plan)
        self.first = first
        self.opcodes = opcodes
        self.timeout = timeout
        self.step = 0
        self.free = False           # a real lock blocked the running thread: let all run
        self.done = [False] * self.n
        self.sem = [threading.Semaphore(0) for _ in bodies]
        self.result = [None] * self.n
        self.error = [None] * self.n
        self.points = []            # (step, running thread, runnable others)
        self.taken = 0
        self.where = {}
        self.finished = threading.Event()

    def point(self, tid, frame):
        if self.free:
            return
        s = self.step
        self.step = s + 1
        others = [i for i in range(self.n) if i != tid and not self.done[i]]
        self.points.append((s, tid, others))
        to = self.plan.get(s)
        if to is not None and to in others:
            self.taken += 1
            self.where[s] = "%s:%d" % (os.path.basename(frame.f_code.co_filename), frame.f_lineno)
            self.sem[to].release()
            self.sem[tid].acquire()

    def body(self, tid):
        event = "opcode" if self.opcodes else "line"

        def local(frame, ev, arg):
            if ev == event:
                self.point(tid, frame)
            return local

        def tracer(frame, ev, arg):
            if frame.f_code.co_filename.startswith(ROOT):
                if self.opcodes:
                    frame.f_trace_opcodes = True
                    frame.f_trace_lines = False
                return local
            return None
        self.sem[tid].acquire()
        sys.settrace(tracer)
        try:
            self.result[tid] = self.bodies[tid]()
        except BaseException as e:
            self.error[tid] = e
        finally:
            sys.settrace(None)
            self.done[tid] = True
            left = [i for i in range(self.n) if not self.done[i]]
            if self.free or not left:
                if not left:
                    self.finished.set()
            else:
                self.sem[left[0]].release()

    def run(self):
        ts = [threading.Thread(target=self.body, args=(i,), daemon=True) for i in range(self.n)]
        for t in ts:
            t.start()
        self.sem[self.first].release()
        if not self.finished.wait(2.0):
            self.free = True
            for s in self.sem:
                s.release()
            if not self.finished.wait(self.timeout):
                raise Stuck("threads did not finish within %g s" % self.timeout)
        for t in ts:
            t.join(self.timeout)
        return self


def explore(make, bound, judge, opcodes=False, part=None, stride=1):
    """Every schedule with at most `bound` preemptions.

    make() -> list of thread bodies sharing a fresh object; judge(run, first, plan) after each.
    Returns (schedules, points).
    """
    count = points = 0
    n = len(make())
    work = [(f, ()) for f in range(n)]
    root = True
    k = 0
    while work:
        first, plan = work.pop()
        r = Run(make(), first, plan, opcodes).run()
        if r.taken < len(plan) and not r.free:
            # the plan's last point was not reached any more: same as a shorter plan
            continue
        if part is None or part[0] == 0 or plan:
            count += 1
            points += len(r.points)
            judge(r, first, plan)
        if len(plan) < bound and not r.free:
            last = plan[-1][0] if plan else -1
            for s, tid, others in r.points:
                if s > last:
                    for o in others:
                        if not plan and part is not None:
                            k += 1
                            if k % part[1] != part[0]:
                                continue
                        work.append((first, plan + ((s, o),)))
    return count, points
