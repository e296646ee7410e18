"""Two calls run in two threads whose interleaving, line by line in the code under test, is generated."""
import os
import sys
import threading

from .boot import REPO, HarnessError

ROOT = os.path.abspath(REPO) + os.sep


class Baton:
    def __init__(self, runs, limit=4000):
        self.runs = list(runs)
        self.pos = 0
        self.left = self.next_run()
        self.sem = [threading.Semaphore(0), threading.Semaphore(0)]
        self.done = [False, False]
        self.lines = 0
        self.switches = 0
        self.limit = limit          # afterwards the threads run one after the other

    def next_run(self):
        r = self.runs[self.pos % len(self.runs)]
        self.pos += 1
        return r

    def wait(self, t):
        if not self.sem[t].acquire(timeout=120):
            raise HarnessError("interleaved call was never resumed")

    def step(self, t):
        self.lines += 1
        if self.lines > self.limit or self.done[1 - t]:
            return
        self.left -= 1
        if self.left <= 0:
            self.left = self.next_run()
            self.switches += 1
            self.sem[1 - t].release()
            self.wait(t)


def run(calls, runs):
    """Run two callables under the schedule; returns their outcomes and the number of switches."""
    b = Baton(runs)
    out = [None, None]

    def body(t):
        def local(frame, event, arg):
            if event == "line":
                b.step(t)
            return local

        def tracer(frame, event, arg):
            return local if frame.f_code.co_filename.startswith(ROOT) else None

        b.wait(t)
        try:
            sys.settrace(tracer)
            try:
                out[t] = ("ok", calls[t]())
            except HarnessError:
                raise
            except Exception as e:
                out[t] = ("err", type(e).__name__)
            finally:
                sys.settrace(None)
        finally:
            b.done[t] = True
            b.sem[1 - t].release()

    ts = [threading.Thread(target=body, args=(t,), daemon=True) for t in (0, 1)]
    for t in ts:
        t.start()
    b.sem[0].release()
    for t in ts:
        t.join(300)
        if t.is_alive():
            raise HarnessError("interleaved call did not finish")
    return out, b.switches
