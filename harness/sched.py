"""Threads run line by line on the library, in a given order."""
import os
import sys
import threading

SRC = os.path.realpath(os.path.join(os.environ.get("QMAT_REPO", "/repo"), "qmat")) + os.sep


class Run:
    """Runs programs[t] = [f, ...] in one thread each: slices = [(t, n), ...] says which thread goes on for how many lines
    of the library; afterwards the threads are finished one after the other.  A thread that waits for another one that
    does not get on (because of a lock, or a long computation outside the library) goes on all the same."""

    def __init__(self, programs, slices, patience=0.3):
        self.programs, self.slices, self.patience = programs, list(slices), patience
        self.cond = threading.Condition()
        self.alive, self.progress, self.lines = set(programs), 0, {t: 0 for t in programs}
        self.results = {t: [] for t in programs}
        self.turn, self.left = None, 0
        self.advance()

    def advance(self):
        while self.slices:
            t, n = self.slices.pop(0)
            if t in self.alive:
                self.turn, self.left = t, n
                return
        self.turn, self.left = (min(self.alive) if self.alive else None), float("inf")

    def step(self, t):
        with self.cond:
            while self.turn != t:
                seen = self.progress
                if not self.cond.wait(self.patience) and seen == self.progress and self.turn != t:
                    self.turn, self.left = t, float("inf") if not self.slices else self.left
            self.progress += 1
            self.lines[t] += 1
            self.left -= 1
            if self.left < 0:
                self.advance()
                self.cond.notify_all()
                again = self.turn != t
            else: again = False
        if again: self.step(t)

    def trace(self, t):
        def local(frame, event, arg):
            if event == "line": self.step(t)
            return local

        def glob(frame, event, arg):
            return local if os.path.realpath(frame.f_code.co_filename).startswith(SRC) else None
        return glob

    def body(self, t):
        tr = self.trace(t)
        self.step(t)
        try:
            for f in self.programs[t]:
                sys.settrace(tr)
                try: out = "", f()
                except Exception as e: out = type(e).__name__, None
                finally: sys.settrace(None)
                self.results[t].append(out)
        finally:
            with self.cond:
                self.alive.discard(t)
                self.progress += 1
                if self.turn == t: self.advance()
                self.cond.notify_all()

    def run(self, timeout=60):
        threads = [threading.Thread(target=self.body, args=(t,), daemon=True) for t in self.programs]
        for x in threads: x.start()
        for x in threads: x.join(timeout)
        for t, fs in self.programs.items():
            self.results[t] += [("Hang", None)] * (len(fs) - len(self.results[t]))
        return self.results
