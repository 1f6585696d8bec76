"""Runs functions in threads under a generated schedule.

Only one thread runs at a time. A thread hands over to another before a line of the code under
test, when the schedule says so: the interleaving depends on the schedule alone and repeats.
"""
import os
import sys
import threading

from .engine import PACKAGE


class Turns:
    patience = 5.0

    def __init__(self, functions, schedule):
        # schedule: how many lines each turn lasts, and which of the other threads is next
        self.functions = functions
        self.schedule = list(schedule)
        self.at = 0
        self.left = self.schedule[0][0]
        self.free = False  # all run as they like
        self.gates = [threading.Semaphore(0) for _ in functions]
        self.live = list(range(len(functions)))
        self.results = [None] * len(functions)
        self.switches = 0
        self.done = threading.Event()

    def next_turn(self):
        self.at += 1  # over and over
        self.left, pick = self.schedule[self.at % len(self.schedule)]
        return pick

    def hand_over(self, me):
        if self.free:
            return
        pick = self.next_turn()
        others = [i for i in self.live if i != me]
        if not others:
            return
        self.switches += 1
        self.gates[others[pick % len(others)]].release()
        self.wait(me)

    def wait(self, me):
        if not self.gates[me].acquire(timeout=self.patience):
            # The others wait for something that this thread holds (a lock in the code).
            self.free = True
            for g in self.gates:
                g.release()

    def tracer(self, me):
        def local(frame, event, arg):
            if event == "line":
                self.left -= 1
                if self.left <= 0:
                    self.hand_over(me)
            return local

        files = {}

        def quick(frame, event, arg):
            name = frame.f_code.co_filename
            ok = files.get(name)
            if ok is None:
                ok = files[name] = os.path.realpath(name).startswith(PACKAGE)
            return local if ok else None

        return quick

    def body(self, me):
        self.wait(me)
        try:
            sys.settrace(self.tracer(me))
            try:
                self.results[me] = ("ok", self.functions[me]())
            finally:
                sys.settrace(None)
        except BaseException as e:
            self.results[me] = ("raised", f"{type(e).__name__}: {e}")
        self.live.remove(me)
        if self.live:
            self.next_turn()
            self.gates[self.live[0]].release()
        else:
            self.done.set()

    def run(self):
        threads = [threading.Thread(target=self.body, args=(i,), daemon=True) for i in range(len(self.functions))]
        for t in threads:
            t.start()
        self.gates[0].release()
        self.done.wait()
        for t in threads:
            t.join()
        return self.results


def lines_of(function):
    """The (file, line) of the code under test that the function runs, in their order."""
    out = []

    def local(frame, event, arg):
        if event == "line":
            out.append((frame.f_code.co_filename, frame.f_lineno))
        return local

    files = {}

    def quick(frame, event, arg):
        name = frame.f_code.co_filename
        ok = files.get(name)
        if ok is None:
            ok = files[name] = os.path.realpath(name).startswith(PACKAGE)
        return local if ok else None

    old = sys.gettrace()
    sys.settrace(quick)
    try:
        function()
    finally:
        sys.settrace(old)
    return out
