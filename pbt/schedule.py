"""Generated schedules of threads: exactly one thread runs at a time and it hands over before lines (or single operations) of the package chosen by a seeded generator.

The same seed gives the same interleaving of Python code of the package as long as no thread blocks; a thread which waits too long for its turn (the running one blocks in a lock held by
another, or works long in compiled code) ends the control, all threads go on freely, so no schedule can deadlock a correct program."""
import os
import random
import sys
import threading

import zernpy

PACKAGE = os.path.dirname(os.path.abspath(zernpy.__file__)) + os.sep
PATIENCE = 3.0
MOST_SWITCHES = 2000


class Schedule:
    def __init__(self, seed, rate, fine=False):
        self.random = random.Random(seed); self.rate = rate; self.fine = fine
        self.free = self.complete = False; self.turn = {}; self.switches = 0; self.order = []

    def trace(self, frame, event, arg):
        if not os.path.abspath(frame.f_code.co_filename).startswith(PACKAGE):
            return None
        if self.fine:
            frame.f_trace_opcodes = True
        if self.free:
            return None
        if event in ("line", "opcode"):
            self.point()
        return self.trace

    def point(self):
        me = threading.current_thread()
        if self.free or me not in self.turn or len(self.turn) < 2 or self.random.random() >= self.rate:
            return
        if self.switches >= MOST_SWITCHES:
            self.complete = True; self.release(); return
        others = [t for t in self.order if t in self.turn and t is not me]
        if others:
            self.switches += 1; self.turn[me].clear(); self.turn[self.random.choice(others)].set(); self.wait(me)

    def wait(self, me):
        mine = self.turn[me]
        if not self.free and not mine.wait(PATIENCE):
            self.release()

    def release(self):
        self.free = True
        for e in list(self.turn.values()):
            e.set()

    def run(self, works, limit):
        """Run all functions, each in its own thread; returns whether all of them ended."""
        def body(k):
            me = threading.current_thread(); self.wait(me)
            if not self.free:
                sys.settrace(self.trace)
            try:
                works[k]()
            finally:
                sys.settrace(None)
                left = [t for t in self.order if t in self.turn and t is not me]
                self.turn.pop(me, None)
                if left and not self.free:
                    event = self.turn.get(self.random.choice(left))
                    if event is not None:
                        event.set()
        self.order = [threading.Thread(target=body, args=(k,), daemon=True) for k in range(len(works))]
        self.turn = {t: threading.Event() for t in self.order}
        for t in self.order:
            t.start()
        self.turn[self.order[self.random.randrange(len(works))]].set()
        for t in self.order:
            t.join(limit)
        return not any(t.is_alive() for t in self.order)
