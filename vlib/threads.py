"""Runs functions in threads which take turns as a schedule says.

Exactly one thread runs at any time, except when the one whose turn it is waits for a lock
that another one holds: then the other one goes on after a moment. A turn lasts a number of lines (or bytecode
instructions) executed within the library; then another thread goes on. So a run is a
function of the schedule.
"""
import sys
import threading


PATIENCE = 0.02


class Turns:

    def __init__(self, root, turns, repeat, opcodes):
        """root: directory of the files that are counted. turns: [(length, who)]."""
        self.root = root
        self.turns = list(turns)
        self.repeat = repeat
        self.opcodes = opcodes
        self.position = 0
        self.switches = 0
        self.blocked = 0
        self.ticks = 0
        self.current = None
        self.left = None

    def _turn(self):
        if self.position >= len(self.turns):
            if not self.repeat:
                return None, 0
            self.position = 0
        length, who = self.turns[self.position]
        self.position += 1
        return length, who

    def run(self, functions):
        count = len(functions)
        self.gates = [threading.Semaphore(0) for _ in functions]
        self.alive = list(range(count))
        self.results = [None] * count
        threads = [
            threading.Thread(target=self._thread, args=(i, function), daemon=True)
            for i, function in enumerate(functions)
        ]
        self.left, _ = self._turn()
        for thread in threads:
            thread.start()
        self._pass(0)
        for thread in threads:
            thread.join()
        for result in self.results:
            if isinstance(result, BaseException):
                raise result
        return self.results

    def _thread(self, me, function):
        while not self.gates[me].acquire(timeout=PATIENCE):
            if self.current == me:
                break
        sys.settrace(lambda frame, event, arg: self._trace(me, frame))
        try:
            result = function()
        except BaseException as err:
            result = err
        finally:
            sys.settrace(None)
        self.results[me] = result
        at = self.alive.index(me)
        self.alive.remove(me)
        if self.alive and self.current == me:
            self.left, _ = self._turn()
            self._pass(self.alive[at % len(self.alive)])

    def _trace(self, me, frame):
        if not frame.f_code.co_filename.startswith(self.root):
            return None
        wanted = 'line'
        if self.opcodes:
            frame.f_trace_opcodes = True
            frame.f_trace_lines = False
            wanted = 'opcode'

        def local(frame, event, arg):
            if event == wanted:
                self.ticks += 1
                if self.current != me:
                    self._wait(me)
                if self.left is not None:
                    self.left -= 1
                    if self.left <= 0:
                        self._switch(me)
            return local
        return local

    def _switch(self, me):
        self.left, who = self._turn()
        others = [i for i in self.alive if i != me]
        if not others:
            return
        self.switches += 1
        self._pass(others[who % len(others)])
        self._wait(me)

    def _pass(self, other):
        self.current = other
        self.gates[other].release()

    def _wait(self, me):
        seen = self.ticks
        while not self.gates[me].acquire(timeout=PATIENCE):
            if self.current == me or self.ticks == seen:
                # nobody goes on: the others wait for a lock
                self.blocked += 1
                self.current = me
                return
            seen = self.ticks
