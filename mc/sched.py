"""Controlled scheduler for real threads.

A thread stops at chosen steps, a step is one line (or one bytecode
instruction, or one call) of yargy that it is about to execute. Exactly one
thread runs at a time unless it waits for a lock of a stopped one.
"""
import os
import sys
import threading

from .env import REPO

ROOT = os.path.join(os.path.realpath(REPO), 'yargy') + os.sep
ALT = os.path.join(REPO, 'yargy') + os.sep

WAIT = 2.0      # seconds until a thread counts as waiting for another one
JOIN = 20.0


def is_ours(code, memo={}):
    name = code.co_filename
    if name not in memo:
        memo[name] = name.startswith(ALT) or os.path.realpath(name).startswith(ROOT)
    return memo[name]


class Worker(threading.Thread):
    def __init__(self, function, mode):
        super(Worker, self).__init__(daemon=True)
        self.function = function
        self.mode = mode
        self.go = threading.Semaphore(0)
        self.stopped = threading.Semaphore(0)
        self.budget = 0         # steps left, None is no limit
        self.done = False
        self.result = None
        self.log = None
        self.where = None

    def run(self):
        self.go.acquire()
        if self.budget is not None or self.log is not None:
            if self.mode == 'opcode':
                # Python 3.12 looks at it only when tracing starts
                sys._getframe().f_trace_opcodes = True
            sys.settrace(self.trace)
        try:
            self.result = ('value', self.function())
        except BaseException as error:
            self.result = ('error', type(error).__name__, str(error))
        finally:
            sys.settrace(None)
            self.done = True
            self.stopped.release()

    def trace(self, frame, event, _):
        if not is_ours(frame.f_code):
            return
        if self.mode == 'opcode':
            frame.f_trace_opcodes = True
        if self.mode == 'call':
            self.step(frame)
            return
        return self.local

    def local(self, frame, event, _):
        if event == self.mode:
            self.step(frame)
        return self.local

    def step(self, frame):
        if self.log is not None:
            self.log.append((
                frame.f_code.co_filename, frame.f_lineno,
                frame.f_lasti if self.mode == 'opcode' else 0
            ))
        if self.budget is None:
            return
        if self.budget == 0:
            self.where = (frame.f_code.co_filename, frame.f_lineno)
            self.stopped.release()
            self.go.acquire()
            if self.budget is None:
                sys.settrace(None)
                return
        self.budget -= 1


def steps(function, mode):
    """Where the function stops when it runs alone."""
    worker = Worker(function, mode)
    worker.log = []
    worker.budget = None
    worker.start()
    worker.go.release()
    worker.join()
    return worker.log, worker.result


def run(functions, plan, mode):
    """plan: (thread, steps) one after another, None is up to the end.

    Returns results, whether some thread had to wait, whether all ended.
    """
    workers = [Worker(_, mode) for _ in functions]
    for worker in workers:
        worker.start()
    waited = False
    for number, budget in plan:
        worker = workers[number]
        if worker.done:
            continue
        worker.budget = budget
        worker.go.release()
        if not worker.stopped.acquire(timeout=WAIT):
            # waits for a stopped thread, goes on when that one does
            waited = True
            worker.budget = None
    for worker in workers:
        if not worker.done:
            worker.budget = None
            worker.go.release()
    ended = True
    for worker in workers:
        worker.join(JOIN)
        ended = ended and worker.done
    return [_.result for _ in workers], waited, ended
