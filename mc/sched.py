"""Cooperative scheduling of several real call stacks: exactly one runs at a time, and at every `point` the explorer
decides who continues.  Switching away from a runnable task is a preemption (a deviation, bounded by `dev_bound`)."""
from __future__ import annotations

import threading

from .core import Chooser


class _Stop(BaseException):
    pass


class Coop:
    def __init__(self, c: Chooser):
        self.c = c
        self.tasks: list = []
        self.control = threading.Semaphore(0)
        self.tls = threading.local()
        self.stopping = False
        self.schedule: list = []

    def spawn(self, name, fn):
        t = dict(name=name, sem=threading.Semaphore(0), done=False, error=None, result=None, points=0)

        def body():
            t["sem"].acquire()
            self.tls.task = t
            try:
                if not self.stopping:
                    t["result"] = fn()
            except _Stop:
                pass
            except BaseException as e:  # noqa
                t["error"] = e
            t["done"] = True
            self.control.release()

        t["thread"] = threading.Thread(target=body, daemon=True)
        self.tasks.append(t)
        t["thread"].start()

    def point(self, *label):
        t = self.tls.task
        t["points"] += 1
        self.control.release()
        t["sem"].acquire()
        if self.stopping:
            raise _Stop()

    def run(self):
        cur = None
        try:
            while True:
                enabled = [t for t in self.tasks if not t["done"]]
                if not enabled:
                    break
                if cur is not None and not cur["done"]:
                    enabled = [cur] + [t for t in enabled if t is not cur]
                    k = self.c.choose(len(enabled), "sched", dev=True) if len(enabled) > 1 else 0
                else:
                    k = self.c.choose(len(enabled), "sched_free") if len(enabled) > 1 else 0
                cur = enabled[k]
                self.schedule.append(cur["name"])
                self.c.step()
                cur["sem"].release()
                self.control.acquire()
                if cur["error"] is not None:
                    raise cur["error"]
        finally:
            self.stopping = True
            for t in self.tasks:
                if not t["done"]:
                    t["sem"].release()
            for t in self.tasks:
                t["thread"].join(timeout=30)
        return [t["result"] for t in self.tasks]
