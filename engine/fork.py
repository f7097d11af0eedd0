"""Exploration on several processes.

A decision of a top-level path, or a branch of an element-wise comparison, may be
handed to a forked process: the child takes the branch over, the parent never visits
it.  Every process reports the obligations it generated; the root adds them up."""
from __future__ import annotations

import os
import pickle
import sys
import time


class ForkDone(BaseException):
    """A child finished the branch it was given inside a comparison."""


class Forker:
    def __init__(self, sem, on_child=None):
        self.sem = sem
        self.children = []  # (pid, read fd)
        self.active = []  # explorers on the stack: [work list, current path]
        self.out = None  # write fd of a child
        self.owned = None  # the comparison this child was forked in
        self.start = time.time()
        self.on_child = on_child

    @property
    def is_child(self):
        return self.out is not None

    def spawn(self, owner=None, give=None):
        """'no' (no free slot), 'parent' or 'child'."""
        if time.time() - self.start < 1.0 or not self.sem.acquire(block=False):
            return "no"
        self.given = give() if give is not None else None
        r, w = os.pipe()
        sys.stdout.flush()
        sys.stderr.flush()
        try:
            pid = os.fork()
        except OSError:
            os.close(r)
            os.close(w)
            self.sem.release()
            if give is not None:
                raise
            return "no"
        if pid:
            os.close(w)
            self.children.append((pid, r))
            return "parent"
        for _, fd in self.children:
            os.close(fd)
        os.close(r)
        self.children, self.out = [], w
        if owner is not None:
            self.owned = owner
        for e in self.active:
            e[0].clear()
            if e[1] is not None:
                e[1].alts.clear()
        if self.on_child is not None:
            self.on_child()
        return "child"

    def finish(self, part):
        """Child: send the merged part and end."""
        with os.fdopen(self.out, "wb") as f:
            pickle.dump(part, f)
        sys.stdout.flush()
        os._exit(0)

    def collect(self):
        """Parts of the children (waits for them)."""
        self.sem.release()
        parts = []
        for pid, fd in self.children:
            try:
                with os.fdopen(fd, "rb") as f:
                    parts.append(pickle.load(f))
            except Exception as e:
                parts.append(None)
            try:
                os.waitpid(pid, 0)
            except OSError:
                pass
        self.children = []
        return parts


FORK: Forker | None = None
