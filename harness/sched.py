"""Threads of which one runs at a time, switched at calls to the file system."""

import os
import sys
import threading


class Schedule:
    """ turns says which thread goes on at each switch, in order """
    NAMES = ['rename', 'replace', 'symlink', 'mkdir', 'unlink', 'rmdir', 'link', 'utime',
             'stat', 'lstat', 'readlink', 'scandir', 'open']

    def __init__(self, turns, xattr):
        self.turns = list(turns)
        self.xattr = xattr
        self.threads = []
        self.switches = self.stalled = 0

    def switch(self):
        me = getattr(self.local, 'me', None)
        if me is None:
            return
        f = sys._getframe(2)
        while f is not None:  # not while something is imported, that takes a lock
            if f.f_code.co_filename.startswith('<frozen importlib'):
                return
            f = f.f_back
        if not self.turns:
            return
        turn = self.turns.pop(0)
        others = [i for i in range(len(self.go)) if i not in self.done]
        to = others[turn % len(others)]
        if to == me:
            return
        self.switches += 1
        self.hand(to)
        # the other may wait for a lock that this one has, so do not wait forever
        if self.go[me].wait(5):
            self.go[me].clear()
        else:
            self.stalled += 1

    def hand(self, to):
        self.go[to].set()

    def run(self, functions):
        self.local = threading.local()
        self.go = [threading.Event() for _ in functions]
        self.done = set()
        results = [None] * len(functions)

        def body(i, function):
            self.local.me = i
            self.go[i].wait()
            self.go[i].clear()
            try:
                results[i] = 'ok', function()
            except BaseException as e:
                results[i] = 'err', e
            finally:
                self.done.add(i)
                left = [j for j in range(len(self.go)) if j not in self.done]
                if left:
                    turn = self.turns.pop(0) if self.turns else 0
                    self.hand(left[turn % len(left)])

        was = {n: getattr(os, n) for n in self.NAMES}
        xwas = {n: getattr(self.xattr, n) for n in ('set', 'remove', 'get', 'get_all')}

        def wrap(f):
            def call(*args, **kw):
                self.switch()
                return f(*args, **kw)
            return call

        for n, f in was.items():
            setattr(os, n, wrap(f))
        for n, f in xwas.items():
            setattr(self.xattr, n, wrap(f))
        try:
            threads = [threading.Thread(target=body, args=(i, f), daemon=True)
                       for i, f in enumerate(functions)]
            for t in threads:
                t.start()
            self.hand(0)
            for t in threads:
                t.join(60)
        finally:
            for n, f in was.items():
                setattr(os, n, f)
            for n, f in xwas.items():
                setattr(self.xattr, n, f)
        return results
