"""Objects that live on the server side of the monitored RPC; importable in child processes."""
import hashlib, itertools, os, threading, time


class RemoteBoom(Exception):
    pass


def f(token):
    """The value a request must return: a function of the request's unique token only."""
    return "v:" + token


class Recorder:
    """Records the events at the server side: (token, thread id, enter/leave order)."""

    def __init__(self):
        self.log = []
        self.events = []
        self.depth = 0
        self.overlap = []
        self.store = {}

    # every method takes the request's unique token first
    def _enter(self, token):
        self.log.append((token, threading.get_ident()))
        self.events.append(("in", token))
        self.depth += 1

    def _leave(self, token):
        self.depth -= 1
        self.events.append(("out", token))

    def echo(self, token, delay=0):
        self._enter(token)
        try:
            if delay:
                time.sleep(delay)
            return f(token)
        finally:
            self._leave(token)

    def big(self, token, n):
        self._enter(token)
        try:
            return [token, (hashlib.sha256(token.encode()).hexdigest() * (n // 64 + 1))[:n]]
        finally:
            self._leave(token)

    def boom(self, token, *a):
        self._enter(token)
        try:
            raise RemoteBoom("boom:" + token)
        finally:
            self._leave(token)

    def obj(self, token):
        self._enter(token)
        try:
            return Thing(token)
        finally:
            self._leave(token)

    def none(self, token):
        self._enter(token)
        self._leave(token)

    def nested(self, token, cb):
        """Call a proxied callback while serving (re-entrant)."""
        self._enter(token)
        try:
            self.events.append(("wait", token))
            try:
                r = cb("cb:" + token)
            finally:
                self.events.append(("resume", token))
            return [f(token), r]
        finally:
            self._leave(token)

    def __setitem__(self, token, v):
        self._enter(token)
        self._leave(token)

    def __call__(self, token, *args, **kwds):
        self._enter(token)
        self._leave(token)
        return f(token)

    # control
    def get_log(self):
        return [list(x) for x in self.log]

    def get_events(self):
        return [list(x) for x in self.events]

    def ident(self):
        return threading.get_ident()

    def main_ident(self):
        return threading.main_thread().ident

    def pid(self):
        return os.getpid()

    def clear(self):
        self.log.clear()
        self.events.clear()


class Thing:
    """A class that is not serialisable by value: it travels as a proxy."""

    def __init__(self, token):
        self.token = token

    def tok(self):
        return self.token


def big_expected(token, n):
    return [token, (hashlib.sha256(token.encode()).hexdigest() * (n // 64 + 1))[:n]]
