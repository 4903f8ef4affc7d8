"""Counts the messages that a thread sends through zmq sockets (instrumentation at the library boundary)."""
import threading, zmq

_counts = {}
_installed = [False]


def install():
    if _installed[0]:
        return
    _installed[0] = True
    orig = zmq.Socket.send

    def send(self, data, flags=0, *a, **k):
        if not int(flags) & zmq.SNDMORE:
            i = threading.get_ident()
            _counts[i] = _counts.get(i, 0) + 1
        return orig(self, data, flags, *a, **k)
    zmq.Socket.send = send


class Sent:
    """with Sent() as s: ...; s.n messages were sent by this thread."""

    def __enter__(self):
        self.a = _counts.get(threading.get_ident(), 0)
        return self

    def __exit__(self, *e):
        self.n = _counts.get(threading.get_ident(), 0) - self.a
