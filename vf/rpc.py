"""Helpers to set up teleprox servers and clients of several kinds for a scenario."""
import os, threading, time, uuid
import logging

logging.getLogger("teleprox").setLevel(logging.ERROR)
import teleprox
import teleprox.process
from teleprox import RPCClient, RPCServer

_n = [0]


def uniq():
    _n[0] += 1
    return f"{os.getpid()}-{_n[0]}"


class Watched(RPCServer):
    """Notes the thread that runs it."""
    owner = None

    def run_forever(self):
        o = self.owner
        if o is None:
            return RPCServer.run_forever(self)
        o.thread, o.ident = threading.current_thread(), threading.get_ident()
        o.started.set()
        try:
            o.serve()
        except BaseException:
            import traceback
            o.error = traceback.format_exc()


_in_thread = [0]


def advance(obj, counters, n):
    """Continue as if there had been a great many requests/objects before (if the object has such counters)."""
    for i, name in enumerate(counters):
        if isinstance(getattr(obj, name, None), int):
            setattr(obj, name, [2**15, 2**16, 2**31, 2**32, 2**53, 1000, 10**6][(n + i * 3) % 7] - 5)


class ThreadServer:
    """An RPCServer running run_forever in its own thread (every second one started by run_in_thread())."""

    def __init__(self, transport="tcp", address=None, **kw):
        addr = address or {"tcp": "tcp://127.0.0.1:*", "inproc": f"inproc://vf-{uniq()}",
                "ipc": f"ipc://{os.environ.get('VF_DIR', '/tmp')}/s{uniq()}"}[transport]
        self.server = Watched(addr, **kw)
        self.server.owner = self
        self.address = self.server.address
        self.error = None
        self.started = threading.Event()
        _in_thread[0] += 1
        if _in_thread[0] % 3 == 0:
            advance(self.server, ["_next_object_id", "_next_ref_id"], _in_thread[0] // 3)
        if _in_thread[0] % 2:
            self.server.run_in_thread()
        else:
            threading.Thread(target=self.server.run_forever, daemon=True).start()
        if not self.started.wait(60):
            raise RuntimeError("the server's thread does not start")

    def serve(self):
        RPCServer.run_forever(self.server)

    def __setitem__(self, k, v):
        self.server[k] = v

    def close(self):
        if self.thread.is_alive():
            c = RPCClient.get_client(self.address)
            c.close_server()
            c.close()
        self.thread.join(10)


def in_threads(fns, timeout=None):
    """Run functions in parallel threads; re-raise the first error."""
    errs, ths = [], []

    def wrap(fn):
        try:
            fn()
        except BaseException as e:
            errs.append(e)
    for fn in fns:
        t = threading.Thread(target=wrap, args=(fn,), daemon=True)
        t.start()
        ths.append(t)
    for t in ths:
        t.join(timeout)
    from vf.core import Stop
    for e in errs:
        if not isinstance(e, Stop):
            raise e
    for e in errs:
        raise e


def child(name=None, **kw):
    return teleprox.start_process(name or f"vf{uniq()}", **kw)


class LazyServer(ThreadServer):
    """A lazily run server in its own thread, which processes requests one by one by hand."""

    def serve(self):
        self.server.run_lazy()
        while self.server.running():
            self.server._read_and_process_one()


class ProcServer:
    """A server in a child process (plain or Qt)."""

    error = None

    def __init__(self, qt=False, perturb_seed=None, prob=.003, delay=.002):
        self.proc = child(qt=qt)
        self.address = self.proc.client.address
        if perturb_seed is not None:
            self.proc.client._import("vf.perturb").enable(perturb_seed, prob, delay)

    def recorder(self):
        rec = self.proc.client._import("vf.targets").Recorder()
        self.proc.client["rec"] = rec
        return rec

    def close(self):
        self.proc.stop()


SERVER_KINDS = ("tcp", "inproc", "ipc", "lazy", "proc", "qt")


def make_server(kind, perturb_seed=None):
    """-> server whose published name 'rec' is a targets.Recorder"""
    from vf import targets
    if kind in ("proc", "qt"):
        s = ProcServer(kind == "qt", perturb_seed)
        s.recorder()
        return s
    s = LazyServer() if kind == "lazy" else ThreadServer(kind)
    s["rec"] = targets.Recorder()
    return s
