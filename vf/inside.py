"""Queries that run inside a spawned process."""
import logging, os, sys, threading, time


def describe():
    import teleprox
    from teleprox import RPCServer, log
    from teleprox import process
    s = RPCServer.get_server()
    qt_thread = None
    if s is not None and type(s).__name__ == "QtRPCServer":
        from teleprox import qt
        app = qt.QApplication.instance()
        qt_thread = app is not None and app.thread() is type(app.thread()).currentThread()
    return {
        "name": log.get_process_name(),
        "pid": os.getpid(), "ppid": os.getppid(), "sid": os.getsid(0), "pgid": os.getpgid(0),
        "level": logging.getLogger().level,
        "server": type(s).__name__, "address": s.address.decode() if s is not None else None,
        "log_addr": (lambda a: a.decode() if isinstance(a, bytes) else a)(log.get_logger_address()),
        "prefix": process.PROCESS_NAME_PREFIX,
        "main": threading.current_thread() is threading.main_thread(),
        "fds": [os.readlink(f"/proc/self/fd/{i}") if os.path.exists(f"/proc/self/fd/{i}") else None for i in range(3)],
        "executable": sys.executable,
        "conda": os.environ.get("VF_CONDA"),
        "qt_thread": qt_thread,
    }


def child_of_child():
    import teleprox
    p = teleprox.start_process("inner")
    d = p.client._import("vf.inside").describe(_return_type="value")
    p.stop()
    return d["name"]


def write(fd, text):
    os.write(fd, text.encode())


def out(text):
    print(text)


def read_line():
    return sys.stdin.readline()


def log_it(level, text):
    logging.getLogger("vf.inside").log(level, text)


def enabled(level):
    return logging.getLogger("vf.inside").isEnabledFor(level)


def call(cb, x):
    return cb(x)


def main_server():
    """[a server is registered here, this is the main thread, it runs]"""
    from teleprox import RPCServer
    s = RPCServer.get_server()
    return [s is not None, threading.current_thread() is threading.main_thread(), s is not None and s.running()]


def second_server():
    from teleprox import RPCServer
    first = RPCServer.get_server()
    s = RPCServer()
    try:
        s.run_lazy()
        return "accepted"
    except Exception as e:
        return type(e).__name__ if RPCServer.get_server() is first else "replaced"
    finally:
        s._socket.close()


def thread_server():
    """What another thread sees that has a server of its own for a while."""
    from teleprox import RPCServer
    seen = []

    def run():
        seen.append(repr(RPCServer.get_server()))
        s = RPCServer()
        s.run_lazy()
        seen.append("same" if RPCServer.get_server() is s else "other")
        c = RPCServer.local_client()
        seen.append(c.ping())
        s.close()
        seen.append(repr(RPCServer.get_server()))
        c.close()
    t = threading.Thread(target=run)
    t.start()
    t.join(40)
    return seen


_perf_counter = time.perf_counter


def shift_clock(offset):
    """From now on this process's clock differs."""
    time.perf_counter = lambda: _perf_counter() + offset
