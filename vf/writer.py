"""Writes bytes to stdout and stderr in all ways; runs in a child process."""
import ctypes, os, subprocess, sys, threading, time

libc = ctypes.CDLL(None)


def write(stream, means, data):
    fd = 1 if stream == "stdout" else 2
    f = sys.stdout if fd == 1 else sys.stderr
    if means == "os.write":
        while data:
            data = data[os.write(fd, data):]
    elif means == "print":
        print(data.decode(), end="", file=f)
    elif means == "print parts":
        t = data.decode()
        k = len(t) // 2
        print(t[:k], t[k:], sep="", end="", file=f, flush=True)
    elif means == "text":
        f.write(data.decode())
    elif means == "lines":
        f.writelines(data.decode().splitlines(True))
    elif means == "buffer":
        f.buffer.write(data)
        f.buffer.flush()
    elif means == "native":
        while data:
            n = libc.write(fd, data, len(data))
            assert n > 0
            data = data[n:]
    elif means == "stdio":
        # a buffered FILE* of the C library
        cf = ctypes.c_void_p.in_dll(libc, stream)
        libc.fwrite(data, 1, len(data), cf)
        libc.fflush(cf)
    elif means == "child":
        subprocess.run([sys.executable, "-S", "-c", f"import os,sys; os.write({fd}, sys.stdin.buffer.read())"], input=data)
    elif means == "shell":
        subprocess.run(["sh", "-c", f"cat >&{fd}"], input=data)
    else:
        raise ValueError(means)


def run(plan, journal=None):
    """plan: list of [stream, means, data, pause]"""
    j = None if journal is None else os.open(journal, os.O_WRONLY | os.O_CREAT | os.O_APPEND)
    for i, (stream, means, data, pause) in enumerate(plan):
        if j is not None:
            os.write(j, b"%d\n" % i)
        write(stream, means, data)
        if pause:
            time.sleep(pause)
    if j is not None:
        os.write(j, b"%d\n" % len(plan))
    return len(plan)


def run_many(plans):
    """Several threads, whose writes are single lines."""
    errs = []

    def one(p):
        try:
            run(p)
        except BaseException as e:
            errs.append(repr(e))
    ths = [threading.Thread(target=one, args=(p,)) for p in plans]
    for t in ths:
        t.start()
    for t in ths:
        t.join()
    return errs


def at_exit(plan):
    import atexit
    atexit.register(run, plan)


def then_end(plan, how, journal=None):
    run(plan, journal)
    if how == "_exit":
        os._exit(5)
    elif how == "kill":
        os.kill(os.getpid(), 9)
    elif how == "abort":
        import faulthandler
        faulthandler.disable()
        os.abort()


def background(plan, journal=None):
    threading.Thread(target=run, args=(plan, journal), daemon=True).start()


def grandchild(stream, data, delay):
    """A process that outlives this one and writes later."""
    fd = 1 if stream == "stdout" else 2
    p = subprocess.Popen([sys.executable, "-S", "-c", f"import os,sys,time; d=sys.stdin.buffer.read(); time.sleep({delay}); os.write({fd}, d)"], stdin=subprocess.PIPE)
    p.stdin.write(data)
    p.stdin.close()
    p.returncode = 0
    return p.pid
