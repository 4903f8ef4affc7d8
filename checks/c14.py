"""C14: children end when they should, and daemons outlive their parent."""
import json, os, random, signal, subprocess, sys, threading, time
import psutil
import teleprox
from teleprox import RPCServer
from vf.rpc import RPCClient, uniq
from checks.c13 import box

TECHNIQUE = "runtime monitoring with fault injection: state model of each process versus process table, exit codes, exceptions and elapsed time; programs ended in many ways, their processes observed from outside"
NOTE = "Samples histories of stop/kill/wait/poll with children that exit, crash or are stopped meanwhile, and programs with children and daemons that end in all ways."
LEVEL = "exploration"
RULE = "One evaluation = one operation or process judged. Distinct = sequences of four operations per kind of child, and (way of ending, children, daemons) combinations of programs."
ASSUMPTIONS = ["A repeated stop() or kill() returns None or the exit code.", "'Responsive' children reply within 0.5 s.", "Children of killed programs are not judged."]
SCENARIOS = {
    "ops": {"quick": (4, 24), "thorough": (6, 200), "min": 60},
    "programs": {"quick": (3, 16), "thorough": (6, 200), "min": 20},
    "daemons": {"quick": (1, 12), "thorough": (3, 120), "min": 30},
}
LOST = 40
TMP = os.environ.get("VF_DIR", "/tmp")


def alive(pid):
    try:
        with open(f"/proc/{pid}/stat") as f:
            return f.read().rsplit(")", 1)[1].split()[0] not in "ZX"
    except OSError:
        return False


def wait_dead(pid, limit):
    end = time.monotonic() + limit
    while alive(pid) and time.monotonic() < end:
        time.sleep(.01)
    return not alive(pid)


KINDS = [{}, {}, {}, {"qt": True}, {"log_stdio": True}, {"stdout": "pipe"}, {"start_local_server": True}, {"shell": True}]


def s_ops(ctx):
    rng = ctx.rng
    while ctx.more():
        kw = dict(rng.choice(KINDS))
        shown = dict(kw)
        if kw.get("stdout") == "pipe":
            kw["stdout"] = subprocess.PIPE
        with ctx.guard(60, "hangs", f"start_process({kw})"):
            p = teleprox.start_process(**kw)
        shell = kw.get("shell")
        code, hist = None, []  # expected exit code once it has ended
        stopped = busy = False
        waiter = None
        got = []
        n = rng.randint(2, 9)
        osm = p.client._import("os")
        for i in range(n):
            if code is None:
                op = rng.choice(["poll", "wait short", "call", "exit", "crash", "sigterm", "sigkill", "close", "stop", "stop", "kill", "sigstop", "waiter", "output", "busy", "grandchild"])
            else:
                op = rng.choice(["poll", "wait", "wait short", "stop", "kill", "alive", "disconnect"])
            if i == 0 and rng.random() < .35:
                op = "grandchild" if "stdout" in kw else "busy"
            if op == "output" and "stdout" not in kw and "log_stdio" not in kw:
                continue
            if op == "busy" and rng.random() < .3 or op == "grandchild" and "stdout" not in kw and rng.random() < .8:
                continue
            if (stopped or busy) and op in ("call", "exit", "crash", "output", "close", "sigstop", "busy", "grandchild"):
                op = rng.choice(["poll", "wait short", "stop", "kill"])
            if op == "waiter" and (waiter is not None or "stdout" in kw):
                # (wait() reads a pipe, which only one thread can do)
                continue
            hist = (hist + [op])[-4:]
            ctx.sig("ops", sorted(shown), tuple(hist))
            what = f"{shown}: {hist}"
            ctx.ev()
            t0 = time.monotonic()
            with ctx.guard(60, "hangs", what):
                code = operate(ctx, rng, p, osm, op, code, what, shell, stopped, got)
            if op == "sigstop":
                stopped = True
            if op == "busy":
                busy = True
                ctx.count("busy")
            if op == "grandchild":
                ctx.count("grandchildren")
            if op == "waiter":
                waiter = threading.Thread(target=waiting, args=(p, got), daemon=True)
                waiter.start()
                if rng.random() < .5:
                    time.sleep(.02)
            if code is not None:
                stopped = False
                ctx.check(not alive(p.pid), "still-alive", f"{what}: process {p.pid} has not ended")
        if code is None:
            if stopped:
                os.kill(p.pid, signal.SIGCONT)
            with ctx.guard(60, "hangs", f"{shown}: {hist}, final stop()"):
                try:
                    t0, ticks = time.monotonic(), ctx.heart.ticks
                    r = p.stop()
                    ctx.check(r == 0, "exit-code", f"{shown}: {hist}: final stop() returned {r!r}")
                    code = 0
                except Exception as e:
                    if not stopped:
                        ctx.violate("stop-fails", f"{shown}: {hist}: final stop() raised {type(e).__name__} {e} after {time.monotonic() - t0:.1f} s "
                                    f"({ctx.heart.ticks - ticks} heartbeats), process alive: {alive(p.pid)}")
                    p.kill()
                    code = "any"
            ctx.check(wait_dead(p.pid, 5), "still-alive", f"{shown}: {hist}: the process has not ended")
        if waiter is not None:
            waiter.join(20)
            ctx.check(len(got) == 1 and (got[0] == code or code == "any"), "exit-code", f"{shown}: {hist}: wait() in another thread gave {got} instead of {code}")
        if RPCServer.get_server() is not None:
            RPCServer.get_server().close()
        p.client.close()
        if p.proc.stdout is not None and "log_stdio" not in kw:
            p.proc.stdout.close()


def waiting(p, got):
    try:
        got.append(p.wait(timeout=50))
    except Exception as e:
        got.append(f"{type(e).__name__} {e}")


def operate(ctx, rng, p, osm, op, code, what, shell, stopped, got):
    """Perform one operation and judge it; -> expected exit code, or None while the process runs."""
    bad = lambda kind, msg: ctx.violate(kind, f"{what}: {msg}")
    t0 = time.monotonic()
    if op == "poll":
        r = p.poll()
        if r != code:
            bad("poll", f"poll() returned {r!r} instead of {code!r}")
    elif op == "wait":
        try:
            r = p.wait(rng.choice([.1, 10, 30])) if rng.random() < .7 else p.wait()
            if r != code:
                bad("exit-code", f"wait() returned {r!r} instead of {code!r}")
        except Exception as e:
            bad("exit-code", f"wait() after the end raised {type(e).__name__} {e}")
    elif op == "wait short":
        t = rng.choice([0, .02, .1, .3])
        try:
            r = p.wait(timeout=t)
            if code is None:
                bad("exit-code", f"wait({t}) returned {r!r} although the process runs")
            elif r != code:
                bad("exit-code", f"wait() returned {r!r} instead of {code!r}")
        except TimeoutError:
            el = time.monotonic() - t0
            if code is not None:
                bad("exit-code", f"wait({t}) raised TimeoutError after the end")
            elif el < t - .005 or el > t + 4:
                bad("wait-time", f"wait({t}) raised TimeoutError after {el:.2f} s")
        except Exception as e:
            bad("exit-code", f"wait({t}) raised {type(e).__name__} {e}")
        if code is None and not alive(p.pid):
            bad("ended", "the process ended by itself")
    elif op == "alive":
        if alive(p.pid):
            bad("still-alive", "the process is alive")
    elif op == "disconnect":
        p.client.close()
    elif op == "call":
        if osm.getpid() != p.pid:
            bad("wrong-process", "os.getpid() differs from pid")
    elif op in ("exit", "crash", "sigterm", "sigkill", "close"):
        if op == "exit":
            code = rng.choice([0, 1, 3, 77, 255])
            osm._exit(code, _sync="off")
        elif op == "crash":
            osm.abort(_sync="off") if rng.random() < .5 else osm.kill(p.pid, signal.SIGSEGV, _sync="off")
            code = None
        elif op == "sigterm":
            os.kill(p.pid, signal.SIGTERM)
            if stopped:
                os.kill(p.pid, signal.SIGCONT)
            code = -15
        elif op == "sigkill":
            os.kill(p.pid, signal.SIGKILL)
            code = -9
        else:
            p.client.close_server(timeout=LOST)
            code = 0
        if not wait_dead(p.pid, 15):
            bad("still-alive", "the process did not end")
        r = None
        end = time.monotonic() + 10
        while r is None and time.monotonic() < end:
            # (a shell ends a moment later)
            r = p.poll() if shell or rng.random() < .5 else p.wait()
        if op == "crash":
            if r not in (-6, -11) and not (shell and r in (134, 139)):
                bad("exit-code", f"the exit code of a crashed process is {r!r}")
        elif r != code and not (shell and code < 0 and r == 128 - code):
            bad("exit-code", f"the exit code is {r!r} instead of {code!r}")
        code = r
    elif op == "output":
        # more than fits into a pipe
        n = rng.choice([10, 1000, 60000])
        if p.proc.stdout is not None and p.stdio_logger is None:
            # nobody reads this pipe but wait(): no more than it can hold
            p.vf_out = getattr(p, "vf_out", 0)
            n = max(1, min(n, 64000 - p.vf_out))
            p.vf_out += n + 1
        osm.write(1, b"x" * n + b"\n")
    elif op == "sigstop":
        os.kill(p.pid, signal.SIGSTOP)
    elif op == "busy":
        # the next stop() has to wait for the end of this
        p.client._import("time").sleep(rng.choice([.7, 1.5, 2.5]), _sync="off")
    elif op == "grandchild":
        # holds the standard streams open after the end of the child
        p.client._import("subprocess").Popen(["sleep", "3"], _return_type="proxy")
    elif op == "stop":
        if stopped:
            try:
                p.stop(timeout=.3)
                bad("stop-fails", "stop() of a stopped process returned")
            except TimeoutError:
                if time.monotonic() - t0 > 6:
                    bad("wait-time", f"stop(timeout=.3) took {time.monotonic() - t0:.1f} s")
            return None
        try:
            r = p.stop() if rng.random() < .7 else p.stop(timeout=20)
        except Exception as e:
            bad("stop-fails", f"stop() raised {type(e).__name__} {e}")
            return p.poll()
        if code is None:
            if r != 0:
                bad("exit-code", f"stop() returned {r!r}")
            code = 0
        elif r not in (None, code):
            bad("exit-code", f"stop() after the end returned {r!r}")
    elif op == "kill":
        try:
            r = p.kill()
        except Exception as e:
            bad("kill-fails", f"kill() raised {type(e).__name__} {e}")
            return p.poll()
        if code is None:
            if not wait_dead(p.pid, 5):
                bad("still-alive", "the process lives after kill()")
            if r != -9 and not (shell and r == 137):
                bad("exit-code", f"kill() returned {r!r}")
            code = r
        elif r not in (None, code):
            bad("exit-code", f"kill() after the end returned {r!r}")
    return code


def serving(address, token):
    """Is the server with this token there?"""
    try:
        c = RPCClient(address)
    except (ConnectionRefusedError, TimeoutError) as e:
        return type(e).__name__
    try:
        return c["token"] == token
    except Exception as e:
        return f"{type(e).__name__} {e}"
    finally:
        c.close()


def s_programs(ctx):
    rng = ctx.rng
    root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    while ctx.more():
        kids = []
        for i in range(rng.choice([1, 2, 3])):
            daemon = rng.random() < .35
            kw = {"daemon": True} if daemon else dict(rng.choice([{}, {}, {"log_stdio": True}, {"start_local_server": True}, {"serializer": "json"}]))
            if rng.random() < .15:
                kw["qt"] = True
            k = {"kw": kw, "token": "p" + uniq()}
            if rng.random() < .4:
                k["do"] = rng.choice(["stop", "kill", "close client", "forget", "busy", "outstanding"] + ([] if daemon else ["close server", "crash"]))
                if k["do"] == "busy":
                    k["busy"] = rng.choice([.3, 1.5, 2.5])
            if rng.random() < .1 and not kw.get("start_local_server") and not daemon:
                k["thread"] = True
            kids.append(k)
        end = rng.choice(["normal", "normal", "exit", "exit", "exception", "interrupt", "thread exit", "os.kill", "group"])
        info, go = os.path.join(TMP, "info" + uniq()), os.path.join(TMP, "go" + uniq())
        plan = {"kids": kids, "end": "sleep" if end == "group" else end, "code": rng.choice([0, 5]), "info": info, "go": go, "local_server": rng.random() < .2 and not any(k["kw"].get("start_local_server") for k in kids)}
        what = f"program that ends by {end} with {[(k['kw'], k.get('do'), k.get('thread', False)) for k in kids]}, local server {plan['local_server']}"
        ctx.sig(end, sorted(str((k["kw"], k.get("do"), k.get("thread"))) for k in kids), plan["local_server"])
        with ctx.guard(100, "hangs", what):
            err = open(info + ".err", "wb+")
            pr = subprocess.Popen([sys.executable, os.path.join(root, "vf", "parent.py"), json.dumps(plan)], stdin=subprocess.DEVNULL, stdout=err, stderr=err, start_new_session=True,
                                  env={**os.environ, "PYTHONPATH": os.pathsep.join(["/repo", root])})
            limit = time.monotonic() + 40
            while not os.path.exists(info) and pr.poll() is None and time.monotonic() < limit:
                time.sleep(.01)
            if not os.path.exists(info):
                pr.kill()
                ctx.violate("program-fails", f"{what}: the program did not get ready: {open(info + '.err', errors='replace').read()[-700:]}")
                continue
            d = json.load(open(info))
            ctx.check(not d["zombies"], "zombie", f"{what}: zombies {d['zombies']} in the program")
            for k, i in zip(kids, d["kids"]):
                do = k.get("do")
                if do in ("stop", "kill", "close server", "crash"):
                    ctx.check(wait_dead(i["pid"], 10), "still-alive", f"{what}: process {i['pid']} lives after {do}")
                else:
                    ctx.check(alive(i["pid"]), "ended", f"{what}: process {i['pid']} ({k['kw']}, {do}) is not alive")
            open(go, "w").close()
            if end == "group":
                # what a terminal does
                os.killpg(pr.pid, rng.choice([signal.SIGTERM, signal.SIGHUP, signal.SIGINT, signal.SIGKILL]))
            try:
                code = pr.wait(25)
            except subprocess.TimeoutExpired:
                ctx.violate("program-hangs", f"{what}: the program did not end: {open(info + '.err', errors='replace').read()[-500:]}")
                pr.kill()
                pr.wait()
                code = None
            if code is not None and end in ("normal", "thread exit", "exit", "exception"):
                want = {"normal": 0, "thread exit": 0, "exit": plan["code"], "exception": 1}[end]
                ctx.check(code == want, "program-exit-code", f"{what}: exit code {code} instead of {want}: {open(info + '.err', errors='replace').read()[-500:]}")
            for k, i in zip(kids, d["kids"]):
                do, pid = k.get("do"), i["pid"]
                if do in ("stop", "kill", "close server", "crash"):
                    ctx.check(not alive(pid), "still-alive", f"{what}: process {pid} is alive again")
                elif k["kw"].get("daemon"):
                    ctx.check(alive(pid), "daemon-ended", f"{what}: daemon {pid} has not survived")
                    r = serving(i["address"], i["token"])
                    if r is not True and alive(pid):
                        time.sleep(.5)
                        r = serving(i["address"], i["token"])
                    ctx.check(r is True, "daemon-ended", f"{what}: daemon does not serve any more: {r}")
                    end_daemon(ctx, rng, what, i)
                elif end not in ("os.kill", "group"):
                    ctx.check(wait_dead(pid, 12), "still-alive", f"{what}: child {pid} ({k['kw']}, {do}) survives the normal exit of its parent")
                    ctx.count("children stopped at exit")
                if alive(pid):
                    os.kill(pid, signal.SIGKILL)
            err.close()
            for f in (info, go, info + ".err"):
                os.unlink(f)
        reap()


def reap():
    """Orphans become children of this process."""
    for p in psutil.Process().children():
        try:
            if p.status() == psutil.STATUS_ZOMBIE:
                os.waitpid(p.pid, os.WNOHANG)
        except (psutil.Error, ChildProcessError):
            pass


def end_daemon(ctx, rng, what, i):
    """A daemon is ended by whoever connects to it."""
    if not alive(i["pid"]):
        return
    c = RPCClient(i["address"])
    d = teleprox.process.DaemonProcess(c, "d", False, i["pid"])
    how = rng.choice(["stop", "kill"])
    try:
        getattr(d, how)()
    except Exception as e:
        ctx.violate("stop-fails", f"{what}: {how}() of the daemon raised {type(e).__name__} {e}")
    ctx.check(wait_dead(i["pid"], 12), "still-alive", f"{what}: daemon lives after {how}()")
    c.close()
    ctx.count("daemons ended")


def s_daemons(ctx):
    """Histories of a daemon in the process that started it."""
    rng = ctx.rng
    while ctx.more():
        kw = dict(rng.choice([{}, {}, {"qt": True}, {"shell": True}, {"serializer": "json"}, {"log_level": 40}]))
        with ctx.guard(60, "hangs", f"daemon {kw}"):
            before = {c.pid for c in psutil.Process().children()}
            p = teleprox.start_process(daemon=True, **kw)
            what = f"daemon {kw}"
            ident = p.client._import("os")
            ctx.check(ident.getpid() == p.pid, "wrong-process", f"{what}: pid is {p.pid}, not {ident.getpid()}")
            ctx.check(ident.getsid(0) != os.getsid(0), "not-detached", f"{what}: is in the session of its parent")
            ctx.check(ident.getpgid(0) != os.getpgid(0), "not-detached", f"{what}: is in the process group of its parent")
            fds = [ident.readlink(f"/proc/self/fd/{k}") for k in range(3)]
            ctx.check(fds == ["/dev/null"] * 3, "not-detached", f"{what}: std streams are {fds}")
            ended = False
            hist = []
            for k in range(rng.randint(1, 5)):
                op = rng.choice(["call", "stop", "kill", "print", "crash", "reconnect"])
                hist.append(op)
                ctx.sig("daemon", sorted(kw), tuple(hist[-3:]))
                what = f"daemon {kw}: {hist}"
                ctx.ev()
                try:
                    if op == "call" and not ended:
                        ctx.check(p.client.ping() == "pong", "daemon-ended", what)
                    elif op == "reconnect" and not ended:
                        p.client.close()
                        p.client = RPCClient(p.client.address)
                        ident = p.client._import("os")
                    elif op == "print" and not ended:
                        ident.write(1, b"to nowhere\n")
                        p.client._import("builtins").print("x" * 100000)
                    elif op == "crash" and not ended:
                        ident._exit(3, _sync="off")
                        ended = True
                        ctx.check(wait_dead(p.pid, 10), "still-alive", f"{what}: not ended")
                        p.client.disconnected()
                    elif op == "stop" and "crash" not in hist and "kill" not in hist:
                        p.stop()
                        ended = True
                    elif op == "kill":
                        p.kill()
                        ended = True
                except Exception as e:
                    ctx.violate("stop-fails", f"{what}: {type(e).__name__} {str(e)[-400:]}")
                if ended:
                    ctx.check(wait_dead(p.pid, 12), "still-alive", f"{what}: the daemon lives")
                else:
                    ctx.check(alive(p.pid), "daemon-ended", f"{what}: the daemon has ended")
            if not ended:
                p.kill()
                ctx.check(wait_dead(p.pid, 5), "still-alive", f"{what}: the daemon lives after kill()")
            p.client.close()
        reap()
