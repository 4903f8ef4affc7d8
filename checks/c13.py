"""C13: start_process yields a connected, configured child or leaves nothing behind."""
import logging, os, random, signal, socket, stat, subprocess, sys, threading, time
import psutil
import teleprox
from teleprox import RPCServer, log
import teleprox.process as tp
from vf.rpc import RPCClient, uniq

TECHNIQUE = "runtime monitoring with fault injection: configuration queried from inside each child compared with the arguments; process table checked after every failure"
NOTE = "Samples combinations of arguments and failing environments; each start is compared completely."
LEVEL = "exploration"
RULE = "One evaluation = one configured aspect of one start that was compared, or one failure judged. Distinct = combinations of arguments, and kinds of failure."
ASSUMPTIONS = ["Names do not begin with '-' (the bootstrap script takes them for options).", "Processes are looked for among the descendants of the monitor, which adopts orphans."]
SCENARIOS = {
    "configs": {"quick": (4, 16), "thorough": (6, 200), "min": 150},
    "failures": {"quick": (2, 14), "thorough": (4, 150), "min": 20},
    "hung": {"quick": (1, 12), "thorough": (2, 40), "min": 2},
}
LOST = 40
TMP = os.environ.get("VF_DIR", "/tmp")


class Capture(logging.Handler):
    def __init__(self):
        super().__init__()
        self.records = []

    def emit(self, rec):
        self.records.append((rec.name, rec.levelno, rec.getMessage(), getattr(rec, "process_name", rec.processName)))

    def wait(self, text, limit=15):
        end = time.monotonic() + limit
        while time.monotonic() < end:
            if any(text in r[2] for r in list(self.records)):
                return True
            time.sleep(.01)
        return False


def descendants():
    out = []
    for p in psutil.Process().children(recursive=True):
        try:
            if p.status() != psutil.STATUS_ZOMBIE:
                out.append(p.pid)
        except psutil.NoSuchProcess:
            pass
    return set(out)


def zombies():
    out = []
    for p in psutil.Process().children():
        try:
            if p.status() == psutil.STATUS_ZOMBIE:
                out.append(p.pid)
        except psutil.NoSuchProcess:
            pass
    return out


def adopt():
    """Reap orphans, as the init process does (this process is their 'subreaper')."""
    for pid in zombies():
        try:
            os.waitpid(pid, os.WNOHANG)
        except ChildProcessError:
            pass


def free_port():
    """A port that nobody uses (below those that the system gives to anybody)."""
    with open("/proc/sys/net/ipv4/ip_local_port_range") as f:
        low = int(f.read().split()[0])
    while True:
        p = random.randrange(max(1100, low - 15000), max(low, 3000))
        with socket.socket() as s:
            try:
                s.bind(("127.0.0.1", p))
                return p
            except OSError:
                pass


NAMES = ["pre-one", "p q two", "pre-", "plain", "with space", "quo'te", 'dq"x', "$HOME `ls`", "a;b|c&d>e", "\u00fc\u20ac\U0001f600", "tab\tx", "x" * 200, "--", "*", "back\\slash", "new\nline", "", "a=b", "%s %d {0}", "[br]"]
NAMES.remove("--")


def pick(rng, log_addr):
    kw = {}
    if rng.random() < .7:
        kw["name"] = rng.choice(NAMES) + (uniq() if rng.random() < .5 else "")
    r = rng.random()
    if r < .12:
        kw["address"] = f"ipc://{TMP}/ad{uniq()}"
    elif r < .24:
        kw["address"] = f"tcp://127.0.0.1:{free_port()}"
    elif r < .3:
        kw["address"] = "tcp://127.0.0.1:*"
    if "address" in kw and rng.random() < .4:
        kw["address"] = kw["address"].encode()
    if rng.random() < .25:
        kw["qt"] = True
    if rng.random() < .4:
        kw["log_addr"] = rng.choice([log_addr, log_addr.decode()])
    if rng.random() < .5:
        kw["log_level"] = rng.choice([10, 20, 30, 40, 5, 37, "debug", "WARNING", "info", "ERROR"])
    if rng.random() < .2:
        kw["daemon"] = True
    else:
        r = rng.random()
        if r < .2:
            kw["log_stdio"] = rng.choice([True, False])
        elif r < .45:
            kw["stdout"] = rng.choice(["pipe", "file", "devnull"])
            if rng.random() < .5:
                kw["stderr"] = rng.choice(["pipe", "file", "stdout"])
        if rng.random() < .15:
            kw["stdin"] = rng.choice(["pipe", "pipe", "own"])
    if rng.random() < .25:
        kw["shell"] = True
    if rng.random() < .4:
        kw["serializer"] = rng.choice(["json", "msgpack"])
    if rng.random() < .25:
        kw["start_local_server"] = True
    if rng.random() < .15:
        kw["executable"] = sys.executable
    if rng.random() < .12:
        kw["conda_env"] = rng.choice(["envA", "my-env2"])
    return kw


def fake_conda():
    """A conda on the PATH that runs the command with a mark of the environment (in its own process or in a child)."""
    d = os.path.join(TMP, "bin")
    os.makedirs(d, exist_ok=True)
    for name, text in [("conda", '[ "$1 $2 $3" = "run --no-capture-output -n" ] || exit 9\nexport VF_CONDA="$4"\nshift 4\n[ "$VF_CONDA" = envA ] && exec "$@"\n"$@"\nexit $?\n'), ("python", f'[ -n "$VF_CONDA" ] || exit 8\nexec {sys.executable} "$@"\n')]:
        with open(os.path.join(d, name), "w") as f:
            f.write("#!/bin/bash\n" + text)
        os.chmod(os.path.join(d, name), 0o755)
    os.environ["PATH"] = d + os.pathsep + os.environ["PATH"]


def level_of(x):
    return x if isinstance(x, int) else getattr(logging, x.upper())


def s_configs(ctx):
    logging.getLogger("teleprox.process").setLevel(20)
    cap = Capture()
    lg = logging.getLogger("vfc13")
    lg.propagate = False
    lg.setLevel(1)
    lg.addHandler(cap)
    server = log.LogServer(lg)
    rng = ctx.rng
    fake_conda()
    names_before = tp.PROCESS_NAME_PREFIX
    while ctx.more():
        n = rng.choice([1, 1, 1, 3])
        prefix = rng.choice(["", "", "pre-", "p q "])
        tp.PROCESS_NAME_PREFIX = prefix
        before = descendants()
        ths = []
        for i in range(n):
            r = random.Random(rng.random())
            t = threading.Thread(target=box, args=(ctx, one, ctx, r, pick(r, server.address), prefix, cap), daemon=True)
            t.start()
            ths.append(t)
        for t in ths:
            t.join(120)
        ctx.count("concurrent starts", n > 1)
        end = time.monotonic() + 8
        left = descendants() - before
        while left and time.monotonic() < end:
            time.sleep(.02)
            left = descendants() - before
        ctx.check(not left, "process-left", f"processes {left} are still running after stop()")
        if left:
            for p in left:
                os.kill(p, signal.SIGKILL)
    tp.PROCESS_NAME_PREFIX = names_before


def box(ctx, fn, *a):
    from vf.core import Stop
    try:
        fn(*a)
    except Stop:
        pass
    except Exception:
        import traceback
        ctx.violate("unexpected-error", traceback.format_exc()[-1500:])


def one(ctx, rng, kw, prefix, cap):
    shown = dict(kw)
    what = f"start_process({shown}), prefix {prefix!r}"
    ctx.sig(*[(k, type(v).__name__ if k in ("address", "log_addr") else v if k != "name" else v[:4]) for k, v in sorted(kw.items())], prefix)
    args = dict(kw)
    files = {}
    for k in ("stdout", "stderr", "stdin"):
        v = args.get(k)
        if v == "pipe":
            args[k] = subprocess.PIPE
        elif v == "devnull":
            args[k] = subprocess.DEVNULL
        elif v == "stdout":
            args[k] = subprocess.STDOUT
        elif v == "own":
            # (the worker's own input is made recognizable)
            own = os.path.join(TMP, "own-stdin")
            if os.readlink("/proc/self/fd/0") != own:
                fd = os.open(own, os.O_RDONLY | os.O_CREAT)
                os.dup2(fd, 0)
                os.close(fd)
            args[k] = 0
        elif v == "file":
            files[k] = os.path.join(TMP, "o" + uniq())
            args[k] = open(files[k], "wb")
    with ctx.guard(70, "hangs", what):
        try:
            p = teleprox.start_process(**args)
        except Exception as e:
            ctx.violate("start-fails", f"{what}: {type(e).__name__} {str(e)[-700:]}")
            return
        try:
            inspect(ctx, rng, kw, prefix, cap, what, p, files)
        finally:
            try:
                p.stop()
            except Exception as e:
                ctx.violate("start-fails", f"{what}: stop() raised {type(e).__name__} {str(e)[-300:]}")
            if kw.get("start_local_server") and RPCServer.get_server() is not None:
                RPCServer.get_server().close()
            for f in (p.proc.stdin, p.proc.stdout, p.proc.stderr) if hasattr(p, "proc") else ():
                if f is not None and not kw.get("log_stdio", "log_addr" in kw):
                    f.close()
            p.client.close()
            for f in files.values():
                os.unlink(f)


def inspect(ctx, rng, kw, prefix, cap, what, p, files):
    inside = p.client._import("vf.inside")
    d = inside.describe(_return_type="value")
    same = lambda kind, got, want: ctx.check(got == want, kind, f"{what}: {kind}: {got!r} instead of {want!r}")
    base = kw["name"] if "name" in kw else log.get_process_name() + "_child"
    same("name", d["name"], prefix + base)
    same("object-name", p.name, prefix + base)
    same("prefix", d["prefix"], prefix)
    if prefix and rng.random() < .3 and not kw.get("qt"):
        same("prefix-of-grandchild", inside.child_of_child(_timeout=LOST), prefix + "inner")
    same("pid", d["pid"], p.pid)
    qt = kw.get("qt", False)
    same("server-type", d["server"], "QtRPCServer" if qt else "RPCServer")
    same("object-qt", p.qt, qt)
    same("conda-environment", d["conda"], kw.get("conda_env"))
    same("server-thread", d["main"], True)
    if qt:
        same("qt-thread", d["qt_thread"], True)
    same("address", d["address"], p.client.address.decode())
    if "address" in kw:
        a = kw["address"].decode() if isinstance(kw["address"], bytes) else kw["address"]
        if a.endswith("*"):
            ctx.check(d["address"].startswith(a[:-1]), "address", f"{what}: address {d['address']}")
        else:
            same("address", d["address"], a)
    else:
        ctx.check(d["address"].startswith("tcp://127.0.0.1:"), "address", f"{what}: address {d['address']}")
    if "log_level" in kw:
        same("log-level", d["level"], level_of(kw["log_level"]))
    la = kw.get("log_addr")
    same("log-address", d["log_addr"], la.decode() if isinstance(la, bytes) else la)
    same("serializer", p.client.serializer.type, kw.get("serializer", "msgpack"))
    daemon = kw.get("daemon", False)
    same("daemon", type(p).__name__, "DaemonProcess" if daemon else "ChildProcess")
    if daemon:
        same("daemon-session", d["sid"] == os.getsid(0), False)
        same("daemon-streams", d["fds"], ["/dev/null"] * 3)
        tree = {q.pid for q in psutil.Process().children()} if d["ppid"] == os.getpid() else ()
    else:
        same("session", d["sid"], os.getsid(0))
        if not kw.get("shell") and kw.get("conda_env") != "my-env2":
            same("parent", d["ppid"], os.getpid())
        if kw.get("stdin") == "pipe":
            same("stdin", d["fds"][0].startswith("pipe:"), True)
        else:
            same("stdin", d["fds"][0], os.readlink("/proc/self/fd/0") if kw.get("stdin") else "/dev/null")
        if "stdout" not in kw and not kw.get("log_stdio", "log_addr" in kw):
            same("stdout", d["fds"][1], os.readlink("/proc/self/fd/1"))
        if "stderr" not in kw and not kw.get("log_stdio", "log_addr" in kw):
            same("stderr", d["fds"][2], os.readlink("/proc/self/fd/2"))
    if kw.get("start_local_server"):
        ctx.check(RPCServer.get_server() is not None, "local-server", f"{what}: no local server")
        k = rng.random()
        same("callback", inside.call(lambda x: x + 1, k), k + 1)
    # std streams
    tok = "T" + uniq() + "Z"
    if kw.get("stdout") == "file":
        inside.write(1, tok + "out\n")
        same("stdout-file", tok + "out\n" in open(files["stdout"]).read(), True)
    elif kw.get("stdout") == "pipe":
        inside.write(1, tok + "out\n")
        same("stdout-pipe", p.proc.stdout.readline(), (tok + "out\n").encode())
    if kw.get("stderr") == "file":
        inside.write(2, tok + "err\n")
        same("stderr-file", tok + "err\n" in open(files["stderr"], errors="replace").read(), True)
    elif kw.get("stderr") == "pipe":
        inside.write(2, tok + "err\n")
        line = b"x"
        while line and line != (tok + "err\n").encode():
            line = p.proc.stderr.readline()
        same("stderr-pipe", line, (tok + "err\n").encode())
    elif kw.get("stderr") == "stdout" and kw["stdout"] == "file":
        inside.write(2, tok + "err\n")
        same("stderr-to-stdout", tok + "err\n" in open(files["stdout"], errors="replace").read(), True)
    if kw.get("stdin") == "pipe":
        p.proc.stdin.write((tok + "in\n").encode())
        p.proc.stdin.flush()
        same("stdin-pipe", inside.read_line(), tok + "in\n")
    # log records
    if la is not None:
        lev = level_of(kw["log_level"]) if "log_level" in kw else 50
        inside.log_it(max(lev, 1), tok + "log")
        ctx.check(cap.wait(tok + "log"), "log-address", f"{what}: a record of the child did not reach the log server")
        if "log_level" in kw:
            ctx.check(not inside.enabled(lev - 1), "log-level", f"{what}: records below the log level are enabled")
        for r in list(cap.records):
            if tok + "log" in r[2]:
                same("name-in-record", r[3], prefix + base)
    if not daemon and kw.get("log_stdio", la is not None) and "stdout" not in kw and "stderr" not in kw and la is not None:
        if level_of(kw.get("log_level", logging.getLogger("teleprox.process").getEffectiveLevel())) <= 20:
            inside.out(tok + "print")
            ctx.check(cap.wait(tok + "print"), "log-stdio", f"{what}: a printed line was not logged")
    elif not daemon and kw.get("log_stdio") is False and la is not None:
        same("log-stdio", d["fds"][1], os.readlink("/proc/self/fd/1"))


def no_trace(ctx, what, before, limit=5):
    end = time.monotonic() + limit
    left = descendants() - before
    while left and time.monotonic() < end:
        time.sleep(.02)
        left = descendants() - before
    cmds = []
    for pid in left:
        try:
            cmds.append(" ".join(psutil.Process(pid).cmdline())[:200])
        except psutil.Error:
            pass
    ctx.check(not left, "process-left", f"{what}: processes {left} remain: {cmds}")
    for pid in left:
        try:
            os.kill(pid, signal.SIGKILL)
        except ProcessLookupError:
            pass


def s_failures(ctx):
    rng = ctx.rng
    orphans = ctx.params.get("w", 0) % 2 == 1
    busy = socket.socket()
    busy.bind(("127.0.0.1", 0))
    busy.listen(1)
    taken = f"tcp://127.0.0.1:{busy.getsockname()[1]}"
    script = os.path.join(TMP, "noexec" + uniq())
    open(script, "w").write("#!/bin/sh\nexit 3\n")
    # (error class, text that must be mentioned, arguments)
    cases = [
        ("taken port", RuntimeError, ["in use"], {"address": taken}),
        ("taken port", RuntimeError, ["in use"], {"address": taken.encode()}),
        ("bad address", RuntimeError, ["ZMQError"], {"address": "nonsense"}),
        ("bad protocol", RuntimeError, ["not supported"], {"address": "foo://127.0.0.1:*"}),
        ("bad host", RuntimeError, ["ZMQError"], {"address": "tcp://no.such.host.invalid:*"}),
        ("missing folder", RuntimeError, ["No such file"], {"address": f"ipc://{TMP}/missing/x"}),
        ("too long path", RuntimeError, ["ZMQError"], {"address": "ipc://" + TMP + "/" + "x" * 300}),
        ("foreign interface", RuntimeError, ["ZMQError"], {"address": "tcp://192.0.2.77:5555"}),
        ("no executable", FileNotFoundError, ["missing-python"], {"executable": f"{TMP}/missing-python"}),
        ("not executable", PermissionError, [], {"executable": script}),
        ("unknown serializer", ValueError, ["nonsense"], {"serializer": "nonsense"}),
        ("wrong type", AssertionError, [], {"name": 3}),
        ("wrong type", AssertionError, [], {"daemon": "yes"}),
        ("wrong type", AssertionError, [], {"log_level": 1.5}),
        ("contradiction", AssertionError, [], {"log_stdio": True, "stdout": subprocess.PIPE}),
        ("contradiction", AssertionError, [], {"daemon": True, "stdout": subprocess.PIPE, "name": "x"}),
        ("contradiction", AssertionError, [], {"daemon": True, "log_stdio": True}),
    ]
    todo = []
    while ctx.more():
        if not todo:
            todo = list(cases)
            rng.shuffle(todo)
        label, exc, texts, kw = todo.pop()
        kw = dict(kw)
        if label in ("taken port", "bad address", "bad protocol", "missing folder", "unknown serializer", "foreign interface", "bad host", "too long path"):
            if orphans:
                kw.update(rng.choice([{"daemon": True}, {"shell": True}, {}]))
            if rng.random() < .3:
                kw["qt"] = True
            if rng.random() < .2 and not kw.get("daemon"):
                kw["log_stdio"] = True
            if rng.random() < .3:
                kw["start_local_server"] = True
        what = f"{label}: start_process({kw})"
        ctx.sig(label, sorted(k for k in kw if k != "address"))
        before = descendants()
        with ctx.guard(70, "hangs", what):
            err = None
            try:
                p = teleprox.start_process(**kw)
            except BaseException as e:
                err = e
            if err is None:
                ctx.violate("no-error", f"{what} did not raise")
                try:
                    p.stop()
                except Exception:
                    pass
            else:
                ctx.check(isinstance(err, exc), "wrong-error", f"{what} raised {type(err).__name__} {str(err)[-500:]}")
                for t in texts:
                    ctx.check(t in str(err), "uninformative-error", f"{what}: the error does not tell {t!r}: {str(err)[-500:]}")
            err = None
            no_trace(ctx, what, before)
            # (processes that were started by a shell or as a daemon become children of this process, which does not reap them at once)
            if orphans:
                adopt()
            else:
                ctx.check(not zombies(), "zombie", f"{what}: zombies {zombies()} remain")
            if RPCServer.get_server() is not None:
                RPCServer.get_server().close()
            if rng.random() < .4:
                # and it works again, with the same port or name
                if label == "taken port" and rng.random() < .5:
                    busy.close()
                    try:
                        p = teleprox.start_process(address=taken)
                        ctx.check(p.client.ping() == "pong", "later-start", f"after {what}: ping")
                        p.stop()
                        p.client.close()
                    except Exception as e:
                        ctx.violate("later-start", f"after {what}: {type(e).__name__} {str(e)[-400:]}")
                    busy = socket.socket()
                    busy.bind(("127.0.0.1", 0))
                    busy.listen(1)
                    new = f"tcp://127.0.0.1:{busy.getsockname()[1]}"
                    cases[0] = cases[0][:3] + ({"address": new},)
                    cases[1] = cases[1][:3] + ({"address": new.encode()},)
                    taken, todo = new, []
                else:
                    try:
                        p = teleprox.start_process("again")
                        ctx.check(p.client.ping() == "pong", "later-start", f"after {what}: ping")
                        p.stop()
                        p.client.close()
                    except Exception as e:
                        ctx.violate("later-start", f"after {what}: {type(e).__name__} {str(e)[-400:]}")


def s_hung(ctx):
    """Children that never report back, and spawners that never answer (these take 10 s)."""
    rng = ctx.rng
    scripts = {}
    for label, text in (("silent", "exec sleep 100"), ("ends at once", "exit 3"), ("crashes", "kill -9 $$"), ("ignores signals", "trap '' TERM INT HUP\nexec sleep 100")):
        path = scripts[label] = os.path.join(TMP, "fake" + uniq())
        open(path, "w").write("#!/bin/sh\n" + text + "\n")
        os.chmod(path, 0o755)
    before = descendants()
    results = {}

    def start(label, kw):
        t0 = time.monotonic()
        try:
            p = teleprox.start_process(**kw)
            results[label] = ("no error", 0, kw)
            p.stop()
        except BaseException as e:
            results[label] = (e, time.monotonic() - t0, kw)

    def orphan():
        """A child whose spawner is not there any more."""
        port = free_port()
        pr = subprocess.Popen([sys.executable, "-m", "teleprox.bootstrap", "orphan", f"--bootstrap_addr=tcp://127.0.0.1:{port}"], stdin=subprocess.DEVNULL)
        t0 = time.monotonic()
        try:
            pr.wait(35)
            results["orphan"] = ("ended", time.monotonic() - t0, {})
        except subprocess.TimeoutExpired:
            pr.kill()
            pr.wait()
            results["orphan"] = ("runs forever", 35, {})
    jobs = [threading.Thread(target=start, args=(label, {"executable": path, **({"log_stdio": True} if rng.random() < .3 else {})}), daemon=True) for label, path in scripts.items()]
    jobs.append(threading.Thread(target=start, args=("shell, no executable", {"executable": f"{TMP}/missing", "shell": True, "stderr": subprocess.DEVNULL}), daemon=True))
    jobs.append(threading.Thread(target=start, args=("qt is not importable", {"executable": f"QT_API=nonsense PYTHONPATH={TMP}/none: {sys.executable} -S", "shell": True, "stderr": subprocess.DEVNULL}), daemon=True))
    jobs.append(threading.Thread(target=orphan, daemon=True))
    with ctx.guard(80, "hangs", "starting hung processes"):
        for j in jobs:
            j.start()
        for j in jobs:
            j.join(75)
    for label, (e, t, kw) in results.items():
        ctx.sig("hung", label)
        ctx.ev()
        if label == "orphan":
            ctx.check(e == "ended", "process-left", f"a process whose spawner does not answer {e}")
        else:
            ctx.check(isinstance(e, (TimeoutError, RuntimeError)), "wrong-error", f"{label}: {type(e).__name__} {e!s:.300}")
            ctx.check(t < 25, "hangs", f"{label}: the error came after {t:.0f} s")
    no_trace(ctx, "hung children", before)
    adopt()  # (of the shells)
    ctx.check(not zombies(), "zombie", f"zombies {zombies()} remain after failed starts")
    p = teleprox.start_process("again")
    ctx.check(p.client.ping() == "pong", "later-start", "ping after hung starts")
    p.stop()
