"""C24: unhandled exceptions are logged, each exactly once."""
import json, logging, os, random, signal, subprocess, sys, threading, time
import teleprox
from teleprox import log
from teleprox.log.remote import LogServer
from vf import excjobs, perturb
from vf.rpc import RPCClient, ThreadServer, child, uniq

TECHNIQUE = "runtime monitoring: log records counted and compared with the exceptions that were raised (token per exception), across repeated installation, threads, foreign hooks, processes and program ends"
NOTE = "Samples kinds of exceptions, texts, threads, moments and orders of installation; each exception is looked up in all records."
LEVEL = "exploration"
RULE = "One evaluation = one exception judged. Distinct = combinations of kinds, texts, kinds of threads and installation histories."
ASSUMPTIONS = ["The level of the root logger admits warnings.", "SystemExit is not considered.", "Threads are started by the threading module.", "A hook that the program installs later replaces the logging until log_exceptions() is called again."]
SCENARIOS = {
    "threads": {"quick": (3, 12), "thorough": (4, 120), "min": 800},
    "hooks": {"quick": (1, 10), "thorough": (2, 100), "min": 200},
    "identical": {"quick": (1, 10), "thorough": (2, 100), "min": 100},
    "processes": {"quick": (2, 14), "thorough": (4, 150), "min": 150},
    "programs": {"quick": (2, 13), "thorough": (3, 120), "min": 40},
}
TMP = os.environ.get("VF_DIR", "/tmp")
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LOST = 20


class Records(logging.Handler):
    def __init__(self):
        super().__init__()
        self.recs = []

    def emit(self, rec):
        try:
            text = rec.getMessage()
        except Exception as e:
            text = f"bad record {e!r}"
        if rec.exc_info and rec.exc_info[0]:
            text += "\n" + logging.Formatter().formatException(rec.exc_info)
        elif rec.exc_text:
            text += "\n" + rec.exc_text
        self.recs.append((text, rec.thread, rec.levelno, rec))


def ident(kind, tok):
    """What a record about this exception contains: the message does not always have the token."""
    return "T" + tok.replace("-", "_") if kind == "no args" else f"E<{tok}>"


def judge(ctx, what, kind, tok, text, recs, tb=True, thread=None):
    if kind == "no str":
        mine = [r for r in recs if "NoStr" in r[0] and (thread is None or r[1] == thread)]
        if thread is None:
            return
    else:
        mine = [r for r in recs if ident(kind, tok) in r[0]]
    ctx.ev()
    w = f"{what}: exception of kind {kind!r}, text {text[:40]!r}"
    if len(mine) != 1:
        ctx.violate("lost" if not mine else "repeated", f"{w}: {len(mine)} log records" + (f", first {mine[0][0][-700:]}" if mine else ""))
        return
    t, th, level, rec = mine[0]
    miss = [x for x in excjobs.expected(kind, tok, text, tb) if x not in t]
    ctx.check(not miss, "incomplete", f"{w}: the record lacks {miss}: {t[-900:]!r}")
    ctx.check(level >= logging.WARNING, "level", f"{w}: level {level}")
    if thread is not None:
        ctx.check(th == thread, "thread", f"{w}: logged with thread {th} instead of {thread}")


def pick(rng):
    return rng.choice(excjobs.KINDS), uniq() + f"-{rng.randrange(1 << 20):x}", rng.choice(excjobs.TEXTS)


def s_threads(ctx):
    """Many threads of this process, with repeated and concurrent installation."""
    rng = ctx.rng
    root, h = logging.getLogger(), Records()
    root.addHandler(h)
    if ctx.params.get("w", 0) % 3:
        perturb.enable(ctx.seed, .02, .002)
    log.log_exceptions()
    while ctx.more():
        h.recs.clear()
        n, inst = rng.choice([1, 3, 8, 20]), rng.choice(["none", "before", "concurrent", "each"])
        what = f"{n} exceptions, installation: {inst}"
        jobs = []
        stop = threading.Event()
        ths = []
        if inst == "before":
            excjobs.install(rng.choice([1, 5]))
        if inst == "concurrent":
            def again():
                while not stop.is_set():
                    excjobs.install(1)
                    time.sleep(.0005)
            ths = [threading.Thread(target=again, daemon=True) for _ in range(2)]
            for t in ths:
                t.start()
        with ctx.guard(60, "hangs", what):
            for _ in range(n):
                kind, tok, text = pick(rng)
                how = rng.choice(["thread", "daemon", "subclass", "timer", "nested", "hook", "hook no traceback"])
                if inst == "each":
                    excjobs.install(1)
                if how.startswith("hook"):
                    excjobs.by_hook(kind, tok, text, how == "hook")
                    th = threading.get_ident()
                else:
                    th = excjobs.in_thread(kind, tok, text, how)
                jobs.append((kind, tok, text, how, th))
                ctx.sig("thread", kind, text[:10], how, inst)
            end = time.monotonic() + LOST
            while any(t.name.startswith("thread-") for t in threading.enumerate()) and time.monotonic() < end:
                time.sleep(.0005)
            stop.set()
            for t in ths:
                t.join()
        recs = list(h.recs)
        for kind, tok, text, how, th in jobs:
            ctx.count(how)
            # (threads get the idents of others that have ended: "no str" is judged when it is alone)
            judge(ctx, f"{what}, {how}", kind, tok, text, recs, how != "hook no traceback", th if kind != "no str" or n == 1 else None)
        others = [r[0] for r in recs if "E<" not in r[0] and "NoStr" not in r[0] and not any(ident(j[0], j[1]) in r[0] for j in jobs)]
        ctx.check(not others, "unexpected-record", f"{what}: records without exception: {others[:2]}")


def s_identical(ctx):
    """Exceptions that look the same: as many records as exceptions."""
    rng = ctx.rng
    root, h = logging.getLogger(), Records()
    root.addHandler(h)
    log.log_exceptions()
    while ctx.more():
        h.recs.clear()
        kind, tok, text = pick(rng)
        while kind == "no str":
            kind, tok, text = pick(rng)
        n, how = rng.choice([2, 3, 10, 40]), rng.choice(["thread", "daemon", "subclass", "timer", "hook", "one by one", "mixed"])
        what = f"{n} times the same exception, {how}"
        ctx.sig("identical", kind, how, n)
        with ctx.guard(60, "hangs", what):
            for _ in range(n):
                x = how if how != "mixed" else rng.choice(["thread", "hook", "timer", "one by one"])
                if x == "hook":
                    excjobs.by_hook(kind, tok, text)
                else:
                    excjobs.in_thread(kind, tok, text, "thread" if x == "one by one" else x, x == "one by one")
                if rng.random() < .1:
                    time.sleep(rng.choice([.001, .02, .2]))
            wait_for(lambda: not any(t.name.startswith("thread-") for t in threading.enumerate()))
        ctx.ev(n)
        mine = [r for r in list(h.recs) if ident(kind, tok) in r[0]]
        ctx.count("identical", n)
        if len(mine) != n:
            ctx.violate("lost" if len(mine) < n else "repeated", f"{what}: kind {kind!r}: {len(mine)} log records")


def s_hooks(ctx):
    """Hooks that the program installs itself, before, between and after."""
    rng = ctx.rng
    root, h = logging.getLogger(), Records()
    root.addHandler(h)
    orig = sys.excepthook, threading.excepthook
    while ctx.more():
        sys.excepthook, threading.excepthook = orig
        hist, hooked = [], {"sys": False, "thread": False}
        for _ in range(rng.choice([2, 4, 8])):
            op = rng.choice(["install", "install", "own", "chain", "own thread", "chain thread", "reset"])
            hist.append(op)
            if op == "install":
                log.log_exceptions()
                hooked = {"sys": True, "thread": True}
            elif op == "own":
                sys.excepthook = lambda *a: None
                hooked["sys"] = False
            elif op == "own thread":
                threading.excepthook = lambda a: None
                hooked["thread"] = False
            elif op == "chain":
                sys.excepthook = lambda *a, prev=sys.excepthook if hooked["sys"] else (lambda *a: None): prev(*a)
            elif op == "chain thread":
                threading.excepthook = lambda a, prev=threading.excepthook if hooked["thread"] else (lambda a: None): prev(a)
            else:
                sys.excepthook, threading.excepthook = (lambda *a: None), (lambda a: None)
                hooked = {"sys": False, "thread": False}
            kind, tok, text = pick(rng)
            h.recs.clear()
            th = rng.random() < .5
            what = f"hooks {hist}, {'thread' if th else 'sys.excepthook'}"
            with ctx.guard(60, "hangs", what):
                if th:
                    t = excjobs.in_thread(kind, tok, text, "thread", True)
                else:
                    excjobs.by_hook(kind, tok, text)
                    t = threading.get_ident()
            ctx.sig("hooks", hist, th)
            if hooked["thread" if th else "sys"]:
                judge(ctx, what, kind, tok, text, list(h.recs), True, t)
            else:
                ctx.check(not h.recs, "unexpected-record", f"{what}: logged although another hook was installed: {[r[0][-200:] for r in h.recs]}")
    sys.excepthook, threading.excepthook = orig


def s_processes(ctx):
    """Exceptions in spawned processes reach the log server of this process."""
    rng = ctx.rng
    while ctx.more():
        lg = logging.Logger("vf" + uniq())
        h = Records()
        lg.addHandler(h)
        ls = LogServer(lg)
        qt = rng.random() < .3
        kw = {"log_level": rng.choice([logging.INFO, logging.WARNING]), **rng.choice([{}, {"log_stdio": False}, {"start_local_server": True}])}
        name = "vfp" + uniq()
        end = rng.choice(["stop", "stop", "close server", "wait", "stop at once"])
        what = f"process {kw}, qt={qt}, ends by {end}"
        jobs = []
        with ctx.guard(100, "hangs", what):
            p = teleprox.start_process(name, log_addr=ls.address, qt=qt, **kw)
            ex = p.client._import("vf.excjobs")
            if rng.random() < .4:
                ex.install(rng.choice([1, 3]))
            for _ in range(rng.choice([1, 4, 10])):
                kind, tok, text = pick(rng)
                if kind == "base":
                    kind = "custom"
                how = rng.choice(["thread", "daemon", "subclass", "timer", "hook", "request", "request", "attribute", "import"] + ["slot"] * 3 * qt)
                if how == "hook":
                    ex.by_hook(kind, tok, text)
                elif how == "request":
                    ex.fail(kind, tok, text, _sync="off")
                elif how == "attribute":
                    kind = "plain"
                    p.client.send("get_item", opts={"name": f"E<{tok}>"}, sync="off")
                elif how == "import":
                    p.client.send("import", opts={"module": f"E<{tok}>"}, sync="off")
                elif how == "slot":
                    ex.in_slot(kind, tok, text)
                else:
                    # (daemon threads just vanish when the process ends)
                    ex.in_thread(kind, tok, text, how, how in ("daemon", "subclass") or rng.random() < .3)
                jobs.append((kind, tok, text, how))
                ctx.sig("process", kind, text[:10], how, qt, sorted(kw))
            if end == "wait":
                wait_for(lambda: all(seen(h, j) for j in jobs))
            if any(j[3] == "slot" for j in jobs) and end != "stop at once":
                wait_for(lambda: all(seen(h, j) for j in jobs if j[3] == "slot"))
            if end == "close server":
                p.client.close_server()
                p.wait()
            elif end == "stop at once":
                p.client.ping()
                p.stop()
            else:
                p.stop()
            wait_for(lambda: all(seen(h, j) for j in jobs if j[3] != "slot"))
            time.sleep(.02)
            ls.stop()
        recs = list(h.recs)
        for kind, tok, text, how in jobs:
            ctx.count(how)
            w = f"{what}, {how}"
            if how in ("attribute", "import"):
                mine = [r for r in recs if f"E<{tok}>" in r[0]]
                ctx.check(len(mine) == 1, "lost" if not mine else "repeated", f"{w}: {len(mine)} log records: {[r[0][-500:] for r in mine]}")
                ctx.check(all(("KeyError" if how == "attribute" else "ModuleNotFoundError") in r[0] for r in mine), "incomplete", f"{w}: {[r[0][-500:] for r in mine]}")
            elif how == "slot" and end == "stop at once":
                continue
            elif kind != "no str":
                mine = [r for r in recs if ident(kind, tok) in r[0]]
                judge(ctx, w, kind, tok, text, recs)
            else:
                continue
            for r in mine[:1]:
                pn = getattr(r[3], "process_name", None) or getattr(r[3], "processName", None)
                ctx.check(name in str(pn), "process-name", f"{w}: the record names process {pn!r}")


def seen(h, j):
    kind, tok, text, how = j
    if how in ("attribute", "import"):
        return any(f"E<{tok}>" in r[0] for r in list(h.recs))
    return kind == "no str" or any(ident(kind, tok) in r[0] for r in list(h.recs))


def wait_for(fn):
    end = time.monotonic() + LOST
    while not fn() and time.monotonic() < end:
        time.sleep(.005)


def s_programs(ctx):
    """Programs whose main thread ends with an exception: the printed log has it."""
    rng = ctx.rng
    while ctx.more():
        kinds = [k for k in excjobs.KINDS if k not in ("no str",)]
        mk = lambda: (rng.choice(kinds), uniq() + f"-{rng.randrange(1 << 20):x}", rng.choice([t for t in excjobs.TEXTS if not set(t) & set("\0\x1b\n\u2028\x85")]))
        plan = {"config": rng.choice(["basic", "basic", "handler"]), "level": rng.choice(["INFO", "WARNING", "DEBUG"]), "kw": rng.choice([{}, {"start_server": False}, {"exceptions": True}]), "more": rng.choice([0, 1, 3]),
                "threads": [(*mk(), rng.choice(["thread", "subclass", "timer"])) for _ in range(rng.choice([0, 1, 4]))], "end": rng.choice([mk(), mk(), None])}
        if plan["config"] == "handler":
            plan["more"] = max(1, plan["more"])
        what = f"program with {plan['config']} {plan['kw']}, installed {plan['more']} more times, {len(plan['threads'])} threads, ends with {plan['end'] and plan['end'][0]}"
        ctx.sig("program", plan["config"], plan["kw"], plan["more"], sorted(t[0] for t in plan["threads"]), plan["end"] and plan["end"][0])
        with ctx.guard(60, "hangs", what):
            p = subprocess.run([sys.executable, os.path.join(ROOT, "vf", "excjobs.py"), json.dumps(plan)], stdin=subprocess.DEVNULL, capture_output=True, env={**os.environ, "PYTHONPATH": os.pathsep.join(["/repo", ROOT]), "PYTHONIOENCODING": "utf-8"})
        err = p.stderr.decode("utf-8", "replace")
        jobs = [t[:3] for t in plan["threads"]] + ([plan["end"]] if plan["end"] else [])
        for kind, tok, text in jobs:
            ctx.ev()
            i = ident(kind, tok)
            want = excjobs.expected(kind, tok, text)
            n = err.count(i)
            ctx.check(n == 1 or n == 2 and kind == "cycle", "lost" if n == 0 else "repeated", f"{what}: exception {kind!r} is printed {n} times: {err[-800:]}")
            miss = [x for x in want if x not in err]
            ctx.check(not miss, "incomplete", f"{what}: exception {kind!r}: {miss} not printed: {err[-800:]}")
        ctx.check(p.returncode == ((-signal.SIGINT if plan["end"][0] == "interrupt" else 1) if plan["end"] else 0), "exit-code", f"{what}: exit code {p.returncode}: {err[-500:]}")
