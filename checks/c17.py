"""C17: RPCLogHandler prints each record once, in order of creation."""
import json, logging, os, re, subprocess, sys, threading, time
import teleprox
from teleprox.log import LogServer, remote
from teleprox.log.handler import RPCLogHandler
from vf import perturb, logjobs
from vf.rpc import uniq

TECHNIQUE = "runtime monitoring: text written to the stream versus records emitted (exactly once, creation order of records that arrived in time, header), with schedule perturbation"
NOTE = "Samples threads, delays, orders of arrival, streams, moments of flushing and ways of ending."
LEVEL = "exploration"
RULE = "One evaluation = one record compared. Distinct = (scenario, threads, records, age, flushes, stream, end) combinations."
ASSUMPTIONS = ["A record is in time if emit() has returned before it is older than the handler's delay.", "Order is not judged across a flush."]
SCENARIOS = {
    "order": {"quick": (3, 14), "thorough": (6, 150), "min": 500},
    "flush": {"quick": (2, 14), "thorough": (4, 150), "min": 500},
    "remote": {"quick": (1, 14), "thorough": (3, 120), "min": 100},
    "colors": {"quick": (1, 12), "thorough": (3, 120), "min": 300},
    "exit": {"quick": (2, 14), "thorough": (4, 120), "min": 300},
}
TMP = os.environ.get("VF_DIR", "/tmp")
ANSI = re.compile("\x1b\\[[0-9;]*m")
logging.raiseExceptions = False


class Stream:
    """Records what is written; may be slow, or fail."""

    def __init__(self, rng, slow=0, fail=0, tty=False):
        self.rng, self.slow, self.fail, self.tty = rng, slow, fail, tty
        self.parts = []
        self.failed = []
        self.closed = False

    def write(self, text):
        if self.slow and self.rng.random() < .3:
            time.sleep(self.rng.random() * self.slow)
        if self.fail and "T<" in text and self.rng.random() < self.fail:
            self.failed.append(text)
            raise OSError(28, "no space left")
        self.parts.append(text)

    def flush(self):
        pass

    def isatty(self):
        return self.tty

    def text(self):
        return ANSI.sub("", "".join(self.parts))


MSGS = ["plain", "", "two\nlines", "\u20ac%s", "100%", "x" * 500, "[a:b:c] fake"]


def make(rng, tok, created, names=True):
    """-> record, expected line"""
    level = rng.choice([0, 5, 10, 20, 25, 30, 40, 50, 50, 59, 60, 99, 1000])
    msg = f"T<{tok}> " + rng.choice(MSGS)
    r = logging.LogRecord("n", level, "p", 1, msg, None, None)
    r.created = created
    who = [remote.get_host_name(), remote.get_process_name(), remote.get_thread_name(r.thread)]
    for i, k in enumerate(("host_name", "process_name", "thread_name")):
        if names and rng.random() < .5:
            who[i] = rng.choice(["one", "tw\u00f6", "a b", "%s"]) + k
            setattr(r, k, who[i])
    line = f"[{who[0]}:{who[1]}:{who[2]}] {msg}"
    if rng.random() < .1:
        r.exc_text = "Traceback\n  of " + tok
        line += "\n" + r.exc_text
    return r, line


class Run:
    """A handler, the records that were emitted to it, and when."""

    def __init__(self, ctx, **stream):
        self.stream = Stream(ctx.rng, **stream)
        self.h = RPCLogHandler(self.stream)
        self.delay = self.h.delay
        self.recs = {}
        self.logger = logging.Logger("own")
        self.logger.addHandler(self.h)

    def emit(self, rng, tok, created, direct=None):
        r, line = make(rng, tok, created)
        t0 = time.time()
        if direct if direct is not None else rng.random() < .5:
            self.h.handle(r)
        else:
            self.logger.handle(r)
        t = time.time()
        self.recs[tok] = (r, line, t0, t)

    def wait(self, limit=30):
        end = time.monotonic() + limit
        last = -1
        while time.monotonic() < end:
            txt = self.stream.text()
            n = txt.count("T<")
            if n + len(self.stream.failed) >= len(self.recs):
                time.sleep(.02)
                return
            if n != last:
                last, end = n, time.monotonic() + limit
            time.sleep(.02)

    def lines(self, ctx, what, ordered=True):
        """Judge the output."""
        txt = self.stream.text()
        lost = {t.split("T<", 1)[1].split(">")[0] for t in self.stream.failed}
        pos, out = [], []
        for m in re.finditer(r"T<([^>]*)>", txt):
            out.append(m[1])
        seen = set()
        for t in out:
            if t in seen:
                ctx.violate("duplicate", f"{what}: record {t} was written twice")
            seen.add(t)
        for t, (r, line, t0, t1) in self.recs.items():
            ctx.ev()
            if t not in seen:
                if t not in lost:
                    ctx.violate("lost", f"{what}: record {t} was not written ({len(seen)} of {len(self.recs)})")
            elif line + "\n" not in txt:
                i = txt.index(f"T<{t}>")
                ctx.violate("text", f"{what}: line is {txt[max(0, i - 60):i + 60]!r} instead of {line[:200]!r}")
        ctx.count("records", len(self.recs))
        if not ordered:
            return
        high = None
        for t in out:
            r, line, t0, t1 = self.recs[t]
            if t1 > r.created + self.delay:
                ctx.count("too late")
                continue
            ctx.count("in time")
            if high is not None and r.created < high[0]:
                ctx.violate("order", f"{what}: record created at {r.created:.4f} was written after one created at {high[0]:.4f}, although it was in time")
            if high is None or r.created >= high[0]:
                high = (r.created, t)


def s_order(ctx):
    rng = ctx.rng
    if ctx.params.get("w", 0) % 2:
        perturb.enable(ctx.seed, .005, .004)
    while ctx.more():
        threads, n = rng.choice([1, 2, 4]), rng.choice([3, 30, 150])
        age = rng.choice([0, .05, .12, .18, .5, 3])
        slow = rng.choice([0, 0, .002])
        fail = rng.choice([0, 0, 0, .05])
        what = f"{threads} threads, {n} records, up to {age} s old, slow {slow}, failing stream {fail}"
        ctx.sig("order", threads, n, age, slow, fail)
        with ctx.guard(90, "hangs", what):
            run = Run(ctx, slow=slow, fail=fail, tty=rng.random() < .2)
            d = rng.choice([None, None, .4, .05])
            if d is not None:
                run.h.delay = run.delay = d

            def emit(k, seed):
                import random
                r = random.Random(seed)
                for i in range(n):
                    run.emit(r, f"{k}-{i}", time.time() - r.random() * age if r.random() < .8 else time.time())
                    if r.random() < .1:
                        time.sleep(r.random() * .05)
                    if r.random() < .03:
                        # a record that cannot be formatted has no influence on others
                        run.h.handle(logging.LogRecord("n", 20, "p", 1, "bad %d", ("x",), None))
            ths = [threading.Thread(target=emit, args=(k, rng.random()), daemon=True) for k in range(threads)]
            for t in ths:
                t.start()
            for t in ths:
                t.join()
            run.wait()
            run.lines(ctx, what)


def s_colors(ctx):
    """The same with colored output (colorama is replaced by a stand-in that only has its codes)."""
    import importlib, types
    m = types.ModuleType("colorama")
    for cls, codes in {"Style": dict(NORMAL=22, BRIGHT=1, DIM=2, RESET_ALL=0), "Fore": dict(WHITE=37, GREEN=32, RED=31, CYAN=36, YELLOW=33, BLUE=34, MAGENTA=35, RESET=39, BLACK=30),
                       "Back": dict(WHITE=47, GREEN=42, RED=41, CYAN=46, YELLOW=43, BLUE=44, MAGENTA=45, RESET=49, BLACK=40)}.items():
        setattr(m, cls, types.SimpleNamespace(**{k: f"\x1b[{v}m" for k, v in codes.items()}))

    class AnsiToWin32:
        def __init__(self, wrapped, *args, **kwds):
            self.stream = self.wrapped = wrapped
    m.AnsiToWin32 = AnsiToWin32
    m.init = m.deinit = lambda *args, **kwds: None
    sys.modules["colorama"] = m
    from teleprox.log import handler
    global RPCLogHandler
    RPCLogHandler = importlib.reload(handler).RPCLogHandler
    s_order(ctx)


def s_flush(ctx):
    """flush_records() at any moment."""
    rng = ctx.rng
    if ctx.params.get("w", 0) % 2:
        perturb.enable(ctx.seed, .005, .004)
    while ctx.more():
        threads, n = rng.choice([1, 2, 4]), rng.choice([10, 60, 200])
        slow, flushers = rng.choice([0, .001, .01]), rng.choice([1, 1, 2])
        age = rng.choice([0, .2, .25])
        what = f"{threads} threads, {n} records, {flushers} flushing, slow {slow}, up to {age} s old"
        ctx.sig("flush", threads, n, slow, flushers, age)
        with ctx.guard(90, "hangs", what):
            run = Run(ctx, slow=slow)
            stop = threading.Event()

            def emit(k, seed):
                import random
                r = random.Random(seed)
                for i in range(n):
                    run.emit(r, f"{k}-{i}", time.time() - r.random() * age)
                    if r.random() < .2:
                        time.sleep(r.random() * .02)

            def flush(seed):
                import random
                r = random.Random(seed)
                while not stop.is_set():
                    time.sleep(r.random() * .25)
                    before = set(run.recs)
                    run.h.flush_records()
                    txt = run.stream.text()
                    missing = [t for t in before if f"T<{t}>" not in txt]
                    ctx.ev()
                    ctx.count("flushes")
                    if missing:
                        ctx.violate("flush", f"{what}: flush_records() returned before {len(missing)} of {len(before)} records were written")
            ths = [threading.Thread(target=emit, args=(k, rng.random()), daemon=True) for k in range(threads)]
            fls = [threading.Thread(target=flush, args=(rng.random(),), daemon=True) for k in range(flushers)]
            for t in ths + fls:
                t.start()
            for t in ths:
                t.join()
            stop.set()
            for t in fls:
                t.join()
            if rng.random() < .5:
                run.h.flush_records()
            else:
                run.wait()
            run.lines(ctx, what, ordered=False)


class Arrival(logging.Handler):
    def __init__(self, run):
        super().__init__()
        self.run = run

    def emit(self, r):
        m = r.getMessage()
        if "T<" in m:
            t = time.time()
            line = f"[{r.host_name}:{r.process_name}:{r.thread_name}] {m}"
            self.run.recs[m.split("T<", 1)[1].split(">", 1)[0]] = (r, line, t, t)


def s_remote(ctx):
    """Records of children are sorted into those of this process."""
    rng = ctx.rng
    while ctx.more():
        n_kids = rng.choice([1, 2, 3])
        with ctx.guard(100, "hangs", "children that log"):
            run = Run(ctx)
            run.logger.addHandler(Arrival(run))
            srv = LogServer(run.logger)
            kids = []
            for i in range(n_kids):
                p = teleprox.start_process(f"kid\u20ac{i}", log_addr=srv.address, log_stdio=False)
                log = p.client._import("logging")
                log.getLogger("teleprox").setLevel(40)
                log.getLogger().setLevel(1)
                p.client._import("vf.logjobs")
                kids.append((p, log))
            futs = []
            exp = 0
            for p, log in kids:
                m = rng.choice([10, 100])
                exp += m
                jobs = p.client._import("vf.logjobs")
                futs.append(jobs.simple(m, "K" + uniq(), .01, _sync="async"))
            for f in futs:
                f.result(timeout=40)
            for p, log in kids:
                p.stop(timeout=30)
                p.client.close()
            end = time.monotonic() + 20
            while len(run.recs) < exp and time.monotonic() < end:
                time.sleep(.01)
            ctx.check(len(run.recs) == exp, "lost", f"{n_kids} children: {len(run.recs)} of {exp} records arrived")
            run.wait()
            ctx.sig("remote", n_kids, exp)
            run.lines(ctx, f"{n_kids} children")
            names = {r.process_name for r, *_ in run.recs.values()}
            ctx.check(names == {p.name for p, _ in kids}, "header", f"process names {names}")
            srv.stop()


def s_exit(ctx):
    """A program prints the rest of the records when it ends."""
    rng = ctx.rng
    root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    while ctx.more():
        plan = {"seed": rng.random(), "threads": rng.choice([1, 3]), "n": rng.choice([1, 20, 300]), "spread": rng.choice([0, .15, 1]), "real": rng.random() < .4, "pause": rng.choice([0, .01]),
                "wait": rng.choice([0, 0, .1, .2, .21, .4]), "end": rng.choice(["normal", "exit", "exception", "atexit", "thread", "shutdown"])}
        what = f"program {plan}"
        ctx.sig("exit", *(str(v) for k, v in plan.items() if k != "seed"))
        with ctx.guard(60, "hangs", what):
            p = subprocess.run([sys.executable, os.path.join(root, "vf", "printer.py"), json.dumps(plan)], stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, timeout=50)
            out = re.findall(r"^\[.*:prog:.*\] T<([^>]*)>$", ANSI.sub("", p.stderr.decode()), re.M)
            want = [f"{k}-{i}" for k in range(plan["threads"]) for i in range(plan["n"])]
            want += {"atexit": [f"x-{i}" for i in range(20)], "thread": [f"x-{i}" for i in range(20)], "shutdown": ["x-0"]}.get(plan["end"], [])
            ctx.ev(len(want))
            ctx.count("programs")
            if sorted(out) != sorted(want):
                kind = "lost" if set(want) - set(out) else "duplicate"
                ctx.violate(kind, f"{what}: {len(out)} lines ({len(set(out))} different) for {len(want)} records; {p.stderr.decode()[-300:]!r}")
