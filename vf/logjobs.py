"""Log records of every kind; each is noted in a file before the log sender gets it."""
import json, logging, os, queue, sys, threading, time

TEXTS = ["plain", "", "100%", "%s %d", "{0} {x}", "new\nline", "tab\t\0\x01\x7f", "\u00fc\u20ac\U0001f600", "\ud800 alone", "back\\slash \"quoted\"", "\u2028\x85", "x" * 3000, "[31m"]


own = threading.local()


def name_thread(name):
    from teleprox.log import remote
    remote.set_thread_name(name)
    own.name = name


class Odd:
    def __str__(self):
        return "odd-str"

    def __repr__(self):
        return "<odd>"


class Liar:
    """Cannot be converted to text."""

    def __str__(self):
        raise ValueError("no text")

    __repr__ = __str__


class Note(logging.Handler):
    """Notes all records in a file (must get them before the log sender does)."""

    def __init__(self, path):
        super().__init__()
        self.fd = os.open(path, os.O_WRONLY | os.O_CREAT | os.O_APPEND)

    def emit(self, rec):
        if "T<" not in str(rec.msg):
            return
        from teleprox.log import remote
        try:
            msg = rec.getMessage()
        except Exception:
            msg = None
        d = {k: getattr(rec, k) for k in ("levelno", "levelname", "name", "created", "lineno", "pathname", "funcName", "thread", "process", "stack_info")}
        d["tok"] = str(rec.msg).split("T<", 1)[1].split(">", 1)[0]
        d["msg"] = msg
        d["exc"] = rec.exc_text or (logging.Formatter().formatException(rec.exc_info) if rec.exc_info else None)
        d["process_name"], d["host_name"] = remote.get_process_name(), remote.get_host_name()
        name = getattr(own, "name", None)
        if name is None and threading.current_thread() is threading.main_thread():
            name = remote.thread_names.get(rec.thread)  # set by the bootstrap
        d["thread_name"] = rec.threadName if name is None else name
        d["good"] = rec.__dict__.get("good")
        os.write(self.fd, json.dumps(d).encode() + b"\n")


class Snap(logging.Handler):
    """Two of these, before and after another handler: the second one notes what that has changed in the records."""
    KEYS = "name msg args levelname levelno pathname exc_info stack_info lineno funcName created thread threadName processName process good taskName".split()

    def __init__(self, before=None):
        super().__init__()
        self.before, self.bad, self.seen = before, [], 0

    def handle(self, rec):      # (no filters, no lock)
        if self.before is None:
            own.snap = rec, {k: rec.__dict__.get(k, self) for k in self.KEYS}
            return True
        was, old = own.__dict__.pop("snap", (None, None))
        if was is rec:
            self.seen += 1
            self.bad += [(k, repr(type(old[k])), repr(rec.__dict__.get(k, None))[:100]) for k in self.KEYS if rec.__dict__.get(k, self.before) is not old[k]]
        return True


class Elsewhere(logging.Handler):
    """Lets another thread pass the records on."""

    def __init__(self, target):
        super().__init__()
        self.target = target
        self.jobs = queue.Queue()
        threading.Thread(target=self.run, name="courier", daemon=True).start()

    def run(self):
        from teleprox.log import remote
        name_thread("the courier's name")
        while True:
            rec, done = self.jobs.get()
            if rec is None:
                return
            try:
                self.target.handle(rec)
            finally:
                done.set()

    def emit(self, rec):
        done = threading.Event()
        self.jobs.put((rec, done))
        done.wait(30)

    def close(self):
        self.jobs.put((None, None))
        super().close()


def raised(kind):
    try:
        if kind == "chain":
            try:
                {}["inner"]
            except KeyError as e:
                raise ValueError("outer \u20ac") from e
        elif kind == "strless":
            class NoText(Exception):
                def __str__(self):
                    raise ValueError
            raise NoText("x")
        elif kind == "syntax":
            compile("a b", "some file", "exec")
        elif kind == "group":
            raise ExceptionGroup("many", [ValueError(1), TypeError("two")])
        elif kind == "deep":
            (f := lambda n: f(n - 1) if n else 1 / 0)(30)
        raise OSError(2, "text %s", "file")
    except Exception:
        return sys.exc_info()


class Weird:
    pass


def log_one(rng, lg, tok):
    """Log one record of a random kind; -> kind"""
    t = f"T<{tok}> " + rng.choice(TEXTS)
    kw = {}
    level = rng.choice([10, 20, 30, 40, 50, 35, 1, 12, 60, 999])
    if rng.random() < .3:
        kw["extra"] = {"good": rng.choice([1, 2.5, None, "t\u20ac", [1, [2]], {"a": {"b": None}}, True, 10 ** 30])}
    if rng.random() < .2:
        kw.setdefault("extra", {})["bad"] = rng.choice([Odd(), Liar(), {1, 2}, b"bytes", float("nan"), {(1, 2): 3}, threading.Lock(), object, lambda: 1, [Liar()], {"x": Liar()}, recursive()])
    if rng.random() < .15:
        kw["exc_info"] = rng.choice([raised("chain"), raised("strless"), raised("syntax"), raised("group"), raised("deep"), raised("")[1], True, (None, None, None), False])
    if rng.random() < .08:
        kw["stack_info"] = True
    kind = rng.choice(["plain", "plain", "args", "mutable", "dict", "bad args", "odd", "exception", "handle", "formatted", "object", "bad obj", "huge", "changed"])
    if kind == "plain":
        lg.log(level, t, **kw)
    elif kind == "args":
        lg.log(level, t.replace("%", "%%") + " %s %r %5.2f %x", "a\u20ac", b"b", 1.5, 255, **kw)
    elif kind == "mutable":
        a = [1, {"k": "before"}]
        lg.log(level, t.replace("%", "%%") + " %s", a, **kw)
        a.append(2)
        a[1]["k"] = "after"
    elif kind == "changed":
        w = Weird()
        Weird.__str__ = lambda self: self.text
        w.text = "before"
        lg.log(level, t.replace("%", "%%") + " %s", w, **kw)
        w.text = "after"
    elif kind == "dict":
        d = {"a": 1, "b": "two"}
        lg.log(level, t.replace("%", "%%") + " %(a)d %(b)s", d, **kw)
        d.clear()
    elif kind == "bad args":
        lg.log(level, t.replace("%", "%%") + rng.choice([" %d", " %s", "", " %(x)s"]), *rng.choice([("no number", 2), (1, 2, 3), ({"y": 1},), ([], [])]), **kw)
    elif kind == "odd":
        lg.log(level, t.replace("%", "%%") + " %s %r", Odd(), Odd(), **kw)
    elif kind == "bad obj":
        lg.log(level, t.replace("%", "%%") + " %s", Odd(), **kw)
    elif kind == "exception":
        try:
            {}[tok]
        except KeyError:
            kw.pop("exc_info", None)
            lg.exception(t, **kw)
    elif kind == "handle":
        lg.handle(logging.LogRecord(lg.name, level, "/a/path.py", rng.randrange(1000), t, None, None, "func"))
    elif kind == "formatted":
        # a formatter before has described the exception in its own way
        rec = logging.LogRecord(lg.name, level, "/a/path.py", rng.randrange(1000), t, None, raised("chain"), "func")
        rec.exc_text = "short: ValueError"
        lg.handle(rec)
    elif kind == "object":
        class Msg:
            text = t

            def __str__(self):
                return self.text
        m = Msg()
        lg.log(level, m, **kw)
        m.text = "changed"
    elif kind == "huge":
        lg.log(level, t + "y" * rng.choice([100, 10000, 300000]), **kw)
    return kind, sorted(kw), sorted(kw.get("extra", ())), type(kw.get("extra", {}).get("bad")).__name__


def recursive():
    a = []
    a.append(a)
    return a


def burst(seed, lgname, prefix, threads, n, pause=0, names=None, sub=True):
    """Log n records in each of several threads at once."""
    import random
    from teleprox.log import remote
    kinds = []
    barrier = threading.Barrier(threads)

    def run(k):
        rng = random.Random(f"{seed}/{k}")
        if names and (k + len(names)) % 3:
            name_thread(names[k % len(names)])
        barrier.wait()
        for i in range(n):
            lg = logging.getLogger(lgname + (rng.choice(["", ".a", ".a.b"]) if sub and lgname else ""))
            kinds.append(log_one(rng, lg, f"{prefix}-{k}-{i}"))
            if pause and rng.random() < .3:
                time.sleep(rng.random() * pause)
        barrier.wait()
    ths = [threading.Thread(target=run, args=(k,), name=f"th{k}\u20ac") for k in range(1, threads)]
    for t in ths:
        t.start()
    run(0)
    for t in ths:
        t.join()
    return len(kinds)


def simple(n, prefix, pause):
    """Plain records, some of them of another thread."""
    import random
    rng = random.Random(prefix)
    lg = logging.getLogger("simple")

    def run(part):
        for i in part:
            lg.warning("T<%s-%d> text" % (prefix, i))
            time.sleep(rng.random() * pause)
    t = threading.Thread(target=run, args=(range(0, n, 3),))
    t.start()
    run([i for i in range(n) if i % 3])
    t.join()


def setup(path, level=1):
    """Prepare the root logger of a process whose log sender was set up by teleprox."""
    root = logging.getLogger()
    note = Note(path)
    root.handlers.insert(0, note)
    root.setLevel(level)
    logging.getLogger("teleprox").setLevel(40)
    logging.raiseExceptions = False


def later(seed, prefix, threads, n):
    """Log from other threads, while nobody waits for them."""
    threading.Thread(target=burst, args=(seed, "late", prefix, threads, n), daemon=False).start()


def main():
    """A program that logs and ends.  argv: JSON plan"""
    plan = json.loads(sys.argv[1])
    from teleprox.log import remote
    import teleprox.log
    if plan.get("process_name"):
        remote.set_process_name(plan["process_name"])
    if plan.get("host_name"):
        remote.set_host_name(plan["host_name"])
    if plan["first"]:
        # records are sent to another server first
        remote.set_logger_address(plan["first"])
        setup(plan["notes"])
        burst(plan["seed"] + "f", "f", plan["prefix"] + "f", 2, 20)
    remote.set_logger_address(plan["address"])
    if not plan["first"]:
        setup(plan["notes"])
    lg = logging.getLogger("prog")
    burst(plan["seed"], "prog", plan["prefix"], plan["threads"], plan["n"], plan["pause"], plan["names"])
    end = plan["end"]
    if end == "exception":
        raise ValueError("the end")
    elif end == "exit":
        sys.exit(3)
    elif end == "atexit":
        import atexit
        import random
        atexit.register(lambda: [log_one(random.Random(i), lg, f"{plan['prefix']}-x-{i}") for i in range(5)])
    elif end == "thread":
        later(plan["seed"] + "t", plan["prefix"] + "t", 2, 30)
    elif end == "interrupt":
        import signal
        signal.raise_signal(signal.SIGINT)
    elif end == "close":
        remote.sender.close()


if __name__ == "__main__":
    sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    from vf import logjobs
    logjobs.main()
