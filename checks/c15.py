"""C15: log records of remote processes arrive exactly once, in order, unchanged."""
import json, logging, os, random, subprocess, sys, threading, time
import teleprox
from teleprox.log import remote, LogServer, LogSender
from vf import logjobs, perturb
from vf.rpc import uniq

TECHNIQUE = "runtime monitoring: every record is noted (content and order) before the log sender gets it, and compared with what the server's logger handles (exactly-once, per-thread order, content)"
NOTE = "Samples kinds of records, threads, processes, ways of ending, moves between servers and failing handlers; every record is compared completely."
LEVEL = "exploration"
RULE = "One evaluation = one record compared. Distinct = (scenario, options, kind of ending) plus kinds of records."
ASSUMPTIONS = ["At exit, not more is pending than can be sent within a second.", "The text of a message that does not fit its arguments is not compared.", "Order is judged per connection of a sender (a sender that returns to a server it has left opens another one).", "Processes are not killed while records are pending (those records cannot arrive)."]
SCENARIOS = {
    "local": {"quick": (3, 14), "thorough": (6, 200), "min": 2000},
    "move": {"quick": (2, 14), "thorough": (4, 150), "min": 1000},
    "children": {"quick": (2, 14), "thorough": (4, 150), "min": 300},
    "levels": {"quick": (1, 12), "thorough": (2, 100), "min": 200},
    "programs": {"quick": (1, 16), "thorough": (4, 150), "min": 150},
}
LOST = 45
TMP = os.environ.get("VF_DIR", "/tmp")
logging.raiseExceptions = False


class Boom(logging.Handler):
    """A handler that fails now and then."""

    def __init__(self, seed):
        super().__init__()
        self.rng = random.Random(seed)
        self.failed = 0

    def emit(self, rec):
        if self.rng.random() < .1:
            self.failed += 1
            raise self.rng.choice([ValueError("handler"), OSError(28, "no space"), KeyError("x"), UnicodeError("u")])


class Take(logging.Handler):
    """What arrives at the server's logger; T<...> marks our records."""

    def __init__(self):
        super().__init__()
        self.got = []
        self.slow = 0

    def emit(self, rec):
        m = rec.getMessage()
        if "T<" in m:
            self.got.append((m.split("T<", 1)[1].split(">", 1)[0], m, rec))
            if self.slow:
                time.sleep(self.slow)


class Server:
    """A LogServer with an own logger."""

    def __init__(self, ctx, transport="tcp", level=1, boom=False, address=None):
        self.lg = logging.getLogger("vfs" + uniq())
        self.lg.propagate = False
        self.level = level
        self.lg.setLevel(level)
        self.take = Take()
        self.lg.addHandler(self.take)
        self.boom = Boom(ctx.rng.random()) if boom else None
        if boom:
            self.lg.addHandler(self.boom)
        kw = {}
        if address is not None:
            kw["address"] = address
        elif transport == "ipc":
            kw["address"] = f"ipc://{TMP}/l{uniq()}"
        elif transport == "inproc":
            kw["address"] = f"inproc://l{uniq()}"
        if level > 1 and ctx.rng.random() < .3:
            kw["filter_by_level"] = False
            self.level = 0
        self.server = LogServer(self.lg if ctx.rng.random() < .5 else self.lg.name, **kw)
        self.address = self.server.address

    def close(self):
        self.server.stop()
        for h in list(self.lg.handlers):
            self.lg.removeHandler(h)


def notes(path):
    try:
        with open(path) as f:
            return [json.loads(x) for x in f if x.endswith("\n")]
    except OSError:
        return []


def wait_all(servers, tokens, limit=25):
    """Wait until all tokens have arrived somewhere, or nothing arrives any more."""
    need = set(tokens)
    last, t = -1, time.monotonic()
    while True:
        n = sum(len(s.take.got) for s in servers)
        if n >= len(need) and need <= {x[0] for s in servers for x in list(s.take.got)}:
            time.sleep(.03)
            return
        if n != last:
            last, t = n, time.monotonic()
        elif time.monotonic() - t > limit / 2:
            return
        time.sleep(.01)


def judge(ctx, what, exp, servers):
    """Compare noted records (in order) with those that arrived."""
    need = {e["tok"]: e for e in exp}
    assert len(need) == len(exp)
    low = {s: s.level for s in servers}
    wanted = [e["tok"] for e in exp if all(e["levelno"] >= l for l in low.values())]
    wait_all(servers, wanted)
    where = {}
    order = {(e["process"], e["thread"]): {} for e in exp}
    for i, e in enumerate(exp):
        order[e["process"], e["thread"]][e["tok"]] = i
    for s in servers:
        last = {}
        for tok, msg, rec in list(s.take.got):
            e = need.get(tok)
            if e is None:
                ctx.violate("unknown-record", f"{what}: a record arrived that was not logged: {msg[:200]!r}")
                continue
            where.setdefault(tok, []).append(s)
            th = (e["process"], e["thread"])
            i = order[th][tok]
            if rec.levelno < s.level:
                ctx.violate("filter", f"{what}: record of level {rec.levelno} was handled by a server whose level is {s.level}")
            same(ctx, what, e, msg, rec)
            if getattr(s, "connects", 1) > 1:
                continue  # (two connections to one server are not ordered)
            ctx.check(last.get(th, -1) < i, "order", lambda: f"{what}: record {tok} of a thread arrived after a later one of the same thread")
            last[th] = i
    for e in exp:
        n = len(where.get(e["tok"], ()))
        if n > 1:
            ctx.violate("duplicate", f"{what}: record {e['tok']} arrived {n} times")
        if n == 0 and e["tok"] in wanted:
            ctx.violate("lost", f"{what}: record {e['tok']} ({len(wanted) - len(where)} of {len(wanted)}) did not arrive: {e['msg'] if e['msg'] is None else e['msg'][:100]!r}")
    ctx.count("records", len(exp))
    ctx.count("arrived", len(where))


def same(ctx, what, e, msg, rec):
    if e["msg"] is not None and msg != e["msg"]:
        ctx.violate("message", f"{what}: message arrived as {msg[:300]!r} instead of {e['msg'][:300]!r}")
    for k in ("levelno", "levelname", "name", "created", "lineno", "pathname", "funcName", "thread", "process", "stack_info", "process_name", "thread_name", "host_name"):
        if getattr(rec, k, None) != e[k]:
            ctx.violate("attribute", f"{what}: {k} of {e['tok']} arrived as {getattr(rec, k, None)!r} instead of {e[k]!r}")
    if e["good"] is not None and getattr(rec, "good", None) != e["good"]:
        ctx.violate("attribute", f"{what}: extra attribute arrived as {getattr(rec, 'good', None)!r} instead of {e['good']!r}")
    exc = rec.exc_text
    if (exc or None) != (e["exc"] or None):
        ctx.violate("exception-text", f"{what}: exception text arrived as {str(exc)[-300:]!r} instead of {str(e['exc'])[-300:]!r}")
    # a formatter can be used
    txt = logging.Formatter().format(rec)
    if e["exc"] and e["exc"] not in txt:
        ctx.violate("exception-text", f"{what}: formatted record lacks the traceback")


def local_logger(path):
    """-> own logger that notes its records"""
    name = "vfl" + uniq()
    lg = logging.getLogger(name)
    lg.propagate = False
    lg.setLevel(1)
    lg.addHandler(logjobs.Note(path))
    return name, lg


def drop(lg):
    for h in list(lg.handlers):
        lg.removeHandler(h)
        if isinstance(h, logjobs.Note):
            os.close(h.fd)


def s_local(ctx):
    """Server and sender in this process."""
    rng = ctx.rng
    if ctx.params.get("w", 0) % 2:
        perturb.enable(ctx.seed, .01, .003)
    while ctx.more():
        path = os.path.join(TMP, "n" + uniq())
        transport = rng.choice(["tcp", "tcp", "ipc", "inproc"])
        boom = rng.random() < .4
        level = rng.choice([1, 1, 1, 20, 40])
        threads, n = rng.choice([1, 2, 3, 8]), rng.choice([1, 5, 40, 120])
        how = rng.choice(["ctor", "ctor name", "connect", "connect later"])
        end = rng.choice(["open", "close", "close at once", "server first"])
        late, slow = rng.random() < .15, rng.random() < .1
        if slow:
            # more than the sockets buffer
            threads, n, boom, end = 4, 700, False, "open"
        if late:
            # the sender is there before the server
            how, end, transport = "connect", "open", "ipc"
        what = f"sender by {how}, {transport}, level {level}, failing handler {boom}, {threads}x{n}, {end}, late server {late}, slow handler {slow}"
        ctx.sig("local", late, slow, transport, boom, level, threads, n, how, end)
        with ctx.guard(90, "hangs", what):
            remote.set_process_name(rng.choice(["proc\u20ac", "p %s", "main"]))
            remote.set_host_name(rng.choice(["host", "h\u00f6st"]))
            address = None
            if late:
                address = f"ipc://{TMP}/l{uniq()}"
            else:
                srv = Server(ctx, transport, level, boom)
                address = srv.address
                srv.take.slow = .0005 if slow else 0
            name, lg = local_logger(path)
            if how == "ctor":
                snd = LogSender(address, lg)
            elif how == "ctor name":
                snd = LogSender(address, name)
            else:
                snd = LogSender(None, lg)
                snd.connect(address)
            courier = None
            if not late and rng.random() < .3:
                lg.removeHandler(snd)
                courier = logjobs.Elsewhere(snd)
                lg.addHandler(courier)
                ctx.count("sent by another thread")
            first = logjobs.Snap()
            lg.handlers.insert(0, first)
            after = logjobs.Snap(first)
            lg.addHandler(after)
            logjobs.burst(str(rng.random()), name, "L" + uniq(), threads, n, rng.choice([0, 0, .002]), [f"t{k}-{uniq()}" for k in range(8)])
            if late:
                srv = Server(ctx, transport, level, boom, address)
            if end == "close at once":
                snd.close()
            exp = notes(path)
            ctx.check(len(exp) == threads * n, "logging-fails", f"{what}: {len(exp)} records noted")
            ctx.check(not after.bad, "record-changed", f"{what}: other handlers of the logger get changed records: {after.bad[:3]}")
            ctx.count("seen by other handlers", after.seen)
            judge(ctx, what, exp, [srv])
            if end == "close":
                snd.close()
                time.sleep(.01)
                ctx.check(len(srv.take.got) <= len(exp), "duplicate", what)
            if end == "close at once" or end == "close":
                # closing again, and logging after close, do no harm
                snd.close()
            if srv.boom:
                ctx.count("handler failures", srv.boom.failed)
            ctx.check(srv.server.is_alive(), "server-ended", f"{what}: the log server's thread has ended")
            drop(lg)
            if courier is not None:
                courier.close()
            if end in ("open", "server first"):
                srv.close()
                snd.close()
            srv.close()
            os.unlink(path)


def s_levels(ctx):
    """The level of the server's logger (its own or an inherited one) changes while records arrive."""
    rng = ctx.rng
    while ctx.more():
        top = logging.getLogger("vft" + uniq())
        top.propagate = False
        lg = top.getChild("x")
        take = Take()
        lg.addHandler(take)
        filtered = rng.random() < .8
        top.setLevel(rng.choice([10, 30, 50]))
        srv = LogServer(lg, **({} if filtered else {"filter_by_level": False}))
        out = logging.Logger("out", 1)
        snd = LogSender(srv.address)
        out.addHandler(snd)
        hist = []
        with ctx.guard(90, "hangs", "changing levels"):
            for _ in range(rng.choice([2, 4, 8])):
                for _ in range(rng.choice([0, 1, 1, 2])):
                    which, level = rng.choice([top, lg]), rng.choice([0, 5, 10, 20, 25, 30, 40])
                    if which is top:
                        level = level or 15
                    which.setLevel(level)
                    hist.append((which is lg, level))
                level = lg.level or top.level
                what = f"level {level} (changes of the parent's and own level: {hist[-4:]}), filter_by_level {filtered}"
                ctx.sig("levels", filtered, tuple(hist[-3:]))
                base = uniq()
                exp = []
                for i in range(rng.choice([1, 5, 30])):
                    n = rng.choice([1, 5, 9, 10, 11, 20, 24, 25, 26, 30, 39, 40, 41, 50])
                    tok = f"{base}-{i}"
                    out.log(n, "T<%s>", tok)
                    if n >= level or not filtered:
                        exp.append(tok)
                exp.append(base + "-last")
                out.log(50, "T<%s>", exp[-1])
                end = time.monotonic() + LOST
                while not any(x[0] == exp[-1] for x in list(take.got)) and time.monotonic() < end:
                    time.sleep(.002)
                got = [x[0] for x in take.got]
                take.got.clear()
                ctx.ev(len(exp))
                if got != exp:
                    miss, extra = [x for x in exp if x not in got], [x for x in got if x not in exp]
                    ctx.violate("lost" if miss else "filter" if extra else "order", f"{what}: {len(miss)} of {len(exp)} records are missing, {len(extra)} others were handled")
            snd.close()
            srv.stop()


def s_move(ctx):
    """The sender is moved between servers while threads log."""
    rng = ctx.rng
    if ctx.params.get("w", 0) % 2:
        perturb.enable(ctx.seed, .01, .003)
    while ctx.more():
        path = os.path.join(TMP, "n" + uniq())
        transports = [rng.choice(["tcp", "tcp", "ipc"]) for _ in range(rng.choice([2, 3, 6]))]
        boom = rng.random() < .3
        threads, n = rng.choice([1, 2, 4]), rng.choice([30, 100, 300])
        moves = rng.choice([1, 2, 5, 10])
        what = f"sender moved {moves} times between {transports}, failing handler {boom}, {threads}x{n}"
        ctx.sig("move", transports, boom, threads, n, moves)
        with ctx.guard(90, "hangs", what):
            servers = [Server(ctx, t, 1, boom) for t in transports]
            name, lg = local_logger(path)
            snd = LogSender(servers[0].address, lg)
            done = []
            t = threading.Thread(target=lambda: done.append(logjobs.burst(str(rng.random()), name, "M" + uniq(), threads, n, .003, [f"t{k}-{uniq()}" for k in range(8)])), daemon=True)
            t.start()
            k = 0
            for _ in range(moves):
                time.sleep(rng.random() * .03)
                k = rng.randrange(len(servers))
                servers[k].connects = getattr(servers[k], "connects", int(k == 0)) + 1
                snd.connect(servers[k].address)
            t.join()
            exp = notes(path)
            judge(ctx, what, exp, servers)
            # now everything goes to the last one
            had = len(servers[k].take.got)
            for j in range(3):
                lg.warning("T<%s> after the move", "A" + uniq())
            end = time.monotonic() + 20
            while len(servers[k].take.got) < had + 3 and time.monotonic() < end:
                time.sleep(.005)
            ctx.check(len(servers[k].take.got) == had + 3, "wrong-server", f"{what}: after the last move records go elsewhere: {[len(s.take.got) for s in servers]}")
            ctx.count("moves", moves)
            snd.close()
            drop(lg)
            for s in servers:
                s.close()
            os.unlink(path)


def s_children(ctx):
    """Children of teleprox log to one or several servers."""
    rng = ctx.rng
    while ctx.more():
        srv = Server(ctx, "tcp", rng.choice([1, 1, 30]), rng.random() < .3)
        kids, paths = [], []
        n_kids = rng.choice([1, 2, 3])
        ends, jobs = [], []
        with ctx.guard(100, "hangs", "children that log"):
            for i in range(n_kids):
                qt = rng.random() < .15
                name = rng.choice(["kid", "k\u00efd 1", "%s"]) + str(i)
                p = teleprox.start_process(name, qt=qt, log_addr=srv.address, log_level=rng.choice([None, 10, 30]))
                path = os.path.join(TMP, "n" + uniq())
                jm = p.client._import("vf.logjobs")
                jm.setup(path)
                kids.append((p, jm, qt))
                paths.append(path)
            for _ in range(rng.choice([1, 2])):
                futs = [(jm.burst(str(rng.random()), rng.choice(["", "c.d"]), f"C{uniq()}", rng.choice([1, 3]), rng.choice([1, 20, 100]), rng.choice([0, .001]), _sync="async")) for p, jm, qt in kids]
                for f in futs:
                    f.result(timeout=LOST)
            for p, jm, qt in kids:
                end = rng.choice(["stop", "stop", "close server", "late"])
                ends.append(end + (" qt" if qt else ""))
                jobs.append((p, jm, end))
                if end == "late":
                    # threads that log while the process ends
                    jm.later(str(rng.random()), "Z" + uniq(), 2, rng.choice([10, 60]))
            what = f"children end by {ends}"
            ctx.sig("children", sorted(ends), srv.level, srv.boom is not None)
            for p, jm, end in jobs:
                if end == "close server":
                    p.client.close_server(timeout=LOST)
                    p.wait(30)
                else:
                    p.stop(timeout=30)
            exp = [e for path in paths for e in notes(path)]
            judge(ctx, what, exp, [srv])
            for (p, jm, qt), path in zip(kids, paths):
                mine = notes(path)
                ctx.check(all(e["process_name"] == p.name for e in mine), "process-name", f"{what}: process name is {mine[0]['process_name']!r} instead of {p.name!r}")
                p.client.close()
                os.unlink(path)
            ctx.count("children", n_kids)
            srv.close()


def s_programs(ctx):
    """Programs that log and end in some way."""
    rng = ctx.rng
    root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    while ctx.more():
        srv = Server(ctx, rng.choice(["tcp", "ipc"]), 1, rng.random() < .3)
        other = Server(ctx, "tcp")
        runs = []
        with ctx.guard(100, "hangs", "programs that log"):
            for i in range(rng.choice([1, 2, 3])):
                plan = {"address": srv.address.decode(), "first": other.address.decode() if rng.random() < .3 else None, "notes": os.path.join(TMP, "n" + uniq()), "seed": str(rng.random()), "prefix": "P" + uniq(),
                        "threads": rng.choice([1, 2, 4]), "n": rng.choice([1, 10, 100, 250]), "pause": rng.choice([0, 0, .001]), "names": rng.choice([None, ["one", "tw\u00f6", "3", "4"]]),
                        "end": rng.choice(["normal", "exception", "exit", "atexit", "thread", "interrupt", "close"]), "process_name": rng.choice([None, "pr\u00f6g"]), "host_name": rng.choice([None, "elsewhere"])}
                runs.append((plan, subprocess.Popen([sys.executable, os.path.join(root, "vf", "logjobs.py"), json.dumps(plan)], stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)))
            for plan, p in runs:
                ctx.sig("program", plan["end"], bool(plan["first"]), plan["threads"], plan["n"])
                try:
                    p.wait(60)
                except subprocess.TimeoutExpired:
                    ctx.violate("program-hangs", f"program that logs and ends by {plan['end']} does not end")
                    p.kill()
                    p.wait()
            what = "programs that end by " + ", ".join(f"{p['end']} ({'moved, ' if p['first'] else ''}{p['threads']}x{p['n']})" for p, _ in runs)
            exp = [e for plan, _ in runs for e in notes(plan["notes"])]
            judge(ctx, what, exp, [srv, other])
            for plan, _ in runs:
                got = [e["tok"] for e in notes(plan["notes"])]
                ctx.check(len(got) >= plan["threads"] * plan["n"], "logging-fails", f"{what}: {len(got)} records noted")
                os.unlink(plan["notes"])
            srv.close()
            other.close()
