"""C16: output of child processes is captured completely and never blocks them."""
import logging, os, random, signal, socket, subprocess, threading, time
import psutil
import teleprox
from vf.rpc import uniq
from vf import perturb
from teleprox.log import LogServer

TECHNIQUE = "runtime monitoring with fault injection: log records compared line by line with the bytes that children write (in all ways, chunkings, and ends of the process)"
NOTE = "Samples byte strings, chunkings, means of writing, threads and ways of ending; each line is compared."
LEVEL = "exploration"
RULE = "One evaluation = one line (or end of a child) compared. Distinct = (scenario, means, chunking, end of the process) combinations."
ASSUMPTIONS = ["Lines end with \\n.", "Concurrent writers write whole lines of less than PIPE_BUF bytes.", "A line that was being written when the process was killed may be incomplete."]
SCENARIOS = {
    "bytes": {"quick": (3, 15), "thorough": (6, 200), "min": 1000},
    "threads": {"quick": (1, 13), "thorough": (3, 120), "min": 1000},
    "ends": {"quick": (3, 15), "thorough": (6, 200), "min": 80},
    "equal": {"quick": (1, 13), "thorough": (2, 120), "min": 25},
    "reuse": {"quick": (1, 10), "thorough": (2, 100), "min": 0},
    "flood": {"quick": (1, 13), "thorough": (2, 120), "min": 6},
}
LOST = 60
TMP = os.environ.get("VF_DIR", "/tmp")
logging.getLogger("teleprox").setLevel(10)


class Lines(logging.Handler):
    def __init__(self, name):
        super().__init__()
        self.prefix = {s: f"[{name}.{s}] " for s in ("stdout", "stderr")}
        self.got = {"stdout": [], "stderr": []}
        self.n = 0

    def emit(self, rec):
        m = rec.getMessage()
        for s, p in self.prefix.items():
            if m.startswith(p):
                self.got[s].append((m[len(p):], rec.levelno))
                self.n += 1


class Kid:
    """A child whose output is logged, and what was logged."""

    def __init__(self, ctx, route=None, level=None, **kw):
        rng = ctx.rng
        self.ctx = ctx
        self.name = rng.choice(["io", "i o", "%s", "\u00fc"]) + uniq()
        self.lines = Lines(self.name)
        self.route = route or rng.choice(["server", "server", "local"])
        self.level = level
        self.server = None
        if self.route == "server":
            self.lg = logging.getLogger("vfs" + uniq())
            self.lg.propagate = False
            self.lg.setLevel(1)
            self.server = LogServer(self.lg)
            kw["log_addr"] = self.server.address
            if rng.random() < .3:
                kw["log_stdio"] = True
        else:
            self.lg = logging.getLogger()
            kw["log_stdio"] = True
            kw.setdefault("start_local_server", False)
        if level is not None:
            kw["log_level"] = level
        self.lg.addHandler(self.lines)
        self.p = teleprox.start_process(self.name, **kw)
        self.w = self.p.client._import("vf.writer")
        self.p.client._import("logging").getLogger().setLevel(60)
        self.what = f"route {self.route}, level {level}"

    def settle(self, counts, limit=25):
        """Wait until that many lines of each stream have been logged."""
        end = time.monotonic() + limit
        last = -1
        while time.monotonic() < end:
            if all(len(self.lines.got[s]) >= n for s, n in counts.items()):
                time.sleep(.03)
                return
            if self.lines.n != last:
                last, end = self.lines.n, time.monotonic() + limit
            time.sleep(.005)

    def judge(self, what, data, exact=True, whole=True):
        """Compare the lines logged with what was written.  data: stream -> bytes"""
        exp = {s: texts(d, whole) for s, d in data.items()}
        lv = {"stdout": 20, "stderr": 30}
        for s in exp:
            if self.level is not None and self.level > lv[s]:
                exp[s] = []
        self.settle({s: len(e) for s, e in exp.items()})
        for s, e in exp.items():
            got = [t for t, l in self.lines.got[s]]
            self.ctx.ev(len(e))
            self.ctx.count("lines", len(e))
            if got != e:
                i = next((i for i, (a, b) in enumerate(zip(got, e)) if a != b), min(len(got), len(e)))
                kind = "lost" if len(got) < len(e) else "duplicate" if len(got) > len(e) else "text"
                self.ctx.violate("line-" + kind, f"{self.what}, {what}: {s} gave {len(got)} records for {len(e)} lines; first difference at {i}: {got[i:i + 1]!r:.200} instead of {e[i:i + 1]!r:.200}")
            bad = [x for x in self.lines.got[s] if x[1] != lv[s]]
            self.ctx.check(not bad, "level", f"{self.what}, {what}: lines of {s} have level {bad[:1]}")

    def end(self):
        self.lg.removeHandler(self.lines)
        if self.server is not None:
            self.server.stop()
        if self.p.poll() is None:
            self.p.stop(timeout=40)
        self.p.client.close()


def texts(data, whole=True):
    """The texts of all lines in data."""
    ls = data.split(b"\n")
    if ls[-1] == b"" or not whole:
        ls.pop()
    return [x.decode("utf-8", "backslashreplace") for x in ls]


PIECES = [b"plain text", b"", b"\n", b"\n\n\n", b"\xff\xfe", b"\xc3", b"\x80abc", "\u00fc\u20ac\U0001f600".encode(), b"\r\n", b"a\rb", b"\0\0", b"%s %d %", b"{0}", b"  spaces  ", b"\t", b"\x1b[31mred", b"\x0b\x0c", "\u2028\x85".encode(), b"\\xff", b"\xed\xa0\x80",
          b"[x.stdout] ", b"Traceback (most recent call last):"]
RAW = ["os.write", "buffer", "native", "stdio", "shell"]
TEXT = ["print", "print parts", "text", "lines"]


def content(rng, size):
    out = []
    for _ in range(size):
        r = rng.random()
        out.append(rng.choice(PIECES) if r < .6 else rng.randbytes(rng.randint(1, 30)) if r < .8 else b"line %d" % rng.randrange(10 ** 9) if r < .97 else b"z" * rng.choice([4096, 5000, 70000]))
        if rng.random() < .5:
            out.append(b"\n")
    return b"".join(out)


def plan_of(rng, data, stream, means):
    """Cut data into writes."""
    plan = []
    slow = {"shell": 20, "child": 20}
    while data:
        m = rng.choice(means)
        n = rng.choice([1, 3, 10, 100, 1000, 10 ** 6])
        chunk = data[:n]
        if m in TEXT:
            try:
                chunk.decode()
            except UnicodeDecodeError:
                m = "os.write"
        plan.append([stream, m, chunk, rng.choice([0] * 12 + [.002])])
        data = data[n:]
    return plan


def s_bytes(ctx):
    """One thread writes anything in any way; later records continue where earlier ones ended."""
    rng = ctx.rng
    while ctx.more():
        with ctx.guard(90, "hangs", "start"):
            k = Kid(ctx, level=rng.choice([None, 10, 10, 20, 30]), qt=rng.random() < .1)
        written = {"stdout": b"", "stderr": b""}
        for rnd in range(rng.choice([1, 3, 8])):
            plan, means = [], rng.sample(RAW + TEXT, rng.choice([1, 3, 9]))
            for s in rng.sample(["stdout", "stderr"], rng.choice([1, 2])):
                d = content(rng, rng.choice([1, 5, 30, 60]))
                if len(d) > 20000 and d:
                    means = [m for m in means if m != "shell"] or ["os.write"]
                ps = plan_of(rng, d, s, means)
                if len(ps) > 60:
                    ps = [[s, m if m != "shell" else "buffer", c, p] for _, m, c, p in ps]
                written[s] += d
                plan = ps if not plan else merge(rng, plan, ps)
            ctx.sig("bytes", k.route, k.level, sorted(means), len(plan).bit_length(), rnd)
            what = f"round {rnd} by {means}"
            with ctx.guard(90, "hangs", f"{k.what}, {what}: writing {sum(map(len, written.values()))} bytes"):
                n = k.w.run(plan, _sync="async").result(timeout=LOST)
            ctx.count("writes", n)
            ctx.count("bytes", sum(len(x[2]) for x in plan))
            if rng.random() < .6:
                k.judge(what, written, whole=False)
        with ctx.guard(90, "hangs", f"{k.what}: the end"):
            how = rng.choice(["stop", "close server", "kill", "_exit"])
            if how == "stop":
                k.p.stop(timeout=40)
            elif how == "close server":
                k.p.client.close_server(timeout=40)
            elif how == "_exit":
                k.p.client._import("os")._exit(0, _sync="off")
            else:
                k.p.kill()
            k.p.wait(40)
            k.judge(f"{what}, ended by {how}", written)
            k.end()


def merge(rng, a, b):
    out = []
    a, b = a[::-1], b[::-1]
    while a or b:
        out.append((a if a and (not b or rng.random() < .5) else b).pop())
    return out


def s_threads(ctx):
    """Several threads write lines to both streams."""
    rng = ctx.rng
    while ctx.more():
        with ctx.guard(90, "hangs", "start"):
            k = Kid(ctx, level=10)
        n, m = rng.choice([2, 4, 8]), rng.choice([20, 100, 300])
        plans, exp = [], {}
        for t in range(n):
            plan = []
            for i in range(m):
                s = rng.choice(["stdout", "stderr"])
                # (print() and buffered writes may be split by other threads)
                line = f"<{t}-{i}> ".encode() + rng.choice([b"", b"x" * rng.randint(0, 3000), b"\xff\xfe", "\u20ac".encode()]) + b"\n"
                plan.append([s, rng.choice(["os.write", "native"]), line, rng.choice([0] * 20 + [.001])])
                exp[f"<{t}-{i}>"] = (s, line[:-1].decode("utf-8", "backslashreplace"))
            plans.append(plan)
        what = f"{n} threads, {m} lines each"
        ctx.sig("threads", k.route, n, m)
        with ctx.guard(90, "hangs", f"{k.what}, {what}"):
            errs = k.w.run_many(plans, _sync="async").result(timeout=LOST)
            assert not errs, errs
            cnt = {s: sum(x[0] == s for x in exp.values()) for s in ("stdout", "stderr")}
            k.settle(cnt)
            for s in cnt:
                got = [t for t, l in k.lines.got[s]]
                ctx.ev(len(got))
                ctx.count("lines", len(got))
                if sorted(got) != sorted(x[1] for x in exp.values() if x[0] == s):
                    ctx.violate("line-lost" if len(got) <= cnt[s] else "line-duplicate", f"{k.what}, {what}: {s} gave {len(got)} records for {cnt[s]} lines")
                    continue
                last = {}
                for g in got:
                    t, i = map(int, g[1:g.index(">")].split("-"))
                    if last.get(t, -1) >= i:
                        ctx.violate("line-order", f"{k.what}, {what}: line {i} of thread {t} was logged after line {last[t]}")
                    last[t] = i
            k.end()


def s_ends(ctx):
    """The process ends right after writing, or while it writes."""
    rng = ctx.rng
    while ctx.more():
        with ctx.guard(90, "hangs", "start"):
            # (a shell reports signals in stderr)
            shell = rng.random() < .1
            k = Kid(ctx, level=10, shell=shell)
        how = rng.choice(["_exit", "atexit", "late stop"]) if shell else rng.choice(["_exit", "kill", "abort", "atexit", "late stop", "late kill", "grandchild", "grandchild", "thread"])
        s = rng.choice(["stdout", "stderr"])
        d = content(rng, rng.choice([1, 20, 60])) + rng.choice([b"", b"no newline", b"\xc3", b"end\n"])
        if how in ("late stop", "late kill"):
            d = b"".join(b"line %d %s\n" % (i, b"." * rng.randint(0, 50)) for i in range(400))
        plan = plan_of(rng, d, s, rng.choice([["os.write"], ["buffer", "print"], RAW[:4] + TEXT]))
        if how in ("late stop", "late kill"):
            plan = [[s, "os.write", x + b"\n", .001] for x in d.split(b"\n")[:-1]]
        what = f"{how} after {len(d)} bytes to {s}"
        ctx.sig("ends", how, s, k.route, d[-3:], len(plan).bit_length())
        journal = os.path.join(TMP, "j" + uniq())
        with ctx.guard(90, "hangs", f"{k.what}, {what}"):
            if how in ("_exit", "kill", "abort"):
                k.w.then_end(plan, how, _sync="off")
            elif how == "atexit":
                k.w.at_exit(plan)
                k.p.stop(timeout=40)
            elif how == "grandchild":
                k.w.grandchild(s, d[:60000], .3)
                d = d[:60000]
                if rng.random() < .5:
                    k.p.stop(timeout=40)
                else:
                    k.p.kill()
            elif how == "thread":
                # other threads of the parent wait for the end
                ths = [threading.Thread(target=waits, args=(k.p,), daemon=True) for _ in range(2)]
                for t in ths:
                    t.start()
                k.w.run(plan)
                k.p.stop(timeout=40)
                for t in ths:
                    t.join(40)
            else:
                k.w.background(plan, journal)
                time.sleep(rng.random() * .15)
                k.p.stop(timeout=40) if how == "late stop" else k.p.kill()
            code = k.p.wait(60)
            ctx.ev()
            other = "stderr" if s == "stdout" else "stdout"
            if how in ("late stop", "late kill"):
                try:
                    begun = [int(x) for x in open(journal)]
                    os.unlink(journal)
                except FileNotFoundError:
                    begun = [-1]
                n = begun[-1]  # lines before this one are complete
                k.settle({s: n})
                got = [t for t, l in k.lines.got[s]]
                full = texts(d)
                ctx.count("lines", n)
                if got not in (full[:n], full[:n + 1]):
                    ctx.violate("line-lost" if len(got) < n else "line-text", f"{k.what}, {what}: {len(got)} records for {n} or {n + 1} lines")
            else:
                k.judge(what, {s: d, other: b""})
            k.end()


def waits(p):
    try:
        p.wait(40)
    except TimeoutError:
        pass


class All(logging.Handler):
    def __init__(self):
        super().__init__()
        self.got = []

    def emit(self, rec):
        self.got.append((rec.getMessage(), rec.levelno))


def s_equal(ctx):
    """Several children that have the same name, at the same time and one after the other."""
    rng = ctx.rng
    while ctx.more():
        name = rng.choice(["same", "s.a.m.e", "", "teleprox", "root"]) + (uniq() if rng.random() < .3 else "")
        n = rng.choice([2, 3])
        mode = rng.choice(["own servers", "one server", "one server"])
        rounds = rng.choice([1, 2])
        what = f"{n} children named {name!r}, {mode}, {rounds} rounds"
        ctx.sig("equal", name[:4], n, mode, rounds)
        with ctx.guard(120, "hangs", what):
            sinks = []
            for _ in range(n if mode == "own servers" else 1):
                lg = logging.getLogger("vfs" + uniq())
                lg.propagate = False
                lg.setLevel(1)
                h = All()
                lg.addHandler(h)
                sinks.append((LogServer(lg), h, lg))
            exp = [[] for _ in sinks]
            kids = []

            def start():
                i = rng.randrange(n) % len(sinks)
                p = teleprox.start_process(name, log_addr=sinks[i][0].address, log_level=10)
                p.client._import("logging").getLogger().setLevel(60)
                kids.append((p, p.client._import("vf.writer"), i, uniq()))
            for _ in range(n):
                start()
            for rnd in range(rounds):
                for p, w, i, tok in kids:
                    plan = []
                    for j in range(rng.choice([1, 10, 40])):
                        s = rng.choice(["stdout", "stderr"])
                        line = f"{tok} {rnd} {j}"
                        plan.append([s, "os.write", line.encode() + b"\n", 0])
                        exp[i].append((f"[{name}.{s}] {line}", 20 if s == "stdout" else 30))
                    w.run(plan)
                if rnd + 1 < rounds or rng.random() < .5:
                    p = kids.pop(rng.randrange(len(kids)))[0]
                    p.stop(timeout=40)
                    p.client.close()
                if rnd + 1 < rounds:
                    start()
            end = time.monotonic() + 25
            while any(len([x for x in h.got if "] " in x[0]]) < len(e) for (_, h, _), e in zip(sinks, exp)) and time.monotonic() < end:
                time.sleep(.005)
            time.sleep(.05)
            for p, *_ in kids:
                p.stop(timeout=40)
                p.client.close()
            for (srv, h, lg), e in zip(sinks, exp):
                srv.stop()
                got = [x for x in h.got if x[0].startswith(f"[{name}.std")]
                ctx.ev(len(e))
                ctx.count("lines", len(e))
                if sorted(got) != sorted(e):
                    extra, miss = list(got), []
                    for x in e:
                        extra.remove(x) if x in extra else miss.append(x)
                    ctx.violate("line-lost" if miss else "line-duplicate", f"{what}: {len(got)} records for {len(e)} lines; missing {miss[:2]}, more than once or foreign {extra[:2]}")


def s_reuse(ctx):
    """Many short-lived processes, one after the other: captures that have ended have no influence on later ones (whose objects may take the
    place of earlier ones in memory)."""
    import gc
    from collections import deque
    rng = ctx.rng
    try:
        from teleprox.log.stdio import StdioLogSender
    except ImportError:
        ctx.count("no StdioLogSender")
        return
    root = logging.getLogger()
    root.setLevel(1)
    lg = logging.getLogger("vfs" + uniq())
    lg.propagate = False
    lg.setLevel(1)
    here, there = All(), All()
    root.addHandler(here)
    lg.addHandler(there)
    server = LogServer(lg)
    seen = set()
    history = deque(maxlen=4)
    while ctx.more():
        with ctx.guard(60, "hangs", "short-lived process"):
            level = rng.choice([10, 10, 20, 25, 40])
            remote = rng.random() < .4
            n = rng.choice([1, 3])
            tok = uniq()
            history.append((level, remote))
            what = f"processes (log level, to a log server): {list(history)}"
            proc = subprocess.Popen(["/bin/sh", "-c", f"for i in $(seq {n}); do echo {tok} $i; echo {tok} $i >&2; done"], stdout=subprocess.PIPE, stderr=subprocess.PIPE)
            ctx.count("object in place of an earlier one", id(proc) in seen)
            seen.add(id(proc))
            cap = StdioLogSender(proc, "x", server.address if remote else None, level)
            proc.wait()
            cap.join(20)
            exp = [(f"[x.{s}] {tok} {i + 1}", l) for i in range(n) for s, l in (("stdout", 20), ("stderr", 30)) if l >= level]
            dest, other = (there, here) if remote else (here, there)
            end = time.monotonic() + 20
            while sum(tok in x[0] for x in dest.got) < len(exp) and time.monotonic() < end:
                time.sleep(.002)
            ctx.ev(2 * n)
            ctx.count("lines", 2 * n)
            ctx.sig("reuse", tuple(history)[-2:], n)
            got = [x for x in dest.got if tok in x[0]]
            if sorted(got) != sorted(exp):
                ctx.violate("line-lost" if len(got) < len(exp) else "line-duplicate", f"{what}: {len(got)} records for {len(exp)} lines")
            ctx.check(not any(tok in x[0] for x in other.got), "line-duplicate", f"{what}: lines were logged at another place, too")
            dest.got.clear()
            other.got.clear()
            for f in (proc.stdout, proc.stderr):
                f.close()
            if rng.random() < .7:
                del proc, cap
                if rng.random() < .1:
                    gc.collect()
    server.stop()
    root.removeHandler(here)


def s_flood(ctx):
    """Nobody takes the records, or only slowly: the child goes on."""
    rng = ctx.rng
    while ctx.more():
        kind = rng.choice(["no server", "stopped server", "slow handler", "one line", "busy parent"])
        big = rng.choice([300_000, 2_000_000])
        s = rng.choice(["stdout", "stderr"])
        what = f"{big} bytes to {s}, {kind}"
        ctx.sig("flood", kind, big, s)
        with ctx.guard(120, "child-blocks", what):
            if kind == "no server":
                so = socket.socket()
                so.bind(("127.0.0.1", 0))
                p = teleprox.start_process("fl" + uniq(), log_addr="tcp://127.0.0.1:%d" % so.getsockname()[1], log_level=40 if rng.random() < .2 else 10)
                w = p.client._import("vf.writer")
                k = None
            else:
                k = Kid(ctx, level=10, route="server" if kind == "stopped server" else None)
                w, p = k.w, k.p
            if kind == "stopped server":
                k.server.stop()
                k.server.join(10)
            elif kind == "slow handler":
                sl = Slow()
                k.lg.addHandler(sl)
            chunk = (b"y" * 99 + b"\n") * (big // 100) if kind != "one line" else b"y" * big + b"\n"
            fut = w.run([[s, "os.write", chunk, 0]], _sync="async")
            if kind == "busy parent":
                t = time.monotonic() + .5
                while time.monotonic() < t:
                    sum(range(1000))
            try:
                fut.result(timeout=LOST)
            except TimeoutError:
                ctx.violate("child-blocks", f"{what}: the child is still blocked after {LOST} s")
            ctx.check(p.client.ping() == "pong", "child-blocks", what)
            if k is not None:
                if kind == "slow handler":
                    k.lg.removeHandler(sl)
                if kind != "stopped server":
                    k.judge(what, {s: chunk})
                k.end()
            else:
                p.stop(timeout=60)
                p.client.close()
                so.close()


class Slow(logging.Handler):
    def emit(self, rec):
        time.sleep(.0002)
