"""Runs in an own process with a Qt application: viewers on loggers, records from threads and processes.

usage: viewjobs.py SEED SECONDS OUT  (random rounds; JSON result)
       viewjobs.py exit PLAN         (a program that has viewers when it ends)"""
import atexit, json, logging, os, random, sys, threading, time
os.environ.setdefault("QT_QPA_PLATFORM", "offscreen")
LEVELS = [5, 10, 20, 30, 40, 50, 60]


class Plain(logging.Handler):
    """What a handler of this logger is given."""

    def __init__(self, level=0):
        super().__init__(level)
        self.recs = []

    def emit(self, rec):
        self.recs.append(rec)


class Odd:
    def __str__(self):
        raise ValueError("no text")
    __repr__ = __str__


def emit(lg, rng, who, n):
    """n records of one thread, of all kinds."""
    for i in range(n):
        level = rng.choice(LEVELS)
        kind = rng.randrange(8)
        msg = f"{who}/{i}"
        if kind == 0:
            try:
                raise KeyError(msg)
            except KeyError:
                lg.log(level, msg, exc_info=True)
        elif kind == 1:
            lg.log(level, msg + " %s", Odd())
        elif kind == 2:
            lg.log(level, msg + " %d %d", 1)        # (cannot be formatted)
        elif kind == 3:
            lg.log(level, msg, extra={"a" + str(i): Odd()}, stack_info=True)
        elif kind == 4:
            lg.log(level, Odd())
        elif kind == 5:
            lg.handle(lg.makeRecord(lg.name, level, "f\0", -1, "x\ud800" * 3, (), None))
        elif kind == 6:
            lg.log(level, "y" * rng.choice([0, 1, 100000]))
        else:
            lg.log(level, msg)
        if rng.random() < .05:
            time.sleep(rng.random() * .003)


class Quiet:
    """A filter that decides by the record alone."""

    def __init__(self, what):
        self.what = what

    def filter(self, rec):
        if self.what == "none":
            return False
        if self.what == "even":
            return rec.levelno % 20 == 0
        return True


def rounds(seed, seconds):
    from teleprox import qt
    from teleprox.log import logviewer
    from teleprox.log import LogServer, LogSender
    rng = random.Random(seed)
    app = qt.QApplication.instance() or qt.QApplication([])
    gui = threading.get_ident()
    out = {"evals": 0, "sigs": [], "viols": [], "counts": {}}
    end = time.monotonic() + seconds
    def bad(kind, msg):
        if len(out["viols"]) < 12:
            out["viols"].append([kind, msg])

    class Viewer(logviewer.LogViewer):
        def __init__(self, *a, **k):
            self.got = []
            self.busy = rng.choice([0, 0, .02])
            super().__init__(*a, **k)

        def new_record(self, rec):
            self.got.append((threading.get_ident(), rec))
            if self.busy and rng.random() < self.busy:
                # (a dialog, for example)
                if rng.random() < .5:
                    app.processEvents()
                else:
                    time.sleep(.002)

    k = 0
    while time.monotonic() < end and len(out["viols"]) < 6:
        k += 1
        base = f"vf{seed}x{k}"
        names = [base, base + ".a", base + ".a.b", base + ".c"]
        lgs = {n: logging.getLogger(n) for n in names}
        lgs[base].propagate = False
        lgs[base].setLevel(rng.choice([1, 10, 30]))
        for n in names[1:]:
            lgs[n].propagate = rng.random() < .8
            if rng.random() < .3:
                lgs[n].setLevel(rng.choice(LEVELS))
        views = []
        for _ in range(rng.choice([1, 1, 2, 4])):
            n = rng.choice(names)
            how = rng.choice(["name", "object", "keyword", "root"]) if len(views) < 3 else "name"
            ref = Plain()
            if how == "name":
                v = Viewer(n)
            elif how == "object":
                v = Viewer(lgs[n])
            elif how == "keyword":
                v = Viewer(parent=None, logger=n)
            else:
                # default: the root logger
                v = Viewer()
                n = ""
                lgs[base].propagate = True
            logging.getLogger(n).addHandler(ref)
            lv, fl = rng.choice([0, 0, 0, 30]), rng.choice([None, None, None, "none", "even", "all"])
            mine = [h for h in logging.getLogger(n).handlers if isinstance(h, logviewer.QtLogHandler) and h is v.handler]
            if len(mine) != 1:
                bad("not attached", f"LogViewer({how}) has {len(mine)} handlers at logger {n!r}")
            for h in (ref, v.handler):
                h.setLevel(lv)
                if fl:
                    h.addFilter(Quiet(fl))
            views.append((v, ref, n, how, lv, fl))
        nt, per = rng.choice([0, 1, 3, 8]), rng.choice([1, 10, 60])
        def work(i, r):
            for j in range(4):
                emit(lgs[r.choice(names)], r, f"{base}t{i}.{j}", per // 4 + 1)
        def send(address, r):
            # records that come from another place by a log server
            s = LogSender(address)
            l2 = logging.Logger("remote")
            l2.addHandler(s)
            for j in range(per):
                l2.log(r.choice(LEVELS), f"{base}r{j}")
            s.close()
        ls = None
        ts = [threading.Thread(target=work, args=(i, random.Random(f"{seed}/{k}/{i}"))) for i in range(nt)]
        if rng.random() < .3:
            ls = LogServer(lgs[rng.choice(names)])
            ts.append(threading.Thread(target=send, args=(ls.address, random.Random(k))))
        for t in ts:
            t.start()
        for _ in range(rng.choice([0, 3])):
            emit(lgs[rng.choice(names)], rng, f"{base}gui", rng.choice([1, 10]))
            app.processEvents()
        while any(t.is_alive() for t in ts):
            app.processEvents()
            time.sleep(.001)
        if ls is not None:
            ls.stop()
            while ls.is_alive():
                app.processEvents()
                time.sleep(.001)
        stop = time.monotonic() + 20
        while any(len(v.got) < len(ref.recs) for v, ref, *_ in views) and time.monotonic() < stop:
            app.processEvents()
            time.sleep(.001)
        for _ in range(5):
            app.processEvents()
        for v, ref, n, how, lv, fl in views:
            what = f"LogViewer({how}) with level {lv}, filter {fl}, of {len(views)} viewers, {nt} threads, log server {ls is not None}"
            out["sigs"].append(f"{how} {lv} {fl} {len(views)} {nt} {per} {ls is not None} {v.busy}")
            out["evals"] += len(ref.recs) + 1
            want, got = {}, {}
            for r in ref.recs:
                want.setdefault((r.thread, r.process), []).append(id(r))
            for t, r in v.got:
                got.setdefault((r.thread, r.process), []).append(id(r))
                if t != gui:
                    bad("wrong thread", f"{what}: a record was shown in another thread")
            if sorted(sum(want.values(), [])) != sorted(sum(got.values(), [])):
                miss = set(id(r) for r in ref.recs) - set(id(r) for _, r in v.got)
                extra = len(v.got) - len(set(id(r) for _, r in v.got))
                alien = set(id(r) for _, r in v.got) - set(id(r) for r in ref.recs)
                bad("records", f"{what}: {len(ref.recs)} records were handled, {len(v.got)} shown: {len(miss)} lost, {extra} repeated, {len(alien)} others")
            elif not v.busy and want != got:
                bad("order", f"{what}: the records of one thread were shown in another order")
            out["counts"]["records"] = out["counts"].get("records", 0) + len(v.got)
            logging.getLogger(n).removeHandler(ref)
            logging.getLogger(n).removeHandler(v.handler)
            v.close()
    out["counts"]["rounds"] = k
    return out


def program(plan):
    """Logs with a viewer; then the program ends."""
    if plan["late"]:
        # (called after Qt has cleaned up)
        atexit.register(lambda: lg.info("record %d %s", plan["late"], plan["tok"]))
    rng = random.Random(plan["seed"])
    from teleprox import qt
    from teleprox.log import logviewer, basic_config
    app = qt.QApplication([])
    if plan["global"]:
        globals()["application"] = app
    lg = logging.getLogger(plan["logger"])
    lg.setLevel(10)

    class File(logging.StreamHandler):
        # writes everything at the end only
        def __init__(self, path):
            super().__init__()
            self.path, self.texts = path, []

        def emit(self, rec):
            self.texts.append(rec.getMessage())

        def flush(self):
            if self.texts:
                with open(self.path, "a") as f:
                    f.write("".join(t + "\n" for t in self.texts))
                self.texts = []
    if plan["basic"]:
        basic_config(log_level="DEBUG", start_server=False)
    hs = [("file", p) for p in plan["files"]] + [("view", None)] * plan["views"]
    rng.shuffle(hs)
    keep = []
    if plan["global"]:
        globals()["viewers"] = keep
    for k, p in hs:
        if k == "file":
            lg.addHandler(File(p))
        else:
            v = logviewer.LogViewer(plan["logger"])
            v.show()
            if plan["keep"]:
                keep.append(v)
    for i in range(plan["n"]):
        lg.info("record %d %s", i, plan["tok"])
    for _ in range(5):
        app.processEvents()
    if plan["end"] == "app":
        qt.QTimer.singleShot(20, app.quit)
        (app.exec_ if hasattr(app, "exec_") else app.exec)()
    elif plan["end"] == "close":
        for v in keep:
            v.close()
        del keep[:]
        lg.info("record %d %s", plan["n"], plan["tok"])
        app.processEvents()
    if plan["del"]:
        del app
    if plan["end"] == "exit":
        sys.exit(0)


if __name__ == "__main__":
    if sys.argv[1] == "exit":
        program(json.loads(sys.argv[2]))
    else:
        r = rounds(sys.argv[1], float(sys.argv[2]))
        with open(sys.argv[3], "w") as f:
            json.dump(r, f)
        os._exit(0)
