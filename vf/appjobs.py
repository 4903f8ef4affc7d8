"""An application that shows the messages of all its processes with basic_config(); and what its processes do."""
import json, logging, random, sys, threading, time

LEVELS = [logging.DEBUG, logging.INFO, 25, logging.WARNING, logging.ERROR, logging.CRITICAL, 60]
TEXTS = ["plain", "", "100%", "%s", "ü€\U0001f600", "tab\tx", "x" * 3000, "a\nb", "[1:2:3]", "<b>"]


class Failed(Exception):
    pass


def work(tag, threads, n, prints, exc, seed, pause=0):
    """-> list of (token, kind, level, text) of what was logged and printed here; kinds: log, out, err, exc"""
    done = []

    def run(k):
        rng = random.Random(f"{seed}-{k}")
        name = f"{tag}-{k}"
        lg = logging.getLogger(rng.choice(["", "app", "app.part", "other." + tag]))
        for i in range(n):
            level, text = rng.choice(LEVELS), rng.choice(TEXTS)
            done.append((f"{name}-{i}", "log", level, text))
            if rng.random() < .5:
                lg.log(level, "A<%s> %s", f"{name}-{i}", text)
            else:
                lg.log(level, f"A<{name}-{i}> {text}")      # (no arguments, nothing to format)
            if pause and rng.random() < .3:
                time.sleep(pause * rng.random())
    ths = [threading.Thread(target=run, args=(k,)) for k in range(threads)]
    for t in ths:
        t.start()
    for i in range(prints):
        for kind, f in (("out", sys.stdout), ("err", sys.stderr)):
            done.append((f"{tag}-{kind}-{i}", kind, logging.INFO if kind == "out" else logging.WARNING, "line"))
            f.write(f"A<{tag}-{kind}-{i}> line\n")
    for t in ths:
        t.join()
    for i in range(exc):
        done.append((f"{tag}-exc-{i}", "exc", logging.WARNING, ""))

        def fail(i=i):
            raise Failed("A" + f"<{tag}-exc-{i}>")
        t = threading.Thread(target=fail)
        t.start()
        t.join()
    sys.stdout.flush()
    return [list(d) for d in done]


def grandchild(name, level, args):
    """In a child: work in a process of its own."""
    import teleprox
    p = teleprox.start_process(name, **({} if level is None else {"log_level": level}))
    try:
        return p.client._import("vf.appjobs").work(*args, _timeout=60)
    finally:
        p.stop()


class Seen(logging.Handler):
    def __init__(self):
        super().__init__()
        self.text = []

    def emit(self, rec):
        t = rec.getMessage()
        if "A<" in t:
            self.text.append(t)


def main(plan):
    import teleprox, teleprox.log
    seen = Seen()
    logging.getLogger().addHandler(seen)
    teleprox.log.set_process_name("themain")
    teleprox.log.basic_config(plan["level"], **plan["kw"])
    level = logging.getLogger().level
    procs, futs = [], []
    for c in plan["children"]:
        procs.append(teleprox.start_process(c["name"], **c["kw"]))
    for c, p in zip(plan["children"], procs):
        mod = p.client._import("vf.appjobs")
        futs.append((c["name"], c["level"], mod.work(*c["work"], _sync="async")))
        if c["grand"]:
            g = c["grand"]
            futs.append((g["name"], g["level"], mod.grandchild(g["name"], g["kw_level"], g["work"], _sync="async")))
    ledger = [["themain", level, work(*plan["work"])]]
    for name, lvl, f in futs:
        ledger.append([name, lvl, f.result(timeout=60)])
    if plan["stop early"]:
        for p in procs:
            p.stop()
    end = time.monotonic() + plan["patience"]
    if plan["kw"].get("start_server", True):
        quiet = {"themain"} | {c["name"] for c in plan["children"] if c["kw"].get("log_stdio") is False}
        want = [t for name, lvl, items in ledger for t, kind, lv, text in items if lv >= max(level, lvl) and not (name in quiet and kind in ("out", "err"))
                and not (name == "themain" and kind == "exc" and not plan["kw"].get("exceptions", True))]
        while time.monotonic() < end:
            have = "".join(seen.text)
            if all(f"A<{t}>" in have for t in want):
                break
            time.sleep(.02)
    with open(plan["ledger"], "w") as f:
        json.dump(ledger, f)
    logging.getLogger().critical("A<last>")
    if plan["end"] == "exception":
        raise Failed("A" + "<end>")
    if plan["end"] == "exit":
        sys.exit(3)


if __name__ == "__main__":
    main(json.loads(sys.argv[1]))
