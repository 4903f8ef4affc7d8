"""C30: an application configured with basic_config() shows the messages of all its processes, once."""
import json, logging, os, re, subprocess, sys
from vf import appjobs
from vf.rpc import uniq

TECHNIQUE = "runtime monitoring: real applications (a tree of processes) keep a ledger of everything they log, print and raise; their stderr and stdout are compared with it (exactly-once, order, level, origin)"
NOTE = "Samples trees of processes, levels, options, amounts and ways of the program's end; every message is looked up in the output."
LEVEL = "exploration"
RULE = "One evaluation = one message looked up in the output. Distinct = (level, options, tree, way of the end) combinations."
ASSUMPTIONS = ["basic_config() is called once, before processes are started.", "The application ends when the messages of its processes have arrived (those still under way cannot be shown)."]
SCENARIOS = {
    "apps": {"quick": (3, 26), "thorough": (4, 240), "min": 250},
}
TMP = os.environ.get("VF_DIR", "/tmp")
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TOK = re.compile(r"A<([^<>]+)>")


def plan_of(rng):
    lv = lambda: rng.choice([None, None, None, "INFO", "WARNING", logging.DEBUG, "error"])
    num = lambda x, d: d if x is None else x if isinstance(x, int) else getattr(logging, x.upper())
    level = rng.choice(["INFO", "WARNING", "WARNING", "DEBUG", logging.ERROR])
    base = num(level, None)
    kids = []
    for k in range(rng.choice([0, 1, 1, 2, 3])):
        x = lv()
        kw = {} if x is None else {"log_level": x}
        if rng.random() < .2:
            kw["qt"] = True
        if rng.random() < .2:
            kw["log_stdio"] = rng.choice([True, True, False])
        own = num(x, base)
        g = None
        if rng.random() < .4 and not kw.get("qt"):
            y = lv()
            g = {"name": f"grand{k}", "kw_level": y, "level": num(y, own), "work": [f"g{k}", rng.choice([1, 2]), rng.choice([1, 8]), rng.choice([0, 2]), rng.choice([0, 1]), rng.random()]}
        kids.append({"name": f"kid{k}", "kw": kw, "level": own, "grand": g,
                     "work": [f"k{k}", rng.choice([1, 3]), rng.choice([1, 10, 40]), rng.choice([0, 1, 10]), rng.choice([0, 0, 2]), rng.random(), rng.choice([0, .01])]})
    return {"level": level, "kw": rng.choice([{}, {}, {}, {"exceptions": True}, {"exceptions": False}, {"start_server": True}, {"start_server": False}]), "children": kids,
            "work": ["m", rng.choice([1, 3]), rng.choice([1, 10, 40]), rng.choice([0, 1, 5]), rng.choice([0, 0, 2]), rng.random(), rng.choice([0, .01])],
            "stop early": rng.random() < .5, "end": rng.choice(["return", "return", "exception", "exit"]), "patience": 30}


def s_apps(ctx):
    rng = ctx.rng
    while ctx.more():
        plan = plan_of(rng)
        plan["ledger"] = os.path.join(TMP, "ledger" + uniq())
        serving = plan["kw"].get("start_server", True)
        exceptions = plan["kw"].get("exceptions", True)
        tree = [(c["name"], c["kw"], c["grand"] and c["grand"]["kw_level"]) for c in plan["children"]]
        what = f"level {plan['level']}, basic_config {plan['kw']}, processes {tree}, stopped early: {plan['stop early']}, ends by {plan['end']}"
        ctx.sig(plan["level"], plan["kw"], len(tree), [bool(t[2]) for t in tree], plan["end"])
        with ctx.guard(150, "hangs", what):
            p = subprocess.run([sys.executable, os.path.join(ROOT, "vf", "appjobs.py"), json.dumps(plan)], stdin=subprocess.DEVNULL, capture_output=True,
                               env={**os.environ, "PYTHONPATH": os.pathsep.join(["/repo", ROOT]), "PYTHONIOENCODING": "utf-8"})
        out, err = p.stdout.decode("utf-8", "replace"), p.stderr.decode("utf-8", "replace")
        ctx.check(p.returncode == {"return": 0, "exception": 1, "exit": 3}[plan["end"]], "exit-code", f"{what}: exit code {p.returncode}: {err[-700:]}")
        if not os.path.exists(plan["ledger"]):
            why = err[err.rfind("Traceback (most"):] if "Traceback (most" in err else err[max(0, err.rfind("Unhandled exc")):]
            ctx.violate("fails", f"{what}: {why[:1500]} ... {why[-300:]}")
            continue
        ledger = json.load(open(plan["ledger"]))
        os.unlink(plan["ledger"])
        level = ledger[0][1]
        want_level = plan["level"] if isinstance(plan["level"], int) else getattr(logging, plan["level"])
        ctx.check(level == want_level, "level", f"{what}: the level of the root logger is {level}")
        lines = {}
        for m in TOK.finditer(err):
            a = err.rfind("\n", 0, m.start()) + 1
            lines.setdefault(m.group(1), []).append((m.start(), err[a:m.end()], err[m.end():m.end() + 3100]))
        n = 0
        for proc, lvl, items in ledger + [["themain", level, [["last", "log", 50, ""]] + ([["end", "exc", 30, ""]] if plan["end"] == "exception" else [])]]:
            kw = next((c["kw"] for c in plan["children"] if c["name"] == proc or not serving and c["grand"] and c["grand"]["name"] == proc), {})
            streams = {}
            for tok, kind, lv, text in items:
                got = lines.pop(tok, [])
                piped = kind in ("out", "err") and proc != "themain" and serving and kw.get("log_stdio") is not False
                n += 1
                if kind in ("out", "err") and not piped:
                    if kw.get("log_stdio") is True:
                        continue        # logged by a logger of this process, whatever its level
                    k = out.count(f"A<{tok}>") if kind == "out" else len(got)
                    ctx.check(k == 1, "lost" if not k else "repeated", f"{what}: line printed to {kind} by {proc} appears {k} times")
                    continue
                if proc != "themain" and not serving:
                    continue
                if kind == "exc" and proc == "themain" and not exceptions:
                    ctx.check(len(got) == 1 and "Unhandled" not in err.split(f"A<{tok}>")[0].split("Traceback")[-2][-100:], "repeated", f"{what}: exception of {proc} (not to be logged) appears {len(got)} times")
                    continue
                if lv < max(lvl, level):
                    ctx.check(not got, "level", f"{what}: a message of {proc} with level {lv} (levels there and here: {lvl}, {level}) is shown: {[g[1] for g in got]}")
                    continue
                if len(got) != 1:
                    ctx.violate("lost" if not got else "repeated", f"{what}: {kind} {tok} of {proc}, level {lv} (levels there and here: {lvl}, {level}): shown {len(got)} times {[g[1] for g in got][:3]}; {err[-400:]}")
                    continue
                pos, head, tail = got[0]
                if kind != "exc":
                    ctx.check(f":{proc}:" in head or kind in ("out", "err") and f"[{proc}.std" in head, "origin", f"{what}: {kind} of {proc} is shown as {head!r:.200}")
                if kind == "log":
                    ctx.check(tail.startswith(" " + text if tok != "last" else ""), "text", f"{what}: {tok} {text!r:.60} is shown as {tail!r:.100}")
                streams.setdefault(tok.rsplit("-", 1)[0], []).append(pos)
            for s, pos in streams.items():
                ctx.check(pos == sorted(pos), "order", f"{what}: messages of {proc}, {s} are shown in another order")
        ctx.ev(n)
        ctx.count("messages", n)
        ctx.check(not lines, "unexpected", f"{what}: {list(lines)[:3]}")
