"""C29: log viewers show every record once, in the GUI thread."""
import json, os, subprocess, sys, tempfile
from vf.rpc import uniq

TECHNIQUE = "runtime monitoring: what each viewer is given (record, thread, order) is compared with what a plain handler with the same level and filters gets at the same logger; files written by other handlers at the program's end are read"
NOTE = "Samples trees of loggers, viewers, threads, log servers and ends of programs; each record is judged for each viewer."
LEVEL = "exploration"
RULE = "One evaluation = one record judged for one viewer (or one handler at the end of a program). Distinct = combinations of viewers, levels, filters, threads and ends."
ASSUMPTIONS = ["PyQt5 with the offscreen platform.", "The order is that of one emitting thread, as long as the viewer does not process events while it shows a record.", "The viewer is closed after use; what a viewer displays is not judged (it is unfinished)."]
SCENARIOS = {
    "view": {"quick": (3, 14), "thorough": (5, 150), "min": 500},
    "exit": {"quick": (2, 14), "thorough": (4, 120), "min": 10},
}
TMP = os.environ.get("VF_DIR", "/tmp")
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = lambda: {**os.environ, "PYTHONPATH": os.pathsep.join(["/repo", ROOT]), "QT_QPA_PLATFORM": "offscreen", "XDG_RUNTIME_DIR": TMP, "PYTHONIOENCODING": "utf-8:backslashreplace"}


def s_view(ctx):
    while ctx.more():
        out = os.path.join(TMP, "view" + uniq())
        with ctx.guard(100, "hangs", "viewers"):
            p = subprocess.run([sys.executable, os.path.join(ROOT, "vf", "viewjobs.py"), str(ctx.rng.getrandbits(40)), str(min(6, max(1, ctx.time_left()))), out], env=ENV(), stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)
        err = p.stderr.decode("utf-8", "replace")
        if not ctx.check(os.path.exists(out), "crash", f"the program ended with {p.returncode}: {err[-1500:]}"):
            continue
        r = json.load(open(out))
        os.unlink(out)
        ctx.ev(r["evals"])
        for s in r["sigs"]:
            ctx.sig(s)
        for n, v in r["counts"].items():
            ctx.count(n, v)
        for kind, msg in r["viols"]:
            ctx.violate(kind.replace(" ", "-"), msg)


def s_exit(ctx):
    rng = ctx.rng
    while ctx.more():
        d = tempfile.mkdtemp(dir=TMP)
        files = [os.path.join(d, f"f{i}") for i in range(rng.choice([1, 2, 3]))]
        plan = {"seed": rng.getrandbits(30), "logger": rng.choice(["", "x.y", "teleprox"]), "basic": rng.random() < .5, "files": files, "views": rng.choice([1, 1, 2]), "keep": rng.random() < .6, "late": rng.choice([0, 999]), "n": rng.choice([1, 20]),
                "tok": uniq(), "end": rng.choice(["app", "close", "exit", "none"]), "del": rng.random() < .5, "global": rng.random() < .6}
        with ctx.guard(60, "hangs", "the end of a program with viewers"):
            p = subprocess.run([sys.executable, os.path.join(ROOT, "vf", "viewjobs.py"), "exit", json.dumps(plan)], env=ENV(), stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)
        err = p.stderr.decode("utf-8", "replace")
        what = f"program {({k: v for k, v in plan.items() if k not in ('files', 'seed', 'tok')})}"
        ctx.sig(plan["logger"], plan["basic"], len(files), plan["views"], plan["keep"], plan["n"], plan["end"], plan["del"], plan["global"], plan["late"])
        n = plan["n"] + (plan["end"] == "close")
        want = [f"record {i} {plan['tok']}" for i in [*range(n)] + [plan["late"]] * bool(plan["late"])]
        ctx.check(p.returncode == 0 and "Traceback" not in err, "error-at-exit", f"{what}: exit code {p.returncode}, {err[-1200:]}")
        for f in files:
            got = open(f).read().split("\n")[:-1] if os.path.exists(f) else []
            ctx.check(got == want, "not-flushed", f"{what}: a handler of the same logger wrote {len(got)} of {len(want)} records at the end of the program: {err[-800:]}")
        if plan["basic"]:
            for w in want:
                ctx.check(err.count(w) == 1, "not-printed", f"{what}: {w!r} was printed {err.count(w)} times: {err[-800:]}")
