"""C21: the Qt binding in use is the one the application uses."""
import json, os, subprocess, sys
from vf.rpc import uniq

TECHNIQUE = "runtime monitoring: histories of imports and requests in processes with stub Qt packages; bound namespaces and exceptions judged against a model of what is installed and imported"
NOTE = "Samples installations (complete, partial, broken), imports by the program before and between requests, and sequences of requests including failing ones."
LEVEL = "exploration"
RULE = "One evaluation = one request, application or detection judged. Distinct = distinct histories (installation, imports, requests with outcomes)."
ASSUMPTIONS = ["The libraries are stubs, except in the scenario with the installed PyQt5.", "A library of which only parts can be imported is skipped or reported; a partial namespace is never acceptable.",
               "If the program has imported several libraries, any of them may be used.", "The documented order is PyQt6, PySide6, PyQt5, PySide2."]
SCENARIOS = {
    "histories": {"quick": (4, 12), "thorough": (6, 200), "min": 5000},
    "processes": {"quick": (3, 12), "thorough": (4, 120), "min": 20},
}
TMP = os.environ.get("VF_DIR", "/tmp")
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LIBS = ["PyQt6", "PySide6", "PyQt5", "PySide2"]


def s_histories(ctx):
    """Many histories in one process: stub modules made by a finder."""
    while ctx.more():
        out = os.path.join(TMP, "q" + uniq())
        secs = min(5, max(1, ctx.time_left()))
        with ctx.guard(60 + secs, "hangs", "histories of requests"):
            p = subprocess.run([sys.executable, os.path.join(ROOT, "vf", "qtlibs.py"), str(ctx.rng.randrange(1 << 30)), str(secs), out], capture_output=True, text=True)
        if not os.path.exists(out):
            ctx.violate("unexpected-error", f"process with stub libraries failed with {p.returncode}: {p.stderr[-1500:]}")
            return
        d = json.load(open(out))
        os.unlink(out)
        ctx.ev(d["ev"])
        ctx.count("histories", d["cases"])
        for s in d["sigs"]:
            ctx.sig(s)
        for s in d.get("samples", [])[:2]:
            ctx.sample(s)
        for kind, msg in d["viol"]:
            ctx.violate(kind, msg)


STUB = {"QtCore": "class QObject: lib = '{lib}'\nclass {sig}: lib = '{lib}'\n", "QtGui": "class QImage: lib = '{lib}'\n",
        "QtWidgets": "class QApplication:\n    lib = '{lib}'\n    one = None\n    def __init__(self, a): QApplication.one = self\n    @staticmethod\n    def instance(): return QApplication.one\n"}
# (the serializer names these)
STUB["QtGui"] += "".join(f"class Q{x}: pass\n" for x in "Matrix4x4 Matrix3x3 Matrix2x2 Transform Vector2D Vector3D Vector4D Quaternion".split())
STUB["QtCore"] += "".join(f"class Q{x}: pass\n" for x in "Point Size Rect Line LineF PointF SizeF RectF".split())
PROG = r"""
import json, sys
out = []
for kind, x in json.loads(sys.argv[1]):
    try:
        if kind == "exec":
            exec(x)
            r = "done"
        else:
            from teleprox import qt_util
            if kind == "qt":
                import teleprox.qt as q
                ns = vars(q)
            else:
                ns = qt_util.import_qt(*([x] if x else []))
            lib = lambda c: getattr(c, "lib", c.__module__.split(".")[0])
            r = sorted({lib(ns[k]) for k in ("QObject", "QImage", "QApplication")})
            if ns["Signal"] is None or not callable(ns["make_qapp"]):
                r = "incomplete"
            a = ns["make_qapp"]()
            if a is not ns["QApplication"].instance() or a is not ns["make_qapp"]():
                r = "application"
    except (ImportError, ValueError) as e:
        r = "ImportError" if isinstance(e, ImportError) else "ValueError"
    out.append(r)
print("RES" + json.dumps(out))
"""


def s_processes(ctx):
    """Fresh interpreters with packages on disk, and the PyQt5 that is installed."""
    rng = ctx.rng
    while ctx.more():
        d = os.path.join(TMP, "libs" + uniq())
        os.mkdir(d)
        inst = [x for x in LIBS if rng.random() < .5]
        real = rng.random() < .4
        if real and "PyQt5" not in inst:
            inst.append("PyQt5")
        for lib in LIBS:
            if lib == "PyQt5" and real or lib not in inst and lib != "PyQt5" and rng.random() < .7:
                continue
            os.mkdir(os.path.join(d, lib))
            with open(os.path.join(d, lib, "__init__.py"), "w") as f:
                f.write("" if lib in inst else "raise ImportError('broken')\n")
            for part, text in STUB.items():
                with open(os.path.join(d, lib, part + ".py"), "w") as f:
                    f.write(text.format(lib=lib, sig="Signal" if lib.startswith("PySide") else "pyqtSignal"))
        steps, want, bound, mine = [], [], None, []
        for _ in range(rng.choice([1, 3, 5])):
            kind = rng.choice(["exec", "import", "import", "qt"])
            if kind == "exec":
                how = rng.choice(["import {0}.{1}", "from {0} import {1}", "from {0}.{1} import *", "import teleprox", "import {0}"])
                lib = rng.choice(LIBS)
                if mine and lib not in mine:
                    continue  # (a second library imported by the program: see histories)
                text = how.format(lib, rng.choice(list(STUB)))
                ok = how == "import teleprox" or lib in inst
                steps.append((kind, text))
                want.append("done" if ok else "ImportError")
                if ok and "{1}" in how and not bound:
                    mine = [lib]
                continue
            req = rng.choice([None] + LIBS) if kind == "import" else None
            steps.append((kind, req))
            have = bound or (mine[0] if mine else None)
            if have:
                want.append("ValueError" if req not in (None, have) else [have])
            else:
                lib = next((x for x in LIBS if x in inst and req in (None, x)), None)
                want.append([lib] if lib else "ImportError")
                bound = lib
            if isinstance(want[-1], list):
                bound = want[-1][0]
        if not steps:
            continue
        what = f"installed {inst}, {'the real PyQt5' if real else 'stubs'}, steps {steps}"
        ctx.sig(sorted(inst), real, steps)
        with ctx.guard(60, "hangs", what):
            p = subprocess.run([sys.executable, "-c", PROG, json.dumps(steps)], capture_output=True, text=True, env={**os.environ, "PYTHONPATH": d + os.pathsep + "/repo"})
        line = [x for x in p.stdout.splitlines() if x.startswith("RES")]
        if not line:
            ctx.violate("unexpected-error", f"{what}: ended with {p.returncode}: {p.stderr[-1200:]}")
            continue
        got = json.loads(line[0][3:])
        ctx.ev(len(got))
        ctx.count("processes")
        ctx.check(got == want, "wrong-binding", f"{what}: outcomes {got} instead of {want}")
