"""Runs in an own process: histories of requests for Qt libraries that exist only as stubs.

usage: qtlibs.py SEED SECONDS OUT [faked|real]; the result is JSON."""
import importlib, importlib.machinery, json, os, random, sys, time, types

LIBS = ["PyQt6", "PySide6", "PyQt5", "PySide2"]
ORDER = list(LIBS)
PARTS = ["QtCore", "QtGui", "QtWidgets"]
state = {}  # lib -> set of importable modules ("" = the package)
unreadable = {}


def fill(lib, part, m):
    """Content of one stub module."""
    m.which = f"{lib}.{part}"
    if part == "QtCore":
        m.QObject = type("QObject", (), {"lib": lib})
        m.QTimer = type("QTimer", (), {"lib": lib})
        sig = type("Signal", (), {"lib": lib, "__init__": lambda self, *a: None})
        setattr(m, "Signal" if lib.startswith("PySide") else "pyqtSignal", sig)
        m.common = lib + "1"
    if part == "QtGui":
        m.QImage = type("QImage", (), {"lib": lib})
        m.common = lib + "2"
    if part == "QtWidgets":
        class QApplication:
            one = None

            def __init__(self, args):
                if QApplication.one is not None:
                    raise RuntimeError("a second application")
                QApplication.one = self
                QApplication.made = getattr(QApplication, "made", 0) + 1

            @staticmethod
            def instance():
                return QApplication.one
        QApplication.lib = lib
        m.QApplication = QApplication
        m.QWidget = type("QWidget", (), {"lib": lib})
        m.common = lib + "3"


class Finder:
    """Answers for all four libraries, installed or not."""

    def find_spec(self, name, path=None, target=None):
        lib, _, part = name.partition(".")
        if lib not in state:
            return None
        if part not in state[lib]:
            raise ModuleNotFoundError(f"No module named {name!r}", name=name) if not unreadable.get(lib) else ImportError(f"libGL.so.1: cannot open shared object file ({name})", name=name)
        return importlib.machinery.ModuleSpec(name, self, is_package=not part)

    def create_module(self, spec):
        return None

    def exec_module(self, m):
        lib, _, part = m.__name__.partition(".")
        fill(lib, part, m)


def reset():
    for k in list(sys.modules):
        if k.split(".")[0] in LIBS or k in ("teleprox.qt_util", "teleprox.qt"):
            del sys.modules[k]
    importlib.invalidate_caches()
    tp = sys.modules.get("teleprox")
    for a in ("qt_util", "qt"):
        if hasattr(tp, a):
            delattr(tp, a)


def whole(ns, lib):
    """Everything in a namespace belongs to one library; None if so."""
    g = ns.get if isinstance(ns, dict) else lambda k, d=None: getattr(ns, k, d)
    for k in ("QObject", "QTimer", "QImage", "QApplication", "QWidget", "Signal"):
        v = g(k)
        if v is None:
            return f"has no {k}"
        if v.lib != lib:
            return f"{k} belongs to {v.lib}"
    if g("Signal") is not getattr(sys.modules[lib + ".QtCore"], "Signal" if lib.startswith("PySide") else "pyqtSignal"):
        return "Signal is another class"
    if not callable(g("make_qapp")):
        return "has no make_qapp"
    if not str(g("common")).startswith(lib):
        return f"common is {g('common')}"
    return None


class Case:
    def __init__(self, rng):
        self.rng = rng
        self.viol, self.ev, self.hist, self.app = [], 0, [], {}

    def fail(self, kind, msg):
        self.viol.append((kind, f"{msg} (installed {self.inst()}; history {self.hist})"))

    def inst(self):
        return {k: "full" if len(v) == 4 else sorted(v) for k, v in state.items() if v}

    def full(self, lib):
        return len(state[lib]) == 4

    def loaded(self, lib):
        return any(f"{lib}.{p}" in sys.modules for p in PARTS)

    def expect(self, req):
        """-> (set of libraries that may be bound, set of exceptions that may be raised)"""
        if self.bound:
            if req is not None and req != self.bound:
                return set(), {"ValueError"}
            return {self.bound}, set()
        mine = self.mine()
        if mine:
            if req is not None and req not in mine:
                return set(), {"ValueError"}
            if req is None and len(mine) == 1 or req is not None and mine == {req}:
                lib = req or next(iter(mine))
                return ({lib}, set()) if self.full(lib) else (set(), {"ImportError"})
            # several imported by the program: any of them (ValueError if another was asked for)
            ok = {x for x in mine if self.full(x) and req in (None, x)}
            return ok, ({"ImportError"} if any(not self.full(x) for x in mine) else set()) | ({"ValueError"} if req else set())
        if self.tainted & {x for x in LIBS if self.loaded(x)}:
            # an incomplete library was imported in part by a failed request: not specified further
            return {x for x in LIBS if self.full(x) and req in (None, x)}, {"ImportError", "ValueError"}
        if req is not None:
            if req not in state:
                return set(), {"ImportError"}
            return ({req}, set()) if self.full(req) else (set(), {"ImportError"})
        for lib in ORDER:
            if self.full(lib):
                return {lib}, set()
            if "QtCore" in state[lib]:
                return {x for x in LIBS if self.full(x)}, {"ImportError"}
        return set(), {"ImportError"}

    def mine(self):
        """Libraries of which the program has imported modules."""
        return set(self.by_program)

    def run(self, n):
        rng = self.rng
        reset()
        self.by_program, self.bound, self.tainted = [], None, set()
        mode = rng.choice(["any", "any", "one", "none", "all", "parts"])
        for lib in LIBS:
            unreadable[lib] = rng.random() < .3
            if mode == "all" or mode == "any" and rng.random() < .5:
                state[lib] = {"", *PARTS}
            elif mode == "parts" and rng.random() < .6:
                state[lib] = {"", *[p for p in PARTS if rng.random() < .7]}
            else:
                state[lib] = set()
        if mode == "one":
            state[rng.choice(LIBS)] = {"", *PARTS}
        self.mode = mode
        self.util = None
        for _ in range(n):
            op = rng.choice(["program", "module", "import", "import", "import", "qt", "app", "check", "install", "remove"])
            if op == "remove" and rng.random() < .5 or op == "program" and rng.random() < .4:
                continue
            getattr(self, "op_" + op)()
            if self.viol:
                break
        return self

    def op_program(self):
        lib, part = self.rng.choice(LIBS), self.rng.choice(PARTS + [""])
        if f"{lib}.{part}" in sys.modules and lib not in self.by_program:
            return  # left by a failed request: no trace of this import
        try:
            importlib.import_module(lib + (part and "." + part))
        except ImportError:
            return
        self.hist.append(f"program imports {lib}.{part}")
        if part and lib not in self.by_program:
            self.by_program.append(lib)

    def get(self):
        self.util = importlib.import_module("teleprox.qt_util")
        return self.util

    def op_module(self):
        self.hist.append("import teleprox.qt_util")
        self.get()

    def op_import(self):
        req = self.rng.choice([None, None] + LIBS + ["PyQt7"] * (self.rng.random() < .2))
        self.request(f"import_qt({req!r})", req, lambda: self.get().import_qt(*[req] if req else self.rng.choice([[], [None]])))

    def op_qt(self):
        if "teleprox.qt" in sys.modules:
            return
        self.request("import teleprox.qt", None, lambda: importlib.import_module("teleprox.qt"))

    def request(self, what, req, fn):
        self.hist.append(what)
        # detection also happens when the module is loaded
        libs, excs = self.expect(req)
        self.ev += 1
        try:
            ns = fn()
        except (ValueError, ImportError) as e:
            kind = "ValueError" if isinstance(e, ValueError) else "ImportError"
            self.hist[-1] += " -> " + type(e).__name__
            if kind not in excs:
                self.fail("refused", f"{what} raised {type(e).__name__}: {e}; expected {sorted(libs) or sorted(excs)}")
            for lib in LIBS:
                if self.loaded(lib) and lib not in self.by_program and not self.full(lib):
                    self.tainted.add(lib)
            return
        except Exception as e:
            self.fail("wrong-exception", f"{what} raised {type(e).__name__}: {e}")
            return
        got = getattr((ns.get if isinstance(ns, dict) else lambda k: getattr(ns, k, None))("QObject"), "lib", None)
        self.hist[-1] += f" -> {got}"
        if got not in libs:
            self.fail("wrong-binding", f"{what} is bound to {got}; expected {sorted(libs) or sorted(excs)}")
            return
        bad = whole(ns, got)
        if bad:
            self.fail("inconsistent", f"{what} bound to {got}: {bad}")
            return
        self.bound = got
        self.ns = ns

    def op_app(self):
        if not self.bound:
            return
        ns = self.ns if self.rng.random() < .5 else self.get().import_qt()
        make = ns["make_qapp"] if isinstance(ns, dict) else ns.make_qapp
        cls = sys.modules[self.bound + ".QtWidgets"].QApplication
        if cls.one is None and self.rng.random() < .3:
            cls([])
        was = cls.one
        self.hist.append("make_qapp()")
        self.ev += 1
        try:
            app = make()
        except Exception as e:
            self.fail("application", f"make_qapp() raised {e!r}")
            return
        if type(app) is not cls or app is not cls.one or was is not None and app is not was:
            self.fail("application", f"make_qapp() returned {app!r}, existing {was!r}")

    def op_check(self):
        r = self.get().check_qt_imported()
        self.hist.append(f"check_qt_imported() -> {r}")
        self.ev += 1
        has = bool(self.bound or self.by_program)
        if not has and self.tainted:
            return
        if bool(r) != has:
            self.fail("detection", f"check_qt_imported() returned {r!r}")

    def op_install(self):
        lib = self.rng.choice(LIBS)
        if not state[lib]:
            state[lib] = {"", *PARTS}
            self.hist.append("installed " + lib)

    def op_remove(self):
        """Uninstalled while running: what was imported stays imported."""
        lib = self.rng.choice(LIBS)
        if state[lib] and not self.loaded(lib) and lib not in sys.modules:
            state[lib] = set()
            self.hist.append("removed " + lib)


def main():
    seed, secs, out = int(sys.argv[1]), float(sys.argv[2]), sys.argv[3]
    rng = random.Random(seed)
    import teleprox.qt_util
    sys.meta_path.insert(0, Finder())
    end = time.monotonic() + secs
    res = {"cases": 0, "ev": 0, "sigs": [], "viol": []}
    sigs = set()
    while time.monotonic() < end and len(res["viol"]) < 3 and len(sigs) < 60000:
        c = Case(rng).run(rng.choice([2, 4, 8, 15]))
        res["cases"] += 1
        res["ev"] += c.ev
        sigs.add(hash(str((c.inst(), c.hist))))
        res["viol"] += c.viol[:1]
        if res["cases"] % 500 == 1:
            res.setdefault("samples", []).append(str((c.inst(), c.hist))[:300])
    res["sigs"] = sorted(sigs)
    json.dump(res, open(out, "w"))


if __name__ == "__main__":
    main()
