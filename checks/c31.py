"""C31: everything else works without the optional libraries (numpy, msgpack, Qt)."""
import json, os, subprocess, sys, tempfile
from vf import nonumpy

TECHNIQUE = "runtime monitoring: token and echo oracle over random workloads in processes where numpy (msgpack, Qt) cannot be imported"
NOTE = "Samples requests; the library is missing in both processes or only in the one that sends the requests. Each outcome is judged exactly."
LEVEL = "exploration"
RULE = "One evaluation = one judged request. Distinct = (what is missing where, serializer, kind of request)."
ASSUMPTIONS = ["A library is made unavailable by a package of its name, earlier on the path, that raises ImportError (as a broken installation does)."]
SCENARIOS = {
    "thread": {"quick": (1, 7), "thorough": (2, 60), "min": 200},
    "child": {"quick": (1, 8), "thorough": (2, 60), "min": 100},
    "mixed": {"quick": (1, 8), "thorough": (2, 60), "min": 100},
    "bare_thread": {"quick": (1, 7), "thorough": (2, 60), "min": 100},
    "bare_child": {"quick": (1, 8), "thorough": (2, 60), "min": 50},
}


def run(ctx, mode):
    root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    base = tempfile.mkdtemp(prefix="nonumpy", dir=os.environ.get("VF_DIR", "/tmp"))
    fake = os.path.join(base, "path")
    for name in ["numpy"] + ["msgpack", "PyQt5", "PyQt6", "PySide2", "PySide6"] * mode.startswith("bare"):
        os.makedirs(os.path.join(fake, name), exist_ok=True)
        with open(os.path.join(fake, name, "__init__.py"), "w") as f:
            f.write(f"raise ImportError('No module named {name} (blocked by /verif)')\n")
    env = {**os.environ, "PYTHONPATH": os.pathsep.join([fake, "/repo", root]), "VF_FAKE": fake}
    with ctx.guard(ctx.budget + 100, "hangs", f"program without numpy ({mode})"):
        p = subprocess.run([sys.executable, nonumpy.__file__, str(ctx.seed), str(max(1, ctx.budget - 2)), mode], stdin=subprocess.DEVNULL, capture_output=True, text=True, env=env, cwd=base)
    if "RESULT" not in p.stdout:
        ctx.violate("unexpected-error", f"the program without numpy ({mode}) ended with {p.returncode}: {p.stdout[-300:]} {p.stderr[-1500:]}")
        return
    r = json.loads(p.stdout.rpartition("RESULT")[2].split("\n")[0])
    ctx.ev(r["n"])
    ctx.count("requests " + mode, r["n"])
    for d in r["distinct"]:
        ctx.sig(d)
    for b in r["bad"][:20]:
        ctx.violate("differs-without-numpy", b)


def s_thread(ctx):
    """Server thread and clients in one process without numpy."""
    run(ctx, "thread")


def s_child(ctx):
    """Parent and children (some with Qt) without numpy."""
    run(ctx, "child")


def s_bare_thread(ctx):
    """Without numpy, msgpack and Qt: server thread and clients."""
    run(ctx, "bare thread")


def s_bare_child(ctx):
    """Without numpy, msgpack and Qt: parent and children."""
    run(ctx, "bare child")


def s_mixed(ctx):
    """A parent without numpy and children that have it."""
    run(ctx, "child with numpy")
