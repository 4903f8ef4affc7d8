"""Runs one scenario of one check in a fresh process: worker.py PID SCENARIO SEED TIER BUDGET OUT"""
import ctypes, faulthandler, importlib, json, os, signal, sys, threading, traceback

from vf.core import Ctx, Stop


def main():
    pid, scen, seed, tier, budget, out = sys.argv[1:7]
    params = json.loads(sys.argv[7]) if len(sys.argv) > 7 else {}
    ctypes.CDLL(None).prctl(36, 1, 0, 0, 0)  # PR_SET_CHILD_SUBREAPER: orphaned daemons are reaped here
    faulthandler.enable()
    ctx = Ctx(pid, scen, int(seed), tier, float(budget), out, params)
    ctx.start_guards()
    mod = importlib.import_module(f"checks.{pid.lower()}")
    fn = getattr(mod, "s_" + scen)
    code = 0
    try:
        fn(ctx)
    except Stop:
        pass
    except BaseException:
        ctx.counters["harness_errors"] += 1
        ctx.error = traceback.format_exc()[-3000:]
        with open(out + ".err", "w") as f:
            traceback.print_exc(file=f)
        code = 4
    with ctx.lock:
        from vf import perturb
        for k, v in perturb.stats().items():
            ctx.counters["perturb_" + k] += v
        ctx.write()
        ctx.finished = True
    sys.stdout.flush()
    # Never wait for atexit handlers of the code under test here (scenarios about exit run their own processes).
    os._exit(code)


if __name__ == "__main__":
    main()
