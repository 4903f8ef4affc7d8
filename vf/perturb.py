"""Schedule perturbation and coverage for teleprox code (sys.monitoring LINE events).

Sleeps are injected at random source lines of the monitored packages: places where a Python thread
may be descheduled anyway.  It also counts the distinct lines and thread-switch contexts reached, which
is the evidence of how many interleavings a run has really seen.  Nothing depends on names in the code.
"""
import os, random, sys, threading, time

TOOL = 4
_state = {"on": False}


def enable(seed=0, prob=0.0, max_sleep=0.002, root=None, act=None, more=()):
    """Start perturbing.  Returns the state dict (lines: set of (file, line), switches: set).

    act(): is called at every line (of the files in the directories *more*, too)
    """
    if _state["on"]:
        disable()
    if root is None:
        import teleprox
        root = os.path.dirname(os.path.abspath(teleprox.__file__))
    mon = sys.monitoring
    rng = random.Random(seed)
    lines, switches = set(), set()
    last = [None, None]
    _state.update(on=True, lines=lines, switches=switches, injected=0)
    tests = os.path.join(root, "tests")

    def on_line(code, line):
        fn = code.co_filename
        if not fn.startswith(root) or fn.startswith(tests):
            if more and fn.startswith(more):
                act()
                return
            return mon.DISABLE
        if act is not None:
            act()
        tid = threading.get_ident()
        lines.add((os.path.basename(fn), line))
        if last[0] is not None and last[0] != tid:
            if len(switches) < 20000:
                switches.add((last[1], (os.path.basename(fn), line)))
        last[0], last[1] = tid, (os.path.basename(fn), line)
        if prob and rng.random() < prob:
            _state["injected"] += 1
            time.sleep(rng.random() * max_sleep)

    mon.use_tool_id(TOOL, "vf")
    mon.register_callback(TOOL, mon.events.LINE, on_line)
    mon.set_events(TOOL, mon.events.LINE)
    return _state


def disable():
    if not _state["on"]:
        return {}
    mon = sys.monitoring
    mon.set_events(TOOL, 0)
    mon.register_callback(TOOL, mon.events.LINE, None)
    mon.free_tool_id(TOOL)
    _state["on"] = False
    return stats()


def stats():
    return {"lines": len(_state.get("lines", ())), "switches": len(_state.get("switches", ())), "injected": _state.get("injected", 0)}
