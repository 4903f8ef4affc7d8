"""C03: values travel unchanged in both directions with both serializers."""
import math, random, time
import numpy as np
from vf import values, perturb
from vf.values import canon, gen, as_json
from vf.rpc import ThreadServer, RPCClient, in_threads, child, uniq

TECHNIQUE = "runtime monitoring: generated values with a canonical-description oracle evaluated on both sides of the wire"
NOTE = "Samples the value space (with hand-picked extremes for every type); each transfer is judged on the receiving and the returning side."
LEVEL = "exploration"
RULE = ("One evaluation = one value whose canonical description (exact type, bits, dtype, shape) was compared after one hop. "
        "Distinct = distinct canonical descriptions (hashed) per serializer and way of sending.")
ASSUMPTIONS = ["Dictionaries do not contain the serializer's reserved key '___type_name___'.", "Strings are valid Unicode (no lone surrogates).",
               "Nesting is at most 60 levels (msgpack and Python's json have their own limits)."]
SCENARIOS = {
    "qt": {"quick": (1, 9), "thorough": (2, 90), "min": 200},
    "thread": {"quick": (4, 9), "thorough": (8, 120), "min": 3000},
    "proc": {"quick": (2, 9), "thorough": (6, 120), "min": 1000},
    "extremes": {"quick": (2, 8), "thorough": (2, 30), "min": 300},
}
LOST = 60


class Sink:
    """Lives on the server."""

    def __init__(self):
        self.attr = None
        self.items = {}

    def describe(self, v):
        return canon(v)

    def both(self, v, kw=None):
        """-> (description of what arrived, the value itself)"""
        return [canon(v), canon(kw), v]

    def echo(self, *args, **kwds):
        return args[0] if args else kwds["v"]

    def set(self, v):
        self.attr = v

    def __setitem__(self, k, v):
        self.items[k] = v

    def __getitem__(self, k):
        return self.items[k]

    def wrap(self, v):
        return {"v": [v, v]}


def check_value(ctx, c, sink, v, ser, how=None):
    exp = as_json(v) if ser == "json" else v
    want = canon(exp)
    how = how or ctx.rng.choice(["both", "both", "attr", "item", "name", "wrap", "value", "async", "kw", "tuplearg"])

    def judge(got, where):
        ctx.ev()
        g = canon(got) if where != "arrived" else got
        if g != want:
            ctx.violate("value-changed", f"{ser}, {how}, {where}: sent {v!r:.300}; want {values.diff(want, g)}")
    ctx.sig(ser, how, want)
    try:
        if how == "both":
            r = sink.both(v, _timeout=LOST)
            judge(r[0], "arrived")
            judge(r[2], "returned")
        elif how == "attr":
            sink.attr = v
            judge(sink.attr._get_value(), "attribute")
        elif how == "item":
            sink["k"] = v
            judge(sink["k"], "item")
        elif how == "name":
            name = f"n{id(c)}"
            c[name] = v
            judge(c[name], "published")
        elif how == "wrap":
            r = sink.wrap(v, _timeout=LOST)
            judge(r["v"][0], "in a container")
            judge(r["v"][1], "in a container, twice")
        elif how == "value":
            sink.set(v, _timeout=LOST)
            judge(sink.echo(c.transfer(v), _timeout=LOST, _return_type="value"), "via transfer")
            judge(sink.describe(c.transfer(v)), "arrived")
        elif how == "async":
            futs = [sink.echo(v, _sync="async"), sink.describe(v, _sync="async")]
            judge(futs[0].result(timeout=LOST), "async result")
            judge(futs[1].result(timeout=LOST), "arrived")
        elif how == "kw":
            r = sink.both(None, kw=v, _timeout=LOST)
            judge(r[1], "arrived")
            judge(sink.echo(v=v, _timeout=LOST), "keyword")
        elif how == "tuplearg":
            want0, want = want, canon([exp, exp] if ser == "json" else (exp, exp))
            judge(sink.describe((v, v), _timeout=LOST), "arrived")
            judge(sink.echo((v, v), _timeout=LOST), "returned")
    except Exception as e:
        ctx.violate("value-refused", f"{ser}, {how}: {v!r:.300} ({want[:200]}) raised {type(e).__name__} {str(e)[-600:]}")


def drive(ctx, c, sink, ser, rng):
    while ctx.more():
        v = gen(rng, json=ser == "json", maxdepth=rng.choice([1, 2, 3, 4, 5]))
        with ctx.guard(LOST + 20, "value-lost", f"{ser}: no answer for {v!r:.200}"):
            check_value(ctx, c, sink, v, ser)
        if rng.random() < .0005:
            ctx.sample({"serializer": ser, "value": repr(v)[:200]})


def own_serializer():
    """A registered serializer of the user: another encoding around that of msgpack."""
    import zlib
    from teleprox import serializer

    class Zipped(serializer.MsgpackSerializer):
        type = "vfzip"

        def dumps(self, obj, server, serialize_types):
            return zlib.compress(super().dumps(obj, server, serialize_types), 1)

        def loads(self, msg, server, proxy_opts):
            return super().loads(zlib.decompress(msg), server, proxy_opts)
    serializer.all_serializers[Zipped.type] = Zipped


def s_thread(ctx):
    """Server threads of this process, several clients with all serializers (and one of the user) at the same time."""
    w = ctx.params.get("w", 0)
    own_serializer()
    s = ThreadServer(["tcp", "inproc", "ipc", "tcp"][w % 4])

    def body(i):
        ser = ["msgpack", "json", "vfzip"][(i + w) % 3]
        rng = random.Random(f"{ctx.seed}/{i}")
        c = RPCClient(s.address, serializer=ser)
        drive(ctx, c, c._import("checks.c03").Sink(), ser, rng)
        c.close()
    in_threads([lambda i=i: body(i) for i in range(2 if w else 4)])
    if s.error:
        ctx.violate("server-died", s.error)
    s.close()


def s_proc(ctx):
    p = child(serializer=["msgpack", "json"][ctx.params.get("w", 0) % 2])
    ser = ["msgpack", "json"][ctx.params.get("w", 0) % 2]
    drive(ctx, p.client, p.client._import("checks.c03").Sink(), ser, ctx.rng)
    p.stop()


def s_qt(ctx):
    """Qt types, between processes that have imported Qt before teleprox (in a process of its own)."""
    import json, os, subprocess, sys
    from vf import qtvalues
    root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with ctx.guard(ctx.budget + 60, "value-lost", "Qt values"):
        p = subprocess.run([sys.executable, qtvalues.__file__, str(ctx.seed), str(ctx.budget - 3)], stdin=subprocess.DEVNULL, capture_output=True, text=True, env={**os.environ, "PYTHONPATH": os.pathsep.join(["/repo", root])})
    if "RESULT" not in p.stdout:
        raise RuntimeError(f"{p.returncode} {p.stdout[-500:]} {p.stderr[-1500:]}")
    r = json.loads(p.stdout.rpartition("RESULT")[2])
    ctx.ev(r["n"])
    ctx.count("Qt values", r["n"])
    for d in r["distinct"]:
        ctx.sig("qt", d)
    for b in r["bad"]:
        ctx.violate("value-changed", b)


def s_extremes(ctx):
    """A fixed list of corner cases through every way of sending, then big and deep values."""
    s = ThreadServer()
    ser = ["msgpack", "json"][ctx.params.get("w", 0) % 2]
    c = RPCClient(s.address, serializer=ser)
    sink = c._import("checks.c03").Sink()
    r = random.Random(5)
    import datetime
    cases = [None, True, False, 0, -1, 2**64, -2**64, 0.0, -0.0, math.nan, math.inf, "", b"", [], (), {}, [()], ((),), {"": None}, [[[]]], (None,), [None, [None]],
             {"action": "return", "req_id": 3, "rval": 1, "error": None}, {"action": "disconnect"}, {"req_id": 0}, {"obj": 1}, {"data": 1, "dtype": "f8", "shape": [1]},
             datetime.datetime.min, datetime.datetime.max, datetime.date.min, datetime.date.max, datetime.datetime(1, 1, 1, tzinfo=datetime.timezone.utc),
             datetime.datetime(2020, 10, 25, 2, 30, fold=1)]
    cases += [np.zeros((), d) for d in values.SCALAR_DTYPES] + [np.zeros((0, 2), d) for d in values.SCALAR_DTYPES]
    cases += [np.array([np.nan, -0.0, np.inf, 5e-324]), np.arange(24).reshape(2, 3, 4).transpose(2, 0, 1), np.array("x"), np.array(["NaT", "2020-01-01"], "M8[s]"),
              np.float16(1.5), np.float32("nan"), np.longdouble(1) / 3, np.complex64(1 + 2j), np.clongdouble(1j) / 3, np.bool_(True), np.uint64(2**64 - 1), np.int64(-2**63), np.timedelta64("NaT")]
    if ser == "msgpack":
        cases += [{1: 2}, {(1, 2): [3]}, {None: 1}, {1.5: 1, True: 2}, {b"k": (1,)}, {((1,), "a"): {}}, np.float64(1.5), np.float64("nan")]
    hows = ["both", "attr", "item", "name", "wrap", "value", "async", "kw", "tuplearg"]
    for v in cases:
        for how in (hows if ctx.tier == "thorough" or r.random() < .3 else r.sample(hows, 3)):
            with ctx.guard(LOST + 20, "value-lost", f"{ser}: {v!r:.200}"):
                check_value(ctx, c, sink, v, ser, how)
    deep = 1
    for i in range(60):
        deep = [deep] if i % 3 == 0 else (deep,) if i % 3 == 1 else {"d": deep}
    for v in [deep, list(range(20000)), "é" * 500000, np.arange(400000, dtype="f8").reshape(1000, 400).T, {str(i): i for i in range(5000)}, [b"z" * 1000] * 300, list(range(70000)), {str(i): i for i in range(66000)},
              b"\0\xff" * 10000000, [None] * 66000, "x" * 20000000, np.zeros(3000000)]:
        with ctx.guard(LOST + 20, "value-lost", f"{ser}: big"):
            check_value(ctx, c, sink, v, ser, "both")
    while ctx.more():
        v = values.array(ctx.rng) if ctx.rng.random() < .6 else values.leaf(ctx.rng, ser == "json")
        check_value(ctx, c, sink, v, ser)
    c.close()
    s.close()
