"""C07: operations on a proxy do what they would do on the object itself."""
import operator, random, threading, warnings
import numpy as np
from teleprox import RemoteCallException, ObjectProxy
from vf import ops, values
from vf.ops import FACTORIES, describe
from vf.rpc import ThreadServer, RPCClient, RPCServer, in_threads, child, uniq

TECHNIQUE = "runtime monitoring: differential oracle, every operation on a proxy compared with the same operation on a local twin (result, error type, state afterwards)"
NOTE = "Samples objects, operands, operators and argument lists; each operation is compared completely with local evaluation."
LEVEL = "exploration"
RULE = ("One evaluation = one operation whose result or error type, and the states of the objects afterwards, were compared with the local twin. "
        "Distinct = (operation, type of the object, type and kind of the operand, outcome type).")
ASSUMPTIONS = ["Operands and arguments are sent by value or are proxies; the left operand of a reflected operator returns NotImplemented for a proxy "
               "(numpy arrays and str % are evaluated locally by their own types).",
               "Names are not those of ObjectProxy's own attributes and the reserved keywords _sync, _timeout, _return_type."]
SCENARIOS = {
    "operators": {"quick": (3, 9), "thorough": (8, 120), "min": 3000},
    "programs": {"quick": (3, 9), "thorough": (8, 120), "min": 1500},
}
LOST = 40
BIN = {"add": operator.add, "sub": operator.sub, "mul": operator.mul, "truediv": operator.truediv, "floordiv": operator.floordiv, "mod": operator.mod, "pow": operator.pow,
       "lshift": operator.lshift, "rshift": operator.rshift, "and": operator.and_, "or": operator.or_, "xor": operator.xor,
       "lt": operator.lt, "le": operator.le, "gt": operator.gt, "ge": operator.ge, "eq": operator.eq, "ne": operator.ne}
BY_VALUE = ["int", "float", "bool", "str", "bytes", "list", "tuple", "dict", "none", "date", "array", "npint", "npfloat"]
warnings.simplefilter("ignore")
np.seterr(all="ignore")


def outcome(fn):
    try:
        return ("value", fn())
    except RemoteCallException as e:
        return ("error", e.type_str)
    except Exception as e:
        return ("error", type(e).__name__)


def text(lab, out, remote):
    kind, v = out
    if kind == "error":
        return f"error {v}"
    if isinstance(v, ObjectProxy):
        return lab.describe(v, _timeout=LOST)
    if isinstance(v, (list, tuple)) and any(isinstance(x, ObjectProxy) for x in v):
        return lab.describe(v, _timeout=LOST)
    return describe(v)


def s_operators(ctx):
    w = ctx.params.get("w", 0)
    s = ThreadServer() if w != 1 else child()
    address = s.address if w != 1 else s.client.address
    c = RPCClient.get_client(address)
    lab = c._import("vf.ops").Lab()
    rng = ctx.rng
    kinds = sorted(FACTORIES)
    n = 0
    while ctx.more():
        n += 1
        ka, kb = rng.choice(kinds), rng.choice(kinds)
        va, vb = rng.choice([0, 1, 2, 3, 5, 12]), rng.choice([0, 1, 2, 3, 7])
        name = rng.choice(sorted(BIN))
        op = BIN[name]
        form = rng.choice(["pv", "vp", "pp", "pp", "same", "pow3"])
        if form in ("pv", "vp") and kb not in BY_VALUE:
            form = "pp"
        if form == "vp" and (kb in ("array", "npint", "npfloat") or (name == "mod" and kb in ("str", "bytes"))):
            form = "pv"
        a, b = FACTORIES[ka](va), FACTORIES[kb](vb)
        with ctx.guard(LOST + 20, "no-answer", f"{ka} {name} {kb}"):
            pa = lab.make("a", ka, va, _return_type="proxy")
            pb = lab.make("b", kb, vb, _return_type="proxy") if form == "pp" else None
            if form == "pv":
                fn, local = (lambda: op(pa, b)), (lambda: op(a, b))
            elif form == "vp":
                fn, local = (lambda: op(b, pa)), (lambda: op(b, a))
            elif form == "pp":
                fn, local = (lambda: op(pa, pb)), (lambda: op(a, b))
            elif form == "same":
                fn, local = (lambda: op(pa, pa)), (lambda: op(a, a))
                if name == "eq":
                    continue  # equal by definition, see C08
            else:
                name = "pow3"
                fn, local = (lambda: pow(pa, vb, 7)), (lambda: pow(a, vb, 7))
            got, want = text(lab, outcome(fn), True), text(None, outcome(local), False)
            what = f"{form}: {ka}({va}) {name} {kb}({vb})"
            ctx.sig(w % 3, form, ka, name, kb if form != "same" else "", got.split(":")[0][:30])
            ctx.check(got == want, "operator-differs", f"{what}: proxy gives {got:.300}, object gives {want:.300}")
            sa = lab.state("a", _timeout=LOST)
            ctx.check(sa == ops.state(a), "state-differs", f"{what}: object afterwards is {sa:.300}, twin is {ops.state(a):.300}")
            if form == "pp":
                sb = lab.state("b", _timeout=LOST)
                ctx.check(sb == ops.state(b), "state-differs", f"{what}: operand afterwards is {sb:.300}, twin is {ops.state(b):.300}")
                pb._delete(sync="off")
            pa._delete(sync="off")
        if n % 2000 == 1:
            ctx.sample({"operation": what, "result": got[:200]})
    s.close() if w != 1 else s.stop()


def s_programs(ctx):
    """Sequences of attribute, item, call and operator operations on one object."""
    w = ctx.params.get("w", 0)
    s = ThreadServer(["tcp", "ipc", "inproc"][w % 3])
    ser = ["msgpack", "json", "msgpack"][w % 3]
    rng = ctx.rng

    def body():
        c = RPCClient(s.address, serializer=ser)
        lab = c._import("vf.ops").Lab()
        while ctx.more():
            kind = rng.choice(["Box", "Box", "Box", "list", "dict", "array", "Narrow", "Err", "deque", "Plain", "userlist", "bytearray", "cls_Box", "str", "int", "farray"])
            v = rng.randrange(8)
            a = FACTORIES[kind](v)
            p = lab.make("a", kind, v, _return_type="proxy")
            if kind == "cls_Box":
                a.limit = 3
            trace = []
            for _ in range(rng.randrange(2, 14)):
                step(ctx, rng, lab, kind, a, p, trace, ser)
            p._delete(sync="off")
            if kind == "cls_Box":
                for k in [k for k in vars(ops.Box) if k.startswith("x_")]:
                    delattr(ops.Box, k)
        c.close()
    in_threads([body])
    s.close()


def step(ctx, rng, lab, kind, a, p, trace, ser):
    val = lambda: values.gen(rng, depth=2, json=ser == "json")
    js = values.as_json if ser == "json" else (lambda v: v)
    name = lambda: rng.choice(["v", "limit", "nope", "prop", "dyn_q", "x_1", "x_ü", "a", "p", "real", "shape",
                               "_priv", "_x_2", "__dd__", "sync", "timeout", "client", "send", "name", "type", "value", "result", "obj_id", "attributes"])
    args = [val() for _ in range(rng.choice([0, 0, 1, 2, 4]))]
    kwds = {k: val() for k in rng.sample(["a", "b", "c", "obj", "args", "kwargs", "self_", "sync", "timeout", "return_type", "name", "opts", "ü", "x"], rng.choice([0, 0, 0, 1, 2, 4]))}
    op = rng.choice(["get", "get", "set", "set", "item", "setitem", "call", "meth", "meth", "len", "static", "klass", "chain", "builtin", "npset", "dir"])
    if kind == "cls_Box" and op in ("set", "call", "meth"):
        op = "klass"  # the class is shared with the twin in this process
    if op == "get":
        n = name()
        fn, local, what = (lambda: getattr(p, n)._get_value()), (lambda: getattr(a, n)), f".{n}"
    elif op == "set":
        n, x = name(), val()
        y = js(x)
        fn, local, what = (lambda: setattr(p, n, x)), (lambda: setattr(a, n, y)), f".{n} = {x!r:.60}"
    elif op in ("item", "setitem"):
        k = rng.choice([0, 1, -1, 50, "0", "1", "k", "ü", None, 1.5, (0, 1) if ser != "json" else 0, True])
        if op == "item":
            fn, local, what = (lambda: p[k]), (lambda: a[k]), f"[{k!r}]"
        else:
            x = val() if kind in ("Box", "dict", "list") else rng.choice([1, 0, "x", None, 2.5])
            y = js(x)
            fn, local, what = (lambda: operator.setitem(p, k, x)), (lambda: operator.setitem(a, k, y)), f"[{k!r}] = {x!r:.60}"
    elif op == "len":
        fn, local, what = (lambda: len(p)), (lambda: len(a)), "len"
    elif op in ("call", "meth", "static", "klass"):
        jargs, jk = [js(x) for x in args], {k: js(x) for k, x in kwds.items()}
        get = (lambda o: o) if op == "call" else (lambda o: getattr(o, op))
        fn, local, what = (lambda: get(p)(*args, **kwds)), (lambda: get(a)(*jargs, **jk)), f"{op}({len(args)} args, {sorted(kwds)})"
    elif op == "chain":
        path = rng.choice([["log", "copy"], ["items", "keys"], ["__class__", "__name__"], ["log", "nope", "more"], ["T", "shape"], ["meth", "__func__"]])
        if path[0].startswith("__"):
            path = ["log", "copy"]

        def walk(o):
            for x in path:
                o = getattr(o, x)
            return o
        fn, local, what = (lambda: walk(p)._get_value()), (lambda: walk(a)), ".".join(path)
    elif op == "builtin":
        m, margs = rng.choice([("append", [1]), ("pop", []), ("pop", [0]), ("insert", [0, 5]), ("extend", [[1, 2]]), ("clear", []), ("update", [{"z": 1}]), ("get", ["0", 7]), ("setdefault", ["n", 1]),
                              ("sort", []), ("reverse", []), ("index", [2]), ("upper", []), ("sum", []), ("fill", [3]), ("bit_length", []), ("join", [["a", "b"]]), ("split", ["b"]), ("rotate", [1])])
        fn, local, what = (lambda: getattr(p, m)(*margs)), (lambda: getattr(a, m)(*margs)), f".{m}{margs}"
    elif op == "npset":
        x = rng.choice([0, 1.5, [1, 2], np.int8(3), "x"])
        fn, local, what = (lambda: operator.setitem(p, 0, x)), (lambda: operator.setitem(a, 0, x)), f"[0] = {x!r}"
    else:
        b = rng.choice([1, 2.5, "x", [1], (1,), {"q": 1}, None, b"b"])
        nm = rng.choice(sorted(BIN))
        fn, local, what = (lambda: BIN[nm](p, b)), (lambda: BIN[nm](a, js(b))), f"{nm} {b!r}"
    trace.append(what)
    with ctx.guard(LOST + 20, "no-answer", f"{kind} {what}"):
        got, want = outcome(fn), outcome(local)
        g = text(lab, got, True)
        if want[0] == "value" and type(want[1]) in (list, tuple, dict) and ser == "json":
            want = ("value", js(want[1]))
        w_ = text(None, want, False)
        if ser == "json" and g != w_ and want[0] == "value":
            w_ = describe(js(want[1]))
        ctx.check(g == w_, "operation-differs", f"{ser} {kind} after {trace[:-1]}: {what}: proxy gives {values.diff(w_, g)}")
        sa = lab.state("a", _timeout=LOST)
        ctx.check(sa == ops.state(a), "state-differs", f"{ser} {kind} after {trace}: object is {values.diff(ops.state(a), sa)} (twin first)")
    ctx.sig(ser, kind, op, what[:20], len(args), sorted(kwds), got[0])
