"""Clients of published names: recorded operations, and a checker for linearizability.

As a program: names.py PLAN.json OUT  runs clients in an own process (history lines are written before and after each operation)."""
import json, os, random, sys, threading, time

INF = float("inf")
UNSET = "<unset>"


class Tok:
    """Something that is published by proxy."""

    def __init__(self, token):
        self.token = token


class Side:
    """The server's own side: works in its thread."""

    def __init__(self):
        self.n = 0

    def _server(self):
        from teleprox import RPCServer
        return RPCServer.get_server()

    def get(self, name):
        try:
            return token_of(self._server()[name])
        except KeyError:
            return UNSET

    def put(self, name, value):
        self._server()[name] = value

    def swap(self, name, value, pause=0):
        # (asking a proxy for its token lets the server process other requests meanwhile)
        try:
            old = self._server()[name]
        except KeyError:
            old = UNSET
        if pause:
            time.sleep(pause)
        self.put(name, value)
        return token_of(old)

    def cas(self, name, expect, value):
        old = self.get(name)
        if old == expect:
            self.put(name, value)
        return old

    def fail_after(self, name, value):
        """The error follows the effect."""
        self.put(name, value)
        raise ValueError("after")


def token_of(v):
    """The token a value carries, whatever its form."""
    from teleprox import ObjectProxy
    if isinstance(v, ObjectProxy):
        return v.token._get_value() if not isinstance(v.token, str) else v.token
    if isinstance(v, Tok):
        return v.token
    if v is None or type(v) in (bool, int, float) or type(v) in (str, bytes, list, dict) and not v:
        return f"<{v!r}>"
    if isinstance(v, str):
        return v
    if isinstance(v, bytes):
        return v.decode()
    if isinstance(v, (list, tuple)):
        t = token_of(v[0])
        return t if len(v) == 2 and token_of(v[1]) == t else f"mixed {v!r}"
    if isinstance(v, dict):
        return token_of(v["t"]) if sorted(v) == ["t", "u"] and v["t"] == v["u"] else f"mixed {v!r}"
    if type(v).__name__ == "ndarray":
        return f"{v[0]}" if len(set(v.tolist())) == 1 else f"mixed {v!r}"
    return f"strange {v!r}"


def form(rng, tok, forms, wrap=lambda x: x):
    import numpy as np
    f = rng.choice(forms)
    return {"str": lambda: tok, "list": lambda: [tok, tok], "dict": lambda: {"t": tok, "u": tok}, "array": lambda: np.array([tok] * rng.choice([1, 50, 3000])),
            "obj": lambda: wrap(Tok(tok)), "mixed": lambda: [wrap(Tok(tok)), tok]}[f]()


class Client(threading.Thread):
    """One client of the names; rec(line) gets dicts {i, op, name, arg} and {i, ret, ...}."""

    def __init__(self, k, plan, rec):
        super().__init__(daemon=True)
        self.k, self.plan, self.rec = k, plan, rec
        self.error = None

    def run(self):
        try:
            self.work()
        except BaseException:
            import traceback
            self.error = traceback.format_exc()
            self.rec({"done": self.k})

    def work(self):
        from teleprox import RPCClient, RPCServer
        p, rng = self.plan, random.Random(f"{self.plan['seed']}/{self.k}")
        own = None
        if p["forms"] and ("obj" in p["forms"] or "mixed" in p["forms"]) and p["own_server"]:
            own = RPCServer()
            own.run_in_thread() if p["own_server"] == "thread" else own.run_lazy()
        ser = rng.choice(p["serializers"])
        c = RPCClient(p["address"], serializer=ser) if ser != "msgpack" else RPCClient(p["address"])
        side = c["side"]
        keep, pend, n = [], [], [0]

        def begin(op, name, arg=None, exp=None):
            i = f"{self.k}-{n[0]}"
            n[0] += 1
            self.rec({"i": i, "c": self.k, "op": op, "name": name, "arg": arg, "exp": exp, "t0": time.monotonic()})
            return i

        def end(i, res=None, err=None):
            self.rec({"i": i, "t1": time.monotonic(), "res": res, "err": err})

        def fin(i, fn, read):
            try:
                r = fn()
            except TimeoutError:
                return  # unknown whether it has an effect
            except Exception as e:
                end(i, err=f"{type(e).__name__}: {'KeyError ' if 'KeyError' in str(e) else ''}{str(e)[-300:]}")
            else:
                try:
                    v = token_of(r) if read else None
                except Exception as e:
                    v = f"strange {type(e).__name__} {str(e)[-200:]}"
                end(i, res=v)
        for j in range(p["n"]):
            name, op = rng.choice(p["names"]), rng.choice(p["ops"])
            if op == "cas" and p["own_server"]:
                op = "swap"
            tok = f"{self.k}.{j}"
            if p["pause"]:
                time.sleep(rng.random() * p["pause"])
            if op == "get":
                i = begin("get", name)
                fin(i, lambda: c[name], True)
            elif op == "get_async":
                i = begin("get", name)
                f = c.send("get_item", opts={"name": name}, sync="async")
                pend.append((i, f, True))
            elif op in ("set", "set_async", "set_off"):
                if "plain" in p["forms"] and rng.random() < .6:
                    # (not unique, and false or empty)
                    v = rng.choice([None, None, 0, False, True, 0.0, "", b"", [], {}, 1])
                    tok = token_of(v)
                else:
                    v = form(rng, tok, [x for x in p["forms"] if x != "plain"], own.get_proxy if p["own_server"] == "thread" else lambda x: x)
                keep.append(v)
                i = begin("set", name, tok)
                if op == "set":
                    fin(i, lambda: c.__setitem__(name, v), False)
                elif op == "set_async":
                    pend.append((i, c.send("set_item", opts={"name": name, "obj": v}, sync="async"), False))
                else:
                    c.send("set_item", opts={"name": name, "obj": v}, sync="off")
                    # executed before the next request of this client
                    pend.append((i, None, False))
            elif op == "timeout":
                i = begin("set", name, tok)
                try:
                    c.send("set_item", opts={"name": name, "obj": tok}, sync="async").result(timeout=rng.choice([0, .0005]))
                except TimeoutError:
                    continue
                end(i)
            elif op == "bomb":
                # neither the server nor this side can handle these
                i = begin("failing set", name, tok)
                if rng.random() < .5 and not own:
                    bad = rng.choice([Tok(tok), [tok, Tok(tok)]])
                    fin(i, lambda: c.__setitem__(name, bad), False)
                else:
                    # the server fails while it evaluates the request
                    fin(i, lambda: c.send("set_item", opts={"name": [name], "obj": tok} if rng.random() < .5 else {"name": name}, sync="sync"), False)
            elif op == "side_get":
                i = begin("get", name)
                fin(i, lambda: side.get(name), True)
            elif op == "self_get":
                i = begin("get", name)
                fin(i, lambda: c["self"][name], True)
            elif op == "side_put":
                i = begin("set", name, tok)
                fin(i, lambda: side.put(name, tok), False)
            elif op == "fail_after":
                i = begin("set", name, tok)
                try:
                    side.fail_after(name, tok)
                except Exception as e:
                    end(i) if "after" in str(e) else end(i, err=str(e)[-300:])
            elif op == "swap":
                i = begin("swap", name, tok)
                fin(i, lambda: side.swap(name, tok, rng.choice([0, 0, .002])), True)
            elif op == "cas":
                i = begin("get", name)
                old = side.get(name)
                end(i, old)
                i = begin("cas", name, tok, old)
                fin(i, lambda: side.cas(name, old, tok), True)
            if len(pend) > p["depth"]:
                self.settle(pend, c, fin, end)
        self.settle(pend, c, fin, end)
        self.rec({"done": self.k})
        while not p["hold"].is_set() if hasattr(p.get("hold"), "is_set") else False:
            # objects published by proxy live as long as their server
            if p["own_server"] == "lazy" and own is not None:
                c.ping()
            time.sleep(.005)
        if own is not None:
            own.close()
        c.close()

    def settle(self, pend, c, fin, end):
        off = [i for i, f, _ in pend if f is None]
        for i, f, read in pend:
            if f is not None:
                fin(i, lambda: f.result(timeout=40), read)
        if off:
            c.ping()
            for i in off:
                end(i)
        pend.clear()


# ---------------------------------------------------------------- checker
def collect(lines):
    """Lines of all clients -> operations [op, name, arg, exp, res, t0, t1] (t1 = INF: outcome unknown), and errors."""
    ops, errs = {}, []
    for d in lines:
        if "done" in d:
            continue
        if "op" in d:
            ops[d["i"]] = dict(d, t1=INF, res=None, err=None)
        else:
            ops[d["i"]].update(d)
    return list(ops.values())


def linearizable(ops, limit=60000):
    """WGL search for one name; ops: (kind, arg, exp, res, t0, t1).  -> True, False, or None if the limit is hit."""
    ops = sorted(ops, key=lambda o: o[4])
    n = len(ops)
    must = 0
    for i, o in enumerate(ops):
        if o[5] != INF:
            must |= 1 << i
    seen = set()
    stack = [(0, UNSET)]
    steps = 0
    while stack:
        done, val = stack.pop()
        if done & must == must:
            return True
        if (done, val) in seen:
            continue
        seen.add((done, val))
        steps += 1
        if steps > limit:
            return None
        # candidates: not done, and invoked before every completion of those not done
        first = min(ops[i][5] for i in range(n) if not done >> i & 1)
        cand = []
        for i in range(n):
            if done >> i & 1:
                continue
            kind, arg, exp, res, t0, t1 = ops[i]
            if t0 > first:
                break
            known = t1 != INF
            if kind == "get":
                if known and res == val:
                    # a read that fits can be taken at once
                    cand = [(done | 1 << i, val)]
                    break
                continue
            if kind == "set":
                cand.append((done | 1 << i, arg))
            elif kind == "swap":
                if not known or res == val:
                    cand.append((done | 1 << i, arg))
            elif kind == "cas":
                if not known or res == val:
                    cand.append((done | 1 << i, arg if val == exp else val))
        stack += cand
    return False


def program():
    plan, out = json.load(open(sys.argv[1])), sys.argv[2]
    fd = os.open(out, os.O_WRONLY | os.O_CREAT | os.O_APPEND)
    plan["hold"] = hold = threading.Event()
    cl = [Client(k, plan, lambda d: os.write(fd, (json.dumps(d) + "\n").encode())) for k in plan["clients"]]
    for c in cl:
        c.start()
    sys.stdin.readline()
    hold.set()
    for c in cl:
        c.join()
        if c.error:
            os.write(fd, (json.dumps({"error": c.error[-1500:]}) + "\n").encode())


if __name__ == "__main__":
    sys.path[0] = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    sys.modules["vf.names"] = sys.modules["__main__"]
    import logging
    logging.getLogger("teleprox").setLevel(logging.CRITICAL)
    program()
