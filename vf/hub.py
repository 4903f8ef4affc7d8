"""Objects with identity, living in several parties (threads/processes), and hubs that pass them around."""
import os, threading
from teleprox import ObjectProxy, RPCServer

_counter = [0]


class Leaf:
    def __init__(self, tag):
        self.tag = tag

    def hello(self):
        return "leaf:" + self.tag


class Thing:
    """Not serializable by value unless a party declares it so."""

    def __init__(self, tag, pid=None):
        self.tag = tag
        self.child = Leaf(tag + ".child")
        self.child.sub = Leaf(tag + ".child.sub")

    def hello(self):
        return "thing:" + self.tag

    def __eq__(self, other):  # identity must not be confused with equality
        return isinstance(other, Thing)

    def __hash__(self):
        return 7


class Valued:
    """Serializable by value where a party adds it to its types."""

    def __init__(self, tag):
        self.tag = tag


def func(x=0):
    return x


EXOTIC = {
    "thing": lambda: Thing("x"), "valued": lambda: Valued("v"), "func": lambda: func, "lambda": lambda: (lambda: 1), "class": lambda: Thing, "set": lambda: {1, 2}, "frozenset": lambda: frozenset([1]),
    "complex": lambda: 1 + 2j, "bytearray": lambda: bytearray(b"ab"), "range": lambda: range(3), "gen": lambda: (i for i in range(2)),
    "exc": lambda: ValueError("x"), "module": lambda: os, "method": lambda: Thing("m").hello, "builtin": lambda: len, "lock": lambda: threading.Lock(),
    "slice": lambda: slice(1, 2), "ellipsis": lambda: Ellipsis, "notimpl_type": lambda: type(NotImplemented), "iter": lambda: iter([1]), "dictview": lambda: {1: 2}.keys(),
    "memview": lambda: memoryview(b"abc"),
}


def build(spec, made):
    """spec: ('v', value) | ('o', kind) | ('l'|'t', [specs]) | ('d', {k: spec}); objects created are appended to made."""
    k, x = spec
    if k == "v":
        return x
    if k == "o":
        o = EXOTIC[x]()
        made.append(o)
        return o
    if k == "l":
        return [build(s, made) for s in x]
    if k == "t":
        return tuple(build(s, made) for s in x)
    return {n: build(s, made) for n, s in x.items()}


def describe(v):
    """Structure of a received value: proxies are opaque, values are their canonical text."""
    from vf.values import canon
    if isinstance(v, ObjectProxy):
        return ["proxy", v._rpc_addr.decode() if isinstance(v._rpc_addr, bytes) else v._rpc_addr]
    if type(v) in (list, tuple):
        return [type(v).__name__, [describe(x) for x in v]]
    if type(v) is dict:
        return ["dict", [[k, describe(x)] for k, x in v.items()]]
    if type(v) is Valued:
        return ["valued", v.tag]
    return ["value", canon(v)]


class Hub:
    def __init__(self):
        self.store = {}
        self.origin = {}
        self.made = {}
        self.calls = 0

    def new(self, tag):
        o = Thing(tag)
        self.origin[tag] = o
        self.store[tag] = o
        return None

    def put(self, name, obj):
        self.calls += 1
        self.store[name] = obj

    def get(self, name):
        return self.store[name]

    def get_in(self, name, wrap):
        o = self.store[name]
        return {"list": [o, 1], "tuple": (None, o), "dict": {"k": o, "n": 1}, "deep": [{"a": (o,)}]}[wrap]

    def put_in(self, name, container, wrap):
        self.calls += 1
        self.store[name] = unwrap(container, wrap)

    def push(self, name, hub, name2, wrap=None):
        """Send what we have under `name` to another party's hub (given by proxy)."""
        if isinstance(hub, Hub) or wrap is None:
            hub.put(name2, self.store[name])
        else:
            hub.put_in(name2, self.get_in(name, wrap), wrap)

    def pull(self, hub, name, name2, wrap=None):
        self.store[name2] = hub.get(name) if wrap is None else unwrap(hub.get_in(name, wrap), wrap)

    def pub(self, name):
        """Fetch a published name of our own server / leave it there."""
        RPCServer.get_server()[name] = self.store[name]

    def is_own(self, name, tag, path=()):
        """Is what we hold under `name` the very object `tag` (or its attribute) created here?"""
        o = self.origin[tag]
        for p in path:
            o = getattr(o, p)
        return self.store[name] is o

    def describe(self, v):
        self.calls += 1
        return describe(v)

    def describe_kw(self, *, v):
        self.calls += 1
        return describe(v)

    def describe_name(self, name):
        return describe(self.store[name])

    def ret(self, spec, key):
        self.calls += 1
        made = self.made[key] = []
        return build(spec, made)

    def same(self, key, i, obj):
        return self.made[key][i] is obj

    def bounce(self, v):
        self.calls += 1
        return v

    def count(self):
        return self.calls

    def addr(self):
        return RPCServer.get_server().address.decode()


def unwrap(c, wrap):
    return {"list": lambda: c[0], "tuple": lambda: c[1], "dict": lambda: c["k"], "deep": lambda: c[0]["a"][0]}[wrap]()


def hub():
    return Hub()


PLAIN_LIST, PLAIN_DICT, PLAIN_INT = [1, "x"], {"k": 2}, 7


def same(x):
    return x
