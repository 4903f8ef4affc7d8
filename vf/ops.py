"""Objects for comparing operations on proxies with local operations (twins)."""
import datetime, decimal, fractions, collections
import numpy as np
from vf.values import canon


class Num:
    """Supports operators with numbers only; leaves the rest to the other operand; logs what happened to it."""

    def __init__(self, v):
        self.v = v
        self.log = []

    def _op(name, fn):
        def m(self, o):
            self.log.append(name)
            if isinstance(o, Num):
                o = o.v
            if not isinstance(o, (int, float)):
                return NotImplemented
            return fn(self.v, o)
        m.__name__ = name
        return m
    __add__ = _op("add", lambda a, b: a + b)
    __radd__ = _op("radd", lambda a, b: b + a)
    __sub__ = _op("sub", lambda a, b: a - b)
    __rsub__ = _op("rsub", lambda a, b: b - a)
    __mul__ = _op("mul", lambda a, b: a * b)
    __lt__ = _op("lt", lambda a, b: a < b)
    __gt__ = _op("gt", lambda a, b: a > b)
    __eq__ = _op("eq", lambda a, b: a == b)
    __mod__ = _op("mod", lambda a, b: a % b)
    __rpow__ = _op("rpow", lambda a, b: ("rpow", b, a))
    __rshift__ = _op("rshift", lambda a, b: ("rshift", a, b))
    __rlshift__ = _op("rlshift", lambda a, b: ("rlshift", b, a))
    __hash__ = None

    def state(self):
        return [self.v, self.log]


class Right:
    """Only reflected operators."""

    def __init__(self, v):
        self.v = v
        self.log = []

    def state(self):
        return [self.v, self.log]


for _n in "radd rsub rmul rtruediv rfloordiv rmod rpow rlshift rrshift rand ror rxor".split():
    def _m(self, o, _n=_n):
        self.log.append(_n)
        return [_n, str(type(o)), self.v]
    setattr(Right, f"__{_n}__", _m)


class Full:
    """All operators, each giving a distinct result; comparisons are inconsistent on purpose."""

    def __init__(self, v):
        self.v = v
        self.log = []

    def state(self):
        return [self.v, self.log]


for _n in "add radd sub rsub mul rmul truediv rtruediv floordiv rfloordiv mod rmod pow rpow lshift rlshift rshift rrshift and rand or ror xor rxor lt le gt ge eq ne".split():
    def _m(self, *o, _n=_n):
        self.log.append(_n)
        return [_n, self.v, len(o), [type(x).__name__ for x in o]]
    setattr(Full, f"__{_n}__", _m)
Full.__hash__ = lambda self: 1


class Err:
    """Every operation fails with its own error."""

    def __init__(self, v):
        self.v = v

    def state(self):
        return canon(self.v)

    def __add__(self, o):
        raise ArithmeticError("add")

    def __radd__(self, o):
        raise BufferError("radd")

    def __lt__(self, o):
        raise LookupError("lt")

    def __eq__(self, o):
        raise OSError("eq")

    def __len__(self):
        return -1

    def __getitem__(self, k):
        raise StopIteration("item")

    def __call__(self, *a, **k):
        raise FloatingPointError("call")

    @property
    def p(self):
        raise UnicodeError("prop")

    @p.setter
    def p(self, v):
        raise ReferenceError("setter")


class Plain:
    """No operators at all."""

    def __init__(self, v):
        self.v = v

    def state(self):
        return canon(self.v)


class Box:
    """Attributes, items, calls with all kinds of arguments; remembers everything."""
    limit = 3

    def __init__(self, v):
        self.v = v
        self.items = {}
        self.log = []

    def state(self):
        return [canon(self.v), self.log, {str(k): canon(v) for k, v in self.items.items()}, sorted(k for k in vars(self))]

    def __getitem__(self, k):
        self.log.append("get")
        return self.items[k]

    def __setitem__(self, k, v):
        self.log.append("set")
        self.items[k] = v

    def __len__(self):
        return len(self.items)

    def __call__(self, *args, **kwds):
        self.log.append("call")
        return [list(map(canon, args)), {k: canon(v) for k, v in kwds.items()}]

    def meth(self, a, b=2, *args, c=3, **kwds):
        self.log.append("meth")
        return [canon(a), canon(b), list(map(canon, args)), canon(c), {k: canon(v) for k, v in kwds.items()}]

    @staticmethod
    def static(x=1):
        return canon(x)

    @classmethod
    def klass(cls, x=1):
        return [cls.__name__, canon(x)]

    @property
    def prop(self):
        return ("prop", self.v)

    @prop.setter
    def prop(self, v):
        self.log.append("prop=")
        self.v = v

    def __getattr__(self, name):
        if name.startswith("dyn_"):
            return name[4:]
        raise AttributeError(name)


class Narrow:
    __slots__ = ("a",)

    def __init__(self, v):
        self.a = v

    def state(self):
        return canon(self.a)


FACTORIES = {
    "int": lambda v: int(v), "float": lambda v: float(v) / 2, "bool": lambda v: bool(v % 2), "str": lambda v: "ab%d"[:v % 5], "bytes": lambda v: b"xyz"[:v % 4],
    "list": lambda v: list(range(v % 5)), "tuple": lambda v: tuple(range(v % 4)), "dict": lambda v: {str(i): i for i in range(v % 3)}, "set": lambda v: set(range(v % 4)),
    "frozenset": lambda v: frozenset(range(v % 3)), "none": lambda v: None, "complex": lambda v: complex(v, 1), "fraction": lambda v: fractions.Fraction(v, 7),
    "decimal": lambda v: decimal.Decimal(v) / 4, "delta": lambda v: datetime.timedelta(days=v), "date": lambda v: datetime.date(2020, 1, 1 + v % 27), "array": lambda v: np.arange(4) + v,
    "farray": lambda v: np.array([[1.5, v], [0, -v]]), "npint": lambda v: np.int16(v), "npfloat": lambda v: np.float64(v), "range": lambda v: range(v % 6), "bytearray": lambda v: bytearray(b"q" * (v % 4)),
    "deque": lambda v: collections.deque(range(v % 4)), "counter": lambda v: collections.Counter("ab" * (v % 3)), "userlist": lambda v: collections.UserList(range(v % 3)),
    "Num": Num, "Right": Right, "Full": Full, "Err": Err, "Plain": Plain, "Box": Box, "Narrow": Narrow, "function": lambda v: divmod, "cls_int": lambda v: int, "cls_Box": lambda v: Box,
}


class Lab:
    """Server-side twin keeper."""

    def __init__(self):
        self.objs = {}

    def make(self, key, kind, v):
        o = self.objs[key] = FACTORIES[kind](v)
        return o

    def state(self, key):
        return state(self.objs[key])

    def describe(self, v):
        return describe(v)

    def clear(self):
        self.objs.clear()


def state(o):
    if hasattr(type(o), "state"):
        return repr(o.state())
    return describe(o)


def describe(o):
    if isinstance(o, type):
        return "class " + o.__name__
    if hasattr(type(o), "state"):
        return type(o).__name__ + repr(o.state())
    t = type(o)
    if t in (set, frozenset):
        return t.__name__ + repr(sorted(map(repr, o)))
    c = canon(o)
    return c if not c.startswith("?") else f"{t.__name__}:{repr(o) if '0x' not in repr(o) else getattr(o, '__name__', '')}"
