"""Everything that can go wrong in a request; lives on the server side."""
import sys, threading
import numpy as np


class Odd(Exception):
    pass


class NoStr(Exception):
    def __str__(self):
        raise ValueError("cannot print me")

    __repr__ = __str__


class NonStr(Exception):
    def __str__(self):
        return 42


class Fancy(Exception):
    """Cannot be rebuilt from its args."""

    def __init__(self, a, b, *, c):
        super().__init__(f"fancy {a}")
        self.a, self.b, self.c = a, b, c

    def __reduce__(self):
        raise TypeError("not picklable")


class Base(BaseException):
    pass


class BadPickle(np.ndarray):
    """By-value type (an array) that cannot be serialized."""

    def __new__(cls, tok):
        self = np.zeros(2).view(cls)
        self.tok = tok
        return self

    def __reduce__(self):
        raise Odd("nopickle:" + self.tok)

    def __reduce_ex__(self, n):
        raise Odd("nopickle:" + self.tok)


def _explode(where, tok):
    if where == "any" or (where == "server") == getattr(_here, "server", False):
        raise Odd("unpickle:" + tok)
    return {"survived": tok}


_here = threading.local()


class BadLoad(np.ndarray):
    """Serializes well, but raises when it is loaded."""

    def __new__(cls, tok):
        self = np.zeros(2).view(cls)
        self.tok = tok
        return self

    def __reduce_ex__(self, n):
        return _explode, ("any", self.tok)


class Evil:
    def __init__(self, tok):
        self.tok = tok

    @property
    def prop(self):
        raise Odd("prop:" + self.tok)

    def __getattr__(self, name):
        if name.startswith("get_"):
            raise Odd("getattr:" + name)
        raise AttributeError("evil " + name)

    def __len__(self):
        raise Odd("len:" + self.tok)

    def __repr__(self):
        raise Odd("repr:" + self.tok)

    def __add__(self, o):
        raise Odd("add:" + self.tok)

    def __getitem__(self, k):
        raise Odd("item:" + str(k))

    def __setitem__(self, k, v):
        raise Odd("item:" + str(k))


class Mute:
    """Cannot be printed, whatever happens to it."""

    def __init__(self, tok):
        self.tok = tok

    def __repr__(self):
        raise ZeroDivisionError("repr of mute")

    __str__ = __format__ = lambda self, *a: 1 // 0

    def __call__(self, *args, **kwds):
        raise Odd("mute:" + self.tok)

    def __eq__(self, other):
        raise Odd("mute:" + self.tok)

    __hash__ = None


class Faulty:
    def __init__(self):
        self.n = 0

    def fail(self, tok, *args, **kwds):
        self.n += 1
        raise Odd("fail:" + tok)

    def ok(self, tok):
        return "ok:" + tok

    def raises(self, kind, tok):
        self.n += 1
        if kind == "chained":
            try:
                raise KeyError("first:" + tok)
            except KeyError as e:
                raise Odd("second:" + tok) from e
        if kind == "group":
            raise ExceptionGroup("group:" + tok, [ValueError("a"), Odd("b")])
        if kind == "deep":
            return self._deep(tok)
        if kind == "nested":
            return self._nest1(tok, 30)
        if kind == "fancy":
            raise Fancy(tok, 1, c=2)
        if kind == "nostr":
            raise NoStr("x" + tok)
        if kind == "nonstr":
            raise NonStr("x" + tok)
        if kind == "surrogate":
            raise Odd("\udcff\ud800 " + tok)
        if kind == "nul":
            raise Odd("\x00\x1b\n\r%s {0} " + tok)
        if kind == "huge":
            raise Odd("h" * 300000 + tok)
        if kind == "noargs":
            raise Odd()
        if kind == "manyargs":
            raise Odd(tok, {"a": 1}, object, [None])
        if kind == "notes":
            e = Odd("noted:" + tok)
            e.add_note("note\udcfe")
            raise e
        if kind == "dynamic":
            raise type("Dyn_é", (Exception,), {})("d:" + tok)
        if kind == "syntax":
            exec("x = = 1  # " + tok)
        if kind == "assert":
            assert False, tok
        if kind == "stopiter":
            raise StopIteration(tok)
        if kind == "oserror":
            open("/nonexistent/\udcff" + tok)
        if kind == "unicode":
            b"\xff".decode("utf8")
        if kind == "numpy":
            np.zeros(3).reshape(2, 2)
        if kind == "base":
            raise Base(tok)
        raise {"SystemExit": SystemExit, "SystemExit0": lambda t: SystemExit(0), "KeyboardInterrupt": KeyboardInterrupt, "GeneratorExit": GeneratorExit, "TimeoutError": TimeoutError,
               "RuntimeError": RuntimeError, "ValueError": ValueError, "MemoryError": MemoryError, "ZeroDivisionError": ZeroDivisionError, "EOFError": EOFError,
               "ConnectionRefusedError": ConnectionRefusedError, "NotImplementedError": NotImplementedError}[kind](tok)

    def _deep(self, tok):
        return self._deep(tok)

    def _nest1(self, tok, n):
        return self._nest2(tok, n - 1)

    def _nest2(self, tok, n):
        return self._nest1(tok, n) if n else self.vf_innermost(tok)

    def vf_innermost(self, tok):
        raise Odd("nested:" + tok)

    def bad_result(self, kind, tok):
        self.n += 1
        if kind == "nopickle":
            return BadPickle(tok)
        if kind == "nopickle_in":
            return [1, {"k": BadPickle(tok)}]
        if kind == "badload":
            return BadLoad(tok)
        if kind == "badload_in":
            return {"a": [BadLoad(tok)]}
        if kind == "recursive":
            x = []
            x.append(x)
            return x
        if kind == "surrogate":
            return "\udcff" + tok
        if kind == "key":
            return {frozenset([1]): tok}
        raise AssertionError(kind)

    def take(self, tok, v=None):
        self.n += 1
        return "took:" + tok


EXPECT = {"chained": "Odd", "nested": "Odd", "group": "ExceptionGroup", "deep": "RecursionError", "fancy": "Fancy", "nostr": "NoStr", "nonstr": "NonStr", "surrogate": "Odd", "nul": "Odd", "huge": "Odd",
          "noargs": "Odd", "manyargs": "Odd", "notes": "Odd", "dynamic": "Dyn_é", "syntax": "SyntaxError", "assert": "AssertionError", "stopiter": "StopIteration", "oserror": "FileNotFoundError",
          "unicode": "UnicodeDecodeError", "numpy": "ValueError", "base": "Base", "SystemExit": "SystemExit", "SystemExit0": "SystemExit", "KeyboardInterrupt": "KeyboardInterrupt",
          "GeneratorExit": "GeneratorExit", "TimeoutError": "TimeoutError", "RuntimeError": "RuntimeError", "ValueError": "ValueError", "MemoryError": "MemoryError",
          "ZeroDivisionError": "ZeroDivisionError", "EOFError": "EOFError", "ConnectionRefusedError": "ConnectionRefusedError", "NotImplementedError": "NotImplementedError"}
NO_TOKEN = {"nostr", "nonstr", "noargs", "deep", "SystemExit0", "unicode", "numpy", "syntax"}

hook_calls = []


def install_hook():
    """Record what reaches sys.excepthook in this process."""
    def hook(typ, val, tb):
        try:
            text = str(val)
        except Exception:
            text = "?"
        hook_calls.append((typ.__name__, text[-400:].encode("utf-8", "backslashreplace").decode(), tb is not None))
    sys.excepthook = hook


def get_hook_calls():
    return [list(x) for x in hook_calls]
