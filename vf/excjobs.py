"""Exceptions of every kind that end threads or reach sys.excepthook; as a program: the main thread ends with one."""
import builtins, sys, threading, time, zlib

TEXTS = ["plain", "", "100%", "%s %d %(x)s", "{0} {x}", "new\nline\nUnhandled exception:\n", "tab\t\0\x01\x7f", "ü€\U0001f600", "back\\slash \"quoted\"", "\u2028\x85", "x" * 3000, "\x1b[31m", "Traceback (most recent call last):\n"]
KINDS = ["plain", "custom", "cause", "context", "from none", "key", "os", "syntax", "group", "deep", "recursion", "notes", "no str", "bad repr", "nested class", "base", "assert", "generator", "stop", "unicode", "no args", "reraised", "import", "many args", "cycle", "bare cause", "long chain", "interrupt", "builtin", "builtin", "other"]


class Custom(Exception):
    pass


class NoStr(Exception):
    def __str__(self):
        raise ValueError("no text")


# SystemExit ends a thread without any message, others have arguments of their own or are handled above
BUILTIN = sorted((c for c in vars(builtins).values() if isinstance(c, type) and issubclass(c, BaseException) and not issubclass(c, (SystemExit, KeyboardInterrupt, UnicodeError, KeyError, SyntaxError, BaseExceptionGroup))), key=lambda c: c.__name__)


def type_of(kind, tok):
    if kind == "interrupt":
        return KeyboardInterrupt
    if kind == "builtin":
        return BUILTIN[zlib.crc32(tok.encode()) % len(BUILTIN)]
    import asyncio, queue, socket, subprocess
    return [asyncio.CancelledError, queue.Empty, socket.gaierror, subprocess.SubprocessError, type("KeyboardInterrupt", (Custom,), {}), type("Ärger", (Custom,), {}), type("SystemExit", (Exception,), {})][zlib.crc32(tok.encode()) % 7]


class Outer:
    class Inner(Custom):
        pass


class Base(BaseException):
    pass


class Bad:
    def __repr__(self):
        raise ZeroDivisionError


def raiser(kind, tok, text):
    """Raise one; the names of its types and functions are found by expected()."""
    def frame_of_(n):
        msg = f"E<{tok}> {text}"
        if kind == "cause":
            try:
                raise KeyError(f"C<{tok}>")
            except KeyError as e:
                raise Custom(msg) from e
        if kind == "context":
            try:
                raise KeyError(f"C<{tok}>")
            except KeyError:
                raise Custom(msg)
        if kind == "long chain":
            def chain(k):
                if k == 0:
                    raise KeyError(f"C<{tok}>")
                try:
                    chain(k - 1)
                except Exception as e:
                    raise Custom(f"step {k}") from e
            try:
                chain(40)
            except Custom as e:
                raise Custom(msg) from e
        if kind == "from none":
            try:
                raise KeyError("hidden")
            except KeyError:
                raise Custom(msg) from None
        if kind == "key":
            {}[msg]
        if kind == "os":
            raise FileNotFoundError(2, msg, "/some/file")
        if kind == "syntax":
            raise SyntaxError(msg, ("file.py", 3, 5, "a b c", 3, 7))
        if kind == "group":
            raise ExceptionGroup(msg, [ValueError(f"C<{tok}>"), ExceptionGroup("inner", [TypeError("two")])])
        if kind == "deep" and n < 150:
            return frame_of_(n + 1)
        if kind == "recursion":
            raise RecursionError(msg)
        if kind == "notes":
            e = ValueError(msg)
            e.add_note(f"C<{tok}>")
            raise e
        if kind == "no str":
            raise NoStr(msg)
        if kind == "bad repr":
            raise Custom(msg, Bad()) if 0 else Custom(msg)
        if kind == "nested class":
            raise Outer.Inner(msg)
        if kind == "base":
            raise Base(msg)
        if kind == "assert":
            assert not n >= 0, msg
        if kind == "generator":
            list(f for f in [lambda: 1] if frame_gen_(msg))
        if kind == "stop":
            raise StopIteration(msg)
        if kind == "unicode":
            raise UnicodeDecodeError("utf-8", b"\xff", 0, 1, msg)
        if kind == "no args":
            raise type("T" + tok.replace("-", "_"), (Exception,), {})()
        if kind == "reraised":
            try:
                raise Custom(msg)
            except Custom as e:
                e2 = e
            raise e2
        if kind == "import":
            raise ImportError(msg, name="x")
        if kind == "many args":
            raise Custom(msg, 2, [3])
        if kind == "bare cause":
            raise Custom(msg) from KeyError(f"C<{tok}>")
        if kind == "cycle":
            a, b = Custom(msg), Custom(f"C<{tok}>")
            a.__cause__, b.__cause__ = b, a
            raise a
        if kind == "custom":
            raise Custom(msg)
        if kind in ("interrupt", "builtin", "other"):
            raise type_of(kind, tok)(msg)
        raise ValueError(msg)

    def frame_gen_(msg):
        raise Custom(msg)
    frame_of_(0)


TYPE = {"long chain": "Custom", "cause": "Custom", "context": "Custom", "from none": "Custom", "key": "KeyError", "os": "FileNotFoundError", "syntax": "SyntaxError", "group": "ExceptionGroup", "recursion": "RecursionError", "no str": "NoStr", "bad repr": "Custom",
        "nested class": "Outer.Inner", "base": "Base", "assert": "AssertionError", "generator": "Custom", "stop": "StopIteration", "unicode": "UnicodeDecodeError", "reraised": "Custom", "import": "ImportError", "many args": "Custom", "cycle": "Custom", "bare cause": "Custom", "custom": "Custom"}


def expected(kind, tok, text, traceback=True):
    """Pieces of text that a log record about it must have."""
    r = [type_of(kind, tok).__name__] if kind in ("interrupt", "builtin", "other") else [TYPE.get(kind, "ValueError")]
    if kind == "no args":
        r = ["T" + tok.replace("-", "_")]
    elif kind == "no str":
        pass
    elif kind in ("key", "many args", "os"):
        r.append(f"E<{tok}>")
    else:
        r.append(f"E<{tok}> {text}" if "\n" not in text and kind not in ("group", "syntax") and not any(x in text for x in "\u2028\x85") else f"E<{tok}>")
    if kind in ("cause", "context", "group", "notes", "cycle", "bare cause", "long chain"):
        r.append(f"C<{tok}>")
    if traceback:
        r += ["in frame_of_", "excjobs.py"]
    return r


def marks(kind, tok):
    """What identifies the records about it (no str and no args: names of threads)."""
    return f"E<{tok}>"


def in_thread(kind, tok, text, how="thread", wait=False):
    """Ends a thread with it; -> ident of the thread"""
    ident = []

    def end_of_thread_():
        ident.append(threading.get_ident())
        threading.current_thread().name = "thread-" + tok
        raiser(kind, tok, text)
    if how == "subclass":
        class T(threading.Thread):
            def run(self):
                end_of_thread_()
        t = T(daemon=True)
    elif how == "timer":
        t = threading.Timer(.001, end_of_thread_)
    elif how == "nested":
        t = threading.Thread(target=lambda: in_thread_target(end_of_thread_), daemon=True)
    else:
        t = threading.Thread(target=end_of_thread_, daemon=how == "daemon")
    t.start()
    while not ident:
        time.sleep(.0002)
    if wait:
        t.join()
    return ident[0]


def in_thread_target(fn):
    try:
        pass
    finally:
        fn()


def by_hook(kind, tok, text, tb=True):
    """What a GUI toolkit does."""
    try:
        raiser(kind, tok, text)
    except BaseException as e:
        sys.excepthook(type(e), e, e.__traceback__ if tb else None)


def fail(kind, tok, text):
    raiser(kind, tok, text)


def in_slot(kind, tok, text):
    """In a Qt process: a slot, called by a timer."""
    from teleprox import qt
    qt.QTimer.singleShot(0, lambda: raiser(kind, tok, text))


def install(n):
    from teleprox import log
    for _ in range(n):
        log.log_exceptions()


if __name__ == "__main__":
    import json
    plan = json.loads(sys.argv[1])
    import teleprox.log
    from teleprox import RPCServer
    sys.modules["vf.excjobs"] = sys.modules["__main__"]
    if plan["config"] == "basic":
        teleprox.log.basic_config(plan["level"], **plan["kw"])
    else:
        h = teleprox.log.RPCLogHandler()
        import logging
        logging.getLogger().addHandler(h)
    install(plan["more"])
    for kind, tok, text, how in plan["threads"]:
        in_thread(kind, tok, text, how, how == "subclass")  # (a daemon thread)
    if plan["end"]:
        kind, tok, text = plan["end"]
        raiser(kind, tok, text)
