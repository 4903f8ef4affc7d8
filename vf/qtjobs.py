"""Runs in a Qt process: requests of all kinds, with a record of when and where they are executed."""
import json, os, sys, threading, time
from teleprox import qt

QtCore = qt


def f(token):
    return "v:" + token


class Sender(qt.QObject):
    sig = qt.Signal(object)


class Gui:
    def __init__(self, journal=None):
        self.log = []
        self.stack = []
        self.bad = []
        self.ticks = 0
        self.max_gap = 0
        self.last = None
        self.slots = []
        self.released = set()
        self.errors = []
        self.journal = None if journal is None else os.open(journal, os.O_WRONLY | os.O_CREAT | os.O_APPEND)
        self.main = threading.main_thread().ident
        self.timer = qt.QTimer()
        self.timer.timeout.connect(self.tick)
        self.timer.start(3)
        self.sender = Sender()
        self.sender.sig.connect(self.slot)
        self.keep = []

    def tick(self):
        self.ticks += 1
        if self.stack and not self.stack[-1][1]:
            self.bad.append("a timer event was handled while request %s was executed" % self.stack[-1][0])

    def slot(self, x):
        self.slots.append((x, threading.get_ident()))

    def enter(self, token, waiting=False):
        if self.stack and not self.stack[-1][1]:
            self.bad.append("request %s was executed within %s" % (token, self.stack[-1][0]))
        if threading.get_ident() != self.main or qt.QThread.currentThread() != qt.QApplication.instance().thread():
            self.bad.append("request %s was executed in another thread" % token)
        if self.journal is not None:
            os.write(self.journal, ("%s %.6f\n" % (token, time.monotonic())).encode())
        self.log.append(token)
        self.stack.append([token, waiting])

    def leave(self):
        self.stack.pop()

    def echo(self, token, delay=0):
        self.enter(token)
        if delay:
            time.sleep(delay)
        self.leave()
        return f(token)

    def boom(self, token):
        self.enter(token)
        self.leave()
        raise ValueError("boom:" + token)

    def widget(self, token):
        self.enter(token)
        w = qt.QLabel(token)
        w.show()
        w.setText(f(token))
        t = w.text()
        ok = w.thread() == qt.QApplication.instance().thread()
        w.close()
        if not ok:
            self.bad.append("widget in another thread")
        self.leave()
        return t

    def process(self, token, n=2):
        self.enter(token, True)
        for _ in range(n):
            qt.QApplication.processEvents()
        self.leave()
        return f(token)

    def loop(self, token, ms):
        self.enter(token, True)
        l = qt.QEventLoop()
        qt.QTimer.singleShot(ms, l.quit)
        getattr(l, "exec", None)() if hasattr(l, "exec") else l.exec_()
        self.leave()
        return f(token)

    def until(self, token, seconds):
        """Goes on when another request has come."""
        self.enter(token, True)
        end = time.monotonic() + seconds
        while token not in self.released and time.monotonic() < end:
            # (events that were posted before this request began are not handled by processEvents() alone: Qt with glib)
            qt.QApplication.sendPostedEvents()
            qt.QApplication.processEvents(qt.QEventLoop.AllEvents, 10)
        ok = token in self.released
        self.leave()
        return f(token) if ok else "another request was not executed within %s s" % seconds

    def release(self, token, other):
        self.enter(token)
        self.released.add(other)
        self.leave()
        return f(token)

    def call_back(self, token, cb):
        self.enter(token, True)
        try:
            r = cb("cb:" + token)
        finally:
            self.leave()
        return [f(token), r]

    def later(self, token, ms, cb):
        """The GUI calls back by itself."""
        self.enter(token)

        def go():
            try:
                r = cb("later:" + token)
                if r != "cb:later:" + token:
                    self.errors.append(repr(r))
            except Exception as e:
                self.errors.append(f"{type(e).__name__} {str(e)[-200:]}")
        qt.QTimer.singleShot(ms, go)
        self.leave()
        return f(token)

    def emit(self, token):
        self.enter(token)
        self.sender.sig.emit(token)
        ok = (token, self.main) in self.slots
        self.leave()
        return f(token) if ok else "slot was not called"

    def get(self):
        return {"log": list(self.log), "bad": self.bad[:3], "ticks": self.ticks, "errors": self.errors[:3], "depth": len(self.stack)}

    def clear(self):
        self.log.clear()
        self.released.clear()
        self.slots.clear()


def close_in_thread(server):
    threading.Thread(target=server.close, daemon=True).start()


def main():
    """A Qt program with servers of its own, one after another.  argv: JSON plan"""
    plan = json.loads(sys.argv[1])
    import logging
    logging.getLogger("teleprox").setLevel(logging.CRITICAL)
    from teleprox import QtRPCServer
    app = qt.QApplication([])
    app.setQuitOnLastWindowClosed(False)
    gui = Gui(plan["journal"])
    state = {"n": 0, "server": None}

    def say(**d):
        sys.stdout.write(json.dumps(d) + "\n")
        sys.stdout.flush()

    def new():
        s = QtRPCServer(quit_on_close=plan["quit"] and state["n"] == plan["servers"] - 1)
        s["gui"] = gui
        s.run_forever()
        state.update(server=s, n=state["n"] + 1)
        say(address=s.address.decode())

    def watch():
        s = state["server"]
        if s is not None and not s.running():
            ticks = gui.ticks
            state["server"] = None
            say(closed=time.monotonic())
            # the application goes on
            qt.QTimer.singleShot(plan["after"], next_)

    def next_():
        say(ticks=gui.ticks, bad=gui.bad[:3])
        if state["n"] < plan["servers"]:
            new()
        else:
            app.quit()
    t = qt.QTimer()
    t.timeout.connect(watch)
    t.start(2)
    new()
    getattr(app, "exec", None)() if hasattr(app, "exec") else app.exec_()
    say(end=True)


if __name__ == "__main__":
    main()
