"""C23: process and port utilities act on exactly what they were asked for."""
import os, random, re, signal, socket, subprocess, sys, threading, time
import psutil
import teleprox
from teleprox import util
from vf.rpc import ThreadServer, uniq

TECHNIQUE = "runtime monitoring: signals pass a stand-in that records every target and forwards only those for processes of the check; results judged against process tables taken before and after, and against what really listens"
NOTE = "Samples process tables (command lines of any length and content, dying and starting meanwhile), search texts, pids and ports."
LEVEL = "exploration"
RULE = "One evaluation = one process, pid or port judged. Distinct = combinations of kinds of processes, texts and moments."
ASSUMPTIONS = ["Command lines are searched as ps shows them: arguments joined by spaces, printable ASCII.", "Zombies and kernel threads may be reported or not.", "Ports are IPv4; a listener whose queue is full may be reported as 'timeout'."]
SCENARIOS = {
    "find": {"quick": (2, 12), "thorough": (3, 120), "min": 300},
    "kill": {"quick": (2, 13), "thorough": (4, 150), "min": 200},
    "cleaner": {"quick": (2, 12), "thorough": (3, 120), "min": 200},
    "ports": {"quick": (1, 10), "thorough": (2, 100), "min": 60},
}
TMP = os.environ.get("VF_DIR", "/tmp")


class Signals:
    """Stand-in for the calls that send signals."""

    def __init__(self):
        self.log, self.mine, self.lock, self.before = [], set(), threading.RLock(), None
        self.kill, self.killpg, self.pkill = os.kill, os.killpg, psutil.Process.send_signal
        os.kill, os.killpg = self._kill, self._killpg
        signal.pidfd_send_signal = self._none
        psutil.Process.send_signal = lambda p, s: self._kill(p.pid, s)
        psutil.Process.kill = lambda p: self._kill(p.pid, signal.SIGKILL)
        psutil.Process.terminate = lambda p: self._kill(p.pid, signal.SIGTERM)

    def _none(self, *a):
        raise OSError("not available")

    def _kill(self, pid, sig):
        with self.lock:
            if sig:
                self.log.append((pid, int(sig)))
            if self.before and sig:
                self.before(pid)
            if pid in self.mine:
                return self.kill(pid, sig)
        if not os.path.exists(f"/proc/{pid}"):
            raise ProcessLookupError(3, "No such process")
        # of someone else: nothing happens to it

    def _killpg(self, pg, sig):
        self.log.append((-pg, int(sig)))

    def take(self):
        with self.lock:
            log, self.log = self.log, []
        return log


class Sleeper:
    """A process of the check with any command line."""

    def __init__(self, sig, title, ignore=False, secs=None):
        self.sig = sig
        # (the title takes the place of the name of the program)
        self.p = subprocess.Popen([title, str(secs or 600)], executable="/bin/sleep", stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, preexec_fn=(lambda: [signal.signal(s, signal.SIG_IGN) for s in (signal.SIGTERM, signal.SIGINT, signal.SIGHUP)]) if ignore else None)
        self.pid = self.p.pid
        with sig.lock:
            sig.mine.add(self.pid)
        self.ended = threading.Event()
        threading.Thread(target=self._reap, daemon=True).start()

    def _reap(self):
        os.waitid(os.P_PID, self.pid, os.WEXITED | os.WNOWAIT)
        with self.sig.lock:
            # from now on its pid may belong to someone else
            self.sig.mine.discard(self.pid)
            self.p.wait()
        self.ended.set()

    def end(self):
        with self.sig.lock:
            if self.pid in self.sig.mine:
                self.sig.kill(self.pid, signal.SIGKILL)
        return self.ended.wait(20)


def table():
    """pid -> (create time, command line, exact)"""
    t = {}
    for p in os.listdir("/proc"):
        if p.isdigit():
            try:
                with open(f"/proc/{p}/cmdline", "rb") as f:
                    c = f.read()
                with open(f"/proc/{p}/stat", "rb") as f:
                    st = f.read().rsplit(b")", 1)[1].split()
            except OSError:
                continue
            if c.endswith(b"\0"):
                c = c[:-1]
            t[int(p)] = (st[19], c.replace(b"\0", b" ").decode("utf-8", "replace"), bool(c) and st[0] not in b"ZX")
    return t


def plain(text):
    return all(32 <= ord(x) < 127 for x in text)


TITLES = ["{t}", "/usr/bin/{t} --flag", "a very long command " + "line " * 300 + "{t}", "x" * 5000 + "{t}" + "y" * 3000, "python -m {t} (x) [y] *.txt $HOME \\n 'q' \"d\"", "  {t}  ", "12345 {t}", "{t}{t}", "-{t}", "name é {t}", "<defunct> {t}", "ps -e {t}", "%s {t} %", "{t}=1;rm"]


def wait_shown(sl):
    """exec has happened: the command line is the title."""
    end = time.monotonic() + 20
    while time.monotonic() < end:
        try:
            if "python" not in os.readlink(f"/proc/{sl.pid}/exe"):
                return
        except OSError:
            return
        time.sleep(.001)


def s_find(ctx):
    """find_procs() against process tables before and after."""
    rng, sig = ctx.rng, Signals()
    while ctx.more():
        t = f"vf{rng.randrange(1 << 40):x}"
        sl = [Sleeper(sig, rng.choice(TITLES).replace("{t}", t + rng.choice(["", "", "z", "-1"])), secs=rng.choice([600, 600, 600, .02, .1])) for _ in range(rng.choice([1, 3, 8]))]
        for s in sl:
            wait_shown(s)
        if rng.random() < .3:
            os.environ["COLUMNS"] = rng.choice(["20", "80", "200"])
        else:
            os.environ.pop("COLUMNS", None)
        for _ in range(5):
            a = rng.choice(sl)
            text = rng.choice([t, t, t + "z", t[:-1], t.upper(), t + "-1", str(a.pid), "[y] *", "(x)", "$HOME", ".*" + t, "\\n", "python", "sleep", "600", "PID", "COMMAND", "COMMAND ", " ", "", "defunct", "--flag", "line line", t + " 600", " -m " + t, "PID COMMAND", "%s", "12345", t[::-1]])
            before = table()
            got = util.find_procs(text)
            after = table()
            pids = [p for p, _ in got]
            what = f"find_procs({text!r}) among {len(before)} processes, COLUMNS={os.environ.get('COLUMNS')}"
            must = {p for p, (c, cmd, ok) in before.items() if ok and text in cmd and plain(cmd) and after.get(p) == before[p]}
            cmds = {}
            for tb in (before, after):
                for p, (c, cmd, ok) in tb.items():
                    cmds.setdefault(p, []).append((cmd, ok))
            ctx.ev(len(before))
            ctx.count("found", len(pids))
            ctx.sig("find", text if len(text) < 12 and not text.startswith("vf") else "token", len(must), len(sl), os.environ.get("COLUMNS"))
            miss = must - set(pids)
            ctx.check(not miss, "not-found", lambda: f"{what}: not found {[(p, before[p][1][-150:]) for p in sorted(miss)[:4]]}")
            # found, but known before and after with a command line that does not contain the text
            wrong = [p for p in pids if p in cmds and len(cmds[p]) == 2 and all(ok and plain(c) and text not in c for c, ok in cmds[p]) and before[p] == after[p]]
            ctx.check(not wrong, "found-wrong", lambda: f"{what}: found {[(p, before[p][1][:150]) for p in wrong[:4]]}")
            ctx.check(len(set(pids)) == len(pids), "found-wrong", f"{what}: found processes twice: {pids[:20]}")
            bad = [x for x in got if not (isinstance(x[0], int) and isinstance(x[1], str) and text in x[1])]
            ctx.check(not bad, "result", f"{what}: result {bad[:3]}")
            ctx.check(not sig.take(), "killed", f"{what}: sent signals")
        for s in sl:
            s.end()


def s_kill(ctx):
    """kill_procs(): processes end, appear and resist meanwhile."""
    rng, sig = ctx.rng, Signals()
    while ctx.more():
        t = f"vf{rng.randrange(1 << 40):x}"
        wait = rng.choice([0, 0, .05, .3, .6])
        kinds = [rng.choice(["stays", "stays", "ignores", "ends", "similar", "race", "other"]) for _ in range(rng.choice([0, 1, 3, 7]))]
        if wait < .3:
            kinds = ["stays" if k == "ends" else k for k in kinds]
        sl = []
        for k in kinds:
            title = rng.choice(TITLES).replace("{t}", {"similar": t[:-1], "other": "vfother"}.get(k, t))
            sl.append((k, Sleeper(sig, title, ignore=k == "ignores")))
        for k, s in sl:
            wait_shown(s)
        late = []

        def meanwhile():
            time.sleep(wait / 4)
            for k, s in sl:
                if k == "ends":
                    s.end()
            if rng2.random() < .3:
                late.append(Sleeper(sig, t + " late"))
        rng2 = random.Random(rng.random())
        th = threading.Thread(target=meanwhile, daemon=True)
        if wait >= .3:
            th.start()
        racers = [s for k, s in sl if k == "race"]

        def before(pid):
            # others end by themselves between the search and their signal
            for s in racers:
                if s.pid != pid and s.pid in sig.mine:
                    sig.kill(s.pid, signal.SIGKILL)
            while any(s.pid != pid and not dead(s.pid) for s in racers):
                time.sleep(.001)
        # (the reaper needs the lock that the stand-in holds: the racers are zombies then, so reap them here)

        def dead(pid):
            for _, s in sl:
                if s.pid == pid:
                    try:
                        if os.waitid(os.P_PID, pid, os.WEXITED | os.WNOHANG | os.WNOWAIT):
                            os.waitpid(pid, 0)
                            s.p.returncode = -9
                            sig.mine.discard(pid)
                            s.ended.set()
                            return True
                    except ChildProcessError:
                        return True
            return False
        sig.before = before if racers else None
        what = f"kill_procs(wait={wait}) with processes {kinds}"
        ctx.sig("kill", sorted(kinds), wait)
        with ctx.guard(60, "hangs", what):
            t0 = time.monotonic()
            try:
                got = util.kill_procs(t, wait=wait)
            except Exception as e:
                sig.before = None
                ctx.violate("unexpected-error", f"{what}: raised {type(e).__name__}: {e}")
                return
            el = time.monotonic() - t0
            if wait >= .3:
                th.join()
        sig.before = None
        log = sig.take()
        pids = {s.pid: k for k, s in sl}
        ctx.ev(len(sl))
        foreign = [x for x in log if x[0] not in pids and x[0] not in {s.pid for s in late}]
        ctx.check(not foreign, "killed-wrong", f"{what}: signals {foreign} for processes that were not asked for")
        for (k, s), k2 in zip(sl, kinds):
            sent = [x for x in log if x[0] == s.pid]
            ctx.count("signals", len(sent))
            if k2 in ("similar", "other"):
                ctx.check(not sent and not s.ended.is_set(), "killed-wrong", f"{what}: {sent} sent to a process whose command line does not contain the text")
            elif k2 == "ends":
                ctx.check(not sent, "killed-wrong", f"{what}: {sent} sent to a process that had ended before")
            elif k2 in ("stays", "ignores"):
                ctx.check(s.ended.wait(20), "not-killed", f"{what}: process ({k2}) lives on, signals {sent}")
                ctx.check(len(sent) == 1 or sent and sent[-1][1] == 9, "signals", f"{what}: signals {sent}")
                ctx.check(s.pid in [p for p, _ in got], "result", f"{what}: killed {s.pid} is not in the result {got}")
            else:
                ctx.check(s.ended.wait(20), "not-killed", f"{what}: process ({k2}) lives on, signals {sent}")
        extra = [p for p, _ in got if pids.get(p, "") in ("similar", "other", "ends") or p not in pids and p not in {s.pid for s in late}]
        ctx.check(not extra, "result", f"{what}: result has {[(p, pids.get(p)) for p in extra]}")
        if any(k in ("stays", "ignores") for k in kinds):
            ctx.check(el >= wait * .95, "wait", f"{what}: returned after {el:.3f} s")
        for _, s in sl:
            s.end()
        for s in late:
            s.end()


class Named:
    def __init__(self, name, pid):
        self.name, self.pid = name, pid


class Mine(Exception):
    pass


def s_cleaner(ctx):
    """ProcessCleaner and assert_pids_dead()."""
    rng, sig = ctx.rng, Signals()
    while ctx.more():
        kinds = [rng.choice(["live", "live", "ignores", "dead", "dead", "unlisted", "child", "stopped child"] if rng.random() < .25 else ["live", "ignores", "dead", "dead", "unlisted"]) for _ in range(rng.choice([0, 1, 2, 5, 9]))]
        if rng.random() < .3:
            kinds = [k if k in ("dead", "unlisted") else "dead" for k in kinds]
        ps = []
        for k in kinds:
            name = "vfn" + format(rng.randrange(1 << 40), "x")
            if "child" in k:
                p = teleprox.start_process(name)
                if k == "child":
                    sig.mine.add(p.pid)
                else:
                    p.stop()
                ps.append((k, name, p))
            else:
                s = Sleeper(sig, name, ignore=k == "ignores")
                if k == "dead":
                    s.end()
                ps.append((k, name, s))
        live = [(n, s) for k, n, s in ps if k in ("live", "ignores", "child")]
        listed = [(k, n, s) for k, n, s in ps if k != "unlisted"]
        rng.shuffle(listed)
        how = rng.choice(["with", "with", "with", "error inside", "assert", "assert one"])
        what = f"{how} with processes {[k for k, _, _ in listed]} and {len(ps) - len(listed)} others"
        ctx.sig("cleaner", how, sorted(k for k, _, _ in listed), len(ps) - len(listed))
        sig.take()
        err = None
        with ctx.guard(60, "hangs", what):
            try:
                if how in ("with", "error inside"):
                    with util.ProcessCleaner() as pc:
                        for i, (k, n, s) in enumerate(listed):
                            if "child" in k:
                                pc.add(s)
                            elif rng.random() < .5:
                                pc.add(n, s.pid)
                            else:
                                pc.add(Named(n, s.pid))
                        if how == "error inside":
                            raise Mine("inside")
                elif how == "assert":
                    util.assert_pids_dead([s.pid for _, _, s in listed])
                else:
                    listed = listed[:1]
                    live = [x for x in live if listed and x[1] is listed[0][2]]
                    for k, n, s in listed:
                        util.assert_pid_dead(s.pid)
            except (AssertionError, Mine) as e:
                err = e
            except Exception as e:
                ctx.violate("unexpected-error", f"{what}: raised {type(e).__name__}: {e}")
                return
        log = sig.take()
        ctx.ev(len(ps))
        if how == "error inside":
            ctx.check(isinstance(err, Mine), "error-lost", f"{what}: {err!r} instead of the error inside")
        elif live:
            ctx.check(isinstance(err, AssertionError), "not-reported", f"{what}: no error although {len(live)} processes were alive")
            if isinstance(err, AssertionError):
                if how == "with":
                    said = {n for _, n, _ in ps if n in str(err)}
                    want = {n for n, _ in live}
                else:
                    said, want = {int(x) for x in re.findall(r"\d+", str(err))}, {s.pid for _, s in live}
                ctx.check(said == want, "reported-wrong", f"{what}: reported {said}, alive were {want}: {err}")
        else:
            ctx.check(err is None, "reported-wrong", f"{what}: {err!r} although all had ended")
        ok = {s.pid for _, _, s in listed}
        wrong = [x for x in log if x[0] not in ok]
        ctx.check(not wrong, "killed-wrong", f"{what}: signals {wrong} for other processes")
        for n, s in live:
            if hasattr(s, "ended"):
                ctx.check(s.ended.wait(20), "not-killed", f"{what}: {n} lives on; signals {[x for x in log if x[0] == s.pid]}")
            else:
                try:
                    s.wait(20)
                except (subprocess.TimeoutExpired, TimeoutError):
                    ctx.violate("not-killed", f"{what}: child {n} lives on; signals {[x for x in log if x[0] == s.pid]}")
                    sig.kill(s.pid, 9)
                sig.mine.discard(s.pid)
                s.client.close()
        for k, n, s in ps:
            if k == "unlisted" or k in ("live", "ignores") and (n, s) not in live:
                ctx.check(not s.ended.is_set(), "killed-wrong", f"{what}: a process ended that was not given")
            if hasattr(s, "ended"):
                s.end()


def listening(host, port):
    """Does a program listen there, according to the kernel?"""
    addr = socket.inet_aton(socket.gethostbyname(host))[::-1].hex().upper()
    for path in ("/proc/net/tcp", "/proc/net/tcp6"):
        try:
            with open(path) as f:
                rows = [line.split() for line in f][1:]
        except OSError:
            continue
        for row in rows:
            a, p = row[1].split(":")
            if row[3] == "0A" and int(p, 16) == port and (a == addr or not a.strip("0") or a.endswith(addr)):
                return True
    return False


def s_ports(ctx):
    """check_tcp_port() against what listens."""
    rng = ctx.rng
    rpc = ThreadServer("tcp")
    rport = int(rpc.address.rsplit(b":", 1)[1])
    while ctx.more():
        socks = []
        for _ in range(rng.choice([1, 4, 10])):
            kind = rng.choice(["listen", "listen", "any", "bound", "bound", "udp", "closed", "rpc", "connected", "other address"])
            if kind == "rpc":
                socks.append((kind, rpc, rport))
                continue
            s = socket.socket(socket.AF_INET, socket.SOCK_DGRAM if kind == "udp" else socket.SOCK_STREAM)
            s.bind(({"any": "0.0.0.0", "other address": "127.0.0.9"}.get(kind, "127.0.0.1"), 0))
            port = s.getsockname()[1]
            if kind in ("listen", "any", "other address", "connected", "closed"):
                s.listen(rng.choice([5, 100]))
            if kind == "closed":
                s.close()
            if kind == "connected":
                c = socket.create_connection(("127.0.0.1", port))
                s.accept()[0].close()
                s.close()
                s = c
            socks.append((kind, s, port))
        for _ in range(2):
            for kind, s, port in socks:
                host = rng.choice(["127.0.0.1", "localhost"]) if kind != "any" else rng.choice(["127.0.0.1", "localhost", "127.0.0.3"])
                want = "open" if kind in ("listen", "any", "rpc") else "closed"
                if kind == "other address" and rng.random() < .5:
                    host, want = "127.0.0.9", "open"
                kw = rng.choice([{}, {"timeout": 5}, {"timeout": 20}])
                what = f"check_tcp_port({host!r}, {port}) with a socket of kind {kind}"
                ctx.sig("port", kind, host, want, kw)
                time.sleep(.01)  # (each probe occupies a port for a minute)
                with ctx.guard(60, "hangs", what):
                    got = util.check_tcp_port(host, port, **kw)
                    if got != want and (got == "timeout" or kind in ("closed", "connected", "other address", "udp")):
                        # slow machine, or the port was taken by someone else
                        taken = listening(host, port)
                        got = [util.check_tcp_port(host, port, timeout=20) for _ in range(3)]
                        got = want if want in got else got[0]
                        if want == "closed" and (taken or listening(host, port)):
                            ctx.count("taken by others")
                            continue
                ctx.check(got == want, "port-state", f"{what}: {got!r}")
                ctx.count(kind)
                if want == "open" and kind in ("listen", "any", "other address") and got == "open":
                    # the probe has gone again
                    s.settimeout(20)
                    with ctx.guard(60, "hangs", what + ": probe"):
                        try:
                            c, _ = s.accept()
                            c.settimeout(20)
                            ctx.check(c.recv(10) == b"", "probe", f"{what}: the probe sent something")
                            c.close()
                        except ConnectionResetError:
                            c.close()
                        except TimeoutError:
                            ctx.violate("probe", f"{what}: no connection arrived, or it stays open")
        for kind, s, _ in socks:
            if kind != "rpc":
                s.close()
    rpc.close()
