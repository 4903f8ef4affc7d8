"""A program that spawns children and daemons and then ends in some way.  argv: JSON plan."""
import json, os, sys, threading, time

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import logging
logging.getLogger("teleprox").setLevel(logging.CRITICAL)


def main():
    plan = json.loads(sys.argv[1])
    import teleprox
    from teleprox import RPCServer
    kids, info = [], []
    if plan.get("local_server"):
        RPCServer().run_lazy()

    def spawn(k):
        p = teleprox.start_process(**k["kw"])
        p.client["token"] = k["token"]
        kids.append(p)
        info.append({"pid": p.pid, "address": p.client.address.decode(), "token": k["token"], "do": k.get("do")})
        do = k.get("do")
        if do == "stop":
            p.stop()
        elif do == "kill":
            p.kill()
        elif do == "close client":
            p.client.close()
        elif do == "close server":
            p.client.close_server()
        elif do == "crash":
            p.client._import("os")._exit(7, _sync="off")
            p.wait()
        elif do == "forget":
            kids.remove(p)
        elif do == "busy":
            p.client._import("time").sleep(k.get("busy", .3), _sync="off")
        elif do == "outstanding":
            plan.setdefault("futs", []).append(p.client._import("time").sleep(.3, _sync="async"))
    for k in plan["kids"]:
        if k.get("thread"):
            t = threading.Thread(target=spawn, args=(k,))
            t.start()
            t.join()
        else:
            spawn(k)
    import psutil
    # (a child that was closed through its client is a zombie until someone waits for it)
    z = [c.pid for c in psutil.Process().children() if c.status() == psutil.STATUS_ZOMBIE
         and not any(c.pid == i["pid"] and k["kw"].get("daemon") is not True for i, k in zip(info, plan["kids"]))]
    with open(plan["info"] + ".tmp", "w") as f:
        json.dump({"kids": info, "zombies": z}, f)
    os.rename(plan["info"] + ".tmp", plan["info"])
    while not os.path.exists(plan["go"]):
        time.sleep(.005)
    end = plan["end"]
    if end == "exit":
        sys.exit(plan["code"])
    elif end == "exception":
        raise ValueError("end of the program")
    elif end == "os.kill":
        os.kill(os.getpid(), 9)
    elif end == "interrupt":
        import signal
        os.kill(os.getpid(), signal.SIGINT)
        time.sleep(30)
    elif end == "thread exit":
        threading.Thread(target=lambda: time.sleep(.1)).start()
    elif end == "sleep":
        time.sleep(60)


if __name__ == "__main__":
    main()
