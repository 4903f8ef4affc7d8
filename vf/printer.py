"""A program that prints log records through RPCLogHandler and ends.  argv: JSON plan"""
import json, logging, os, random, sys, threading, time


def main():
    plan = json.loads(sys.argv[1])
    from teleprox.log.handler import RPCLogHandler
    from teleprox.log import remote
    logging.raiseExceptions = False
    remote.set_process_name("prog")
    h = RPCLogHandler()
    lg = logging.getLogger("prog")
    lg.setLevel(1)
    lg.propagate = False
    lg.addHandler(h)
    rng = random.Random(plan["seed"])
    now = time.time()

    def run(k):
        for i in range(plan["n"]):
            r = logging.LogRecord("prog", rng.choice([10, 20, 30, 40, 50]), "p", 1, f"T<{k}-{i}>", None, None)
            r.created = now + rng.random() * plan["spread"] - plan["spread"]
            if plan["real"]:
                r.created = time.time()
            lg.handle(r)
            if plan["pause"] and rng.random() < .2:
                time.sleep(plan["pause"])
    ths = [threading.Thread(target=run, args=(k,)) for k in range(1, plan["threads"])]
    for t in ths:
        t.start()
    run(0)
    for t in ths:
        t.join()
    time.sleep(plan["wait"])
    end = plan["end"]
    if end == "exit":
        sys.exit(3)
    elif end == "exception":
        raise ValueError("the end")
    elif end == "atexit":
        import atexit
        atexit.register(lambda: [lg.warning(f"T<x-{i}>") for i in range(20)])
    elif end == "thread":
        # logs while the main thread has ended already
        threading.Thread(target=lambda: (time.sleep(.05), [lg.warning(f"T<x-{i}>") for i in range(20)])).start()
    elif end == "shutdown":
        h.flush_records()
        lg.warning("T<x-0>")


if __name__ == "__main__":
    main()
