"""Writes /verif/properties.jsonl (the statements live here so that they can be edited with line breaks)."""
import json, os

P = []


def p(id, title, statement, over, text, why, files, mechanism, observe, state=()):
    st = " ".join(statement.split())
    P.append({"id": id, "title": title, "statement": st,
              "quantifier": {"over": over.split(), "text": " ".join(text.split())},
              "why_tests_cant": " ".join(why.split()),
              "anchors": {"files": files.split(), "mechanism": [{"name": a, "where": b} for a, b in mechanism],
                          "state": [{"name": a, "meaning": b, "where": c} for a, b, c in state],
                          "observe_at": observe, "hook_needed": None}})


p("C01", "Every request gets its own reply, once",
  """Every request that asks for a reply is completed by exactly the reply (value or exception) of that request - never
  by the reply of another request, another client or another thread - no matter how many requests are outstanding, in
  which order their futures are awaited, polled with done(), or abandoned, and whether earlier calls timed out.
  No reply is lost while client and server live, even when thousands of replies are outstanding.""",
  "schedules histories inputs",
  """any number of clients (threads and processes), transports (tcp, ipc, inproc), serializers, any interleaving of
  sync/async/off requests, any order of awaiting, polling and dropping futures, late replies after time-outs""",
  "Tests await single calls in order from one thread; correlation under many outstanding, abandoned or late replies is never sampled.",
  "teleprox/client.py teleprox/server.py",
  [("request ids and the weak table of futures", "client.py: RPCClient.send, process_msg"), ("replies are routed by socket identity", "server.py: _send_result")],
  ["value returned by Future.result()/done()/proxy calls, compared with a function of the request's unique token"],
  [("futures", "pending requests of one client", "client.py"), ("next_request_id", "id of the next request", "client.py")])

p("C02", "Requests execute exactly once, in order per client, in the server's thread",
  """Every request sent to a running server is executed exactly once, in the thread that runs the server, and the
  requests of one client are executed in the order in which that client sent them, whether they are sync, async or
  without reply. Two requests of one server never overlap, except that requests may be executed while an earlier one is
  itself waiting for a remote call.""",
  "schedules histories",
  "any mix of sync/async/off requests from any number of concurrent clients over any transport, including bursts, slow and failing requests",
  "Tests send a handful of requests from one client and look only at values, not at how often, where and in what order they ran.",
  "teleprox/client.py teleprox/server.py teleprox/qt_poll_thread.py",
  [("single reader loop", "server.py: run_forever"), ("one send_multipart per request", "client.py: send")],
  ["log appended by the called object on the server: (token, thread, enter/leave)"])

p("C03", "Values travel unchanged in both directions",
  """Any value built from the types that are sent by value (None, bool, int, float, str, bytes, list, tuple, dict, date,
  datetime, numpy arrays, numpy number and bool scalars, numpy dtypes, and - in processes that import Qt before teleprox - Qt points, sizes, rectangles, lines, 3D and 4D vectors, quaternions and transforms,
  nested arbitrarily) arrives equal and of the same type, as an argument and as a result, with both serializers. For the JSON serializer this holds up to JSON's own limits: dictionary
  keys are strings, tuples become lists and subclasses of str, int and float become their base type; arrays keep dtype, shape, and every element.""",
  "inputs", "all values of the by-value types, nested to any depth; all array dtypes (including structured, object, datetime), shapes, memory layouts; extreme ints, floats, dates",
  "Tests transfer one fixed sample per type; extreme values, nesting, layouts and dtypes are not sampled.",
  "teleprox/serializer.py",
  [("type-tagged encoding", "serializer.py: Serializer.encode/decode, JsonSerializer.encode/decode")],
  ["value seen by the remote function, and value returned to the caller"])

p("C04", "By value or by proxy as documented; objects return home as themselves",
  """Objects of the serializable types travel by value and all others by proxy (nested ones too); return_type='proxy' and custom sets of
  serializable types (of a server for results, of a client for arguments) override the choice, and without a server to own it an unserializable argument raises TypeError in the sender
  without a request being executed. A proxy that is sent back to the server that owns its object is replaced there
  by that very object (same identity), including proxies to attributes and proxies nested in containers or relayed via third parties.""",
  "inputs histories configurations",
  "any objects and nesting; any path of hops between processes/threads; all return types; clients with and without a local server and with custom serialize types",
  "Tests check a few return types on one hop.",
  "teleprox/serializer.py teleprox/server.py teleprox/proxy.py",
  [("auto_proxy / get_proxy", "server.py"), ("proxy decode unwraps local proxies", "serializer.py: decode, server.py: unwrap_proxy")],
  ["type and identity of arguments on the server, type of results in the client"])

p("C05", "A failing request affects nobody but its caller",
  """Whatever a request does wrong (unknown object, attribute or action, exception of any type with any message,
  SystemExit, unserializable or undecodable values and results), the caller and only the caller gets one error that carries the remote exception's
  type name and traceback text, and the server goes on serving every client. Failures of requests without reply are handed to the server process's sys.excepthook exactly once.""",
  "inputs fault_sequences schedules",
  "all kinds of failures of requests, in any sequence, mixed with healthy requests of the same and other clients, both serializers",
  "Tests raise one ordinary exception; hostile exceptions and failures inside the reply path are not sampled.",
  "teleprox/server.py teleprox/client.py",
  [("catch-all around the action and the reply", "server.py: _process_one, _send_error"), ("RemoteCallException", "client.py: process_msg")],
  ["exception seen by the caller; subsequent healthy requests of all clients; calls of sys.excepthook"])

p("C06", "Remote objects live exactly as long as a proxy may refer to them",
  """An object that has been sent by proxy stays alive and reachable (as the same object) until every proxy sent for it has been deleted, and
  is released by the server as soon as the last one is deleted; deleting one proxy never affects the others. A deleted proxy, and copies of it, raise an error when used
  and never reach any other object, and a proxy with auto_delete releases its own reference exactly once when it is collected.""",
  "histories schedules",
  "any sequence of creating, copying, sending, deleting (explicitly, automatically, twice) proxies by several clients, with Python reusing addresses of freed objects",
  "Tests create and delete one or two proxies; reference accounting over histories is not sampled.",
  "teleprox/server.py teleprox/proxy.py teleprox/client.py",
  [("object and reference ids", "server.py: get_proxy, unwrap_proxy, process_action('delete')"), ("auto_delete", "proxy.py: __del__")],
  ["weak references to the objects on the server; results and errors of using each proxy"],
  [("_proxy_refs", "object id -> object and live reference ids", "server.py")])

p("C07", "Operations on a proxy do what they would do on the object itself",
  """Getting and setting attributes, calling (with any positional and keyword arguments), indexing, len() and every binary, reflected and comparison operator
  that proxies support have on a proxy the same result, effect on the object, and error type as the same operation executed locally on the object.
  This includes operators that the object leaves to the other operand.""",
  "inputs programs", "all objects and operands (builtin numbers, sequences, user classes with partial operator support), operators and argument lists; sequences of mutating operations",
  "Tests use a few attribute lookups and calls; most of the operator methods are never executed.",
  "teleprox/proxy.py teleprox/server.py",
  [("special methods forwarded one by one", "proxy.py: ObjectProxy.__add__ ..."), ("deferred attributes", "proxy.py: _deferred_attr; server.py: unwrap_proxy")],
  ["result or exception of the operation on the proxy versus on a local twin object; state of both afterwards"])

p("C08", "Proxy options, deferral, equality and printing are as documented",
  """The sync mode, return type and timeout of a call are those given with the call, otherwise those of the proxy, which
  (deferred) attribute proxies inherit; with defer_getattr a (chained) attribute lookup contacts the server only when it is used and denotes what the attribute is at
  that time, and without it lookups happen at once. Proxies are equal to, and hash like, proxies of the same object and attribute path; other comparisons are
  evaluated by the remote object, and with safe_print str() and repr() never contact the server.""",
  "inputs configurations histories", "all combinations of options set on client defaults, proxy and call; chains of attributes; objects whose attributes change between lookup and use",
  "Tests check a few options in isolation.",
  "teleprox/proxy.py teleprox/client.py",
  [("proxy options", "proxy.py: _set_proxy_options, __call__, _deferred_attr, _undefer"), ("__eq__/__hash__/__repr__", "proxy.py")],
  ["type of the return value, number of requests that reach the server, values"])

p("C09", "Closing a server disconnects every client and ends all execution",
  """When a server is closed by a request or by close(), every live client that has used it observes disconnected() soon, each of its pending futures ends with its
  result or with an error, later requests raise RuntimeError at once and close_server() returns True. After the close was confirmed no request
  is executed any more; dead or unresponsive clients neither prevent nor delay closing, and a process that runs a server as its main job ends.""",
  "schedules histories fault_sequences",
  "any number of clients in threads and processes, in any state (idle, waiting, many outstanding requests, killed), who closes and how, simultaneous closers",
  "Tests close a server with one or two idle clients.",
  "teleprox/server.py teleprox/client.py teleprox/process.py",
  [("disconnect messages to all known clients", "server.py: process_action('close')"), ("pending futures fail", "client.py: _server_disconnected"), ("exit hook", "server.py: _atexit")],
  ["disconnected(), futures, errors of later calls in every client; execution log of the server; end of the process"])

p("C10", "Timeouts bound every wait and leave the client usable",
  """A synchronous call or Future.result() with a timeout returns the reply if it arrives in time and otherwise raises
  TimeoutError, not before and not much later than the timeout - also while the thread's own server is serving requests and other replies keep arriving. A timed-out request disturbs nothing: later calls get
  their own replies, and the same future can be awaited again and then yields its own reply; timeout None waits as long as it takes.""",
  "schedules inputs fault_sequences", "all timeouts including 0 and None, delays around the timeout, stopped or dead servers, clients with lazy or Qt local servers, streams of unrelated traffic",
  "Tests use one timeout against a dead server.",
  "teleprox/client.py teleprox/proxy.py",
  [("deadline in the receive loop", "client.py: process_until_future, _read_and_process_one")],
  ["exception or value, and elapsed time, of each wait; values of later calls"])

p("C11", "One client per thread and server; connecting either works or fails cleanly",
  """get_client() yields, for one thread and address, always the same client until that is closed, and never a client that another thread got (a new thread starts without, also if an ended one with the same identifier left its client open); constructing a second client for the same thread and address raises KeyError.
  Any number of clients with equal process and thread names (of any length) can use one server at the same time. Connecting to a closed port raises ConnectionRefusedError, any failure to connect leaves
  no trace (a later attempt succeeds once a server is there), and a closed client can be replaced by a new one at once.""",
  "schedules histories configurations", "threads and processes with any names, any order of get/construct/close/reconnect, addresses with and without a server",
  "Tests never use two clients with the same names, nor reconnect.",
  "teleprox/client.py",
  [("registry by (thread, address)", "client.py: get_client, forget_client, __init__"), ("socket identity", "client.py: __init__"), ("port check", "client.py: check_address; util.py: check_tcp_port")],
  ["identity of clients, exceptions, replies"],
  [("clients_by_thread", "registry", "client.py")])

p("C12", "Re-entrant call chains complete with the right results",
  """Calls that lead back to the caller - callbacks, recursion between any number of threads and processes, callbacks invoked from within callbacks, to any
  practical depth - complete with the correct results and errors as long as each waiting participant has a server in its thread (run forever, lazy, or Qt). Requests that arrive while a participant waits are
  served in that participant's own thread (while it waits with a client made with reentrant=False they have to wait as well), and starting, closing or replacing the local server between calls does not break later ones.""",
  "programs schedules histories", "all topologies of calls over a set of servers, any depth, all server modes, exceptions thrown through the chain, concurrent chains of several threads",
  "Tests have one callback at depth one or two.",
  "teleprox/client.py teleprox/server.py teleprox/qt_server.py",
  [("poll own server while waiting", "client.py: process_until_future, _get_poller"), ("lazy servers", "server.py: run_lazy")],
  ["result of randomly generated call programs versus a local interpreter; thread of each callback; bounded progress"])

p("C13", "start_process yields a connected, configured child or leaves nothing behind",
  """start_process either returns a process object whose client is connected to a server running in the new process with the requested name, address, server type, log level, log address, name prefix and stdio,
  or raises an error that tells what failed in the new process. When it raises, no child process remains and a later start_process works.""",
  "configurations inputs fault_sequences", "combinations of name, address, qt, daemon, log_addr, log_level, log_stdio, shell, serializer, start_local_server, std streams; failing addresses, executables and serializers; concurrent starts",
  "Tests start processes successfully with a few options.",
  "teleprox/process.py teleprox/bootstrap.py",
  [("bootstrap handshake", "process.py: start_process; bootstrap.py")],
  ["values queried from inside the child; exceptions; process table below the harness"])

p("C14", "Children end when they should, and daemons outlive their parent",
  """stop() and kill() end a child and return its exit code, wait() and poll() report the exit code exactly when the child has ended, wait() raises TimeoutError if it has not ended in time, and all of them may be repeated in any order.
  When a program exits normally, all its (responsive) children are stopped without being asked, while daemons - which are detached from the parent's process, session and std streams and leave no zombie - go on serving until they are stopped or killed.""",
  "histories schedules crash_points", "any order of stop/kill/wait/poll and of children exiting or crashing on their own; parents ending in any way (normal, exception, killed) with children and daemons alive",
  "Tests stop and kill single children.",
  "teleprox/process.py teleprox/bootstrap.py teleprox/server.py",
  [("ChildProcess / DaemonProcess", "process.py"), ("double fork", "bootstrap.py"), ("exit hooks", "process.py: ChildProcess.__init__; server.py: _atexit")],
  ["process table, exit codes, exceptions, elapsed time"])

p("C15", "Log records of remote processes arrive exactly once, in order, unchanged",
  """Every record that a logger passes to a connected log sender is handled exactly once by the log server's logger, in the order in which each thread logged them (while the sender keeps its connection), with the message as it was
  at the time of logging, its level, logger name, creation time, exception text and the names of host, process and thread. This also holds for records with unusual content, for records logged just before
  the process exits or the sender closes, while the sender is being moved to another server, and when handlers raise errors. Other handlers of the same loggers get the records unchanged.""",
  "inputs schedules crash_points histories", "all kinds of records (bad arguments, mutable arguments, exc_info, extra attributes of any type, any characters), any number of threads and processes, exit at any point after logging, reconnects",
  "Tests log a few plain records from one child.",
  "teleprox/log/remote.py teleprox/log/stdio.py",
  [("queue and sender thread", "log/remote.py: LogSender"), ("receiver thread", "log/remote.py: LogServer")],
  ["records handled at the server versus records logged (unique tokens)"])

p("C16", "Output of child processes is captured completely and never blocks them",
  """With stdio logging, every line that a child writes to stdout or stderr, by whatever means (print, raw bytes, native writes, its own children), becomes exactly one log record
  with that line's text, the stream's level and prefix, in the order written per stream, including an unterminated last line and output written while exiting. Bytes that are not valid text are
  shown escaped, and a child never blocks because its output is not read.""",
  "inputs crash_points schedules", "all byte strings written in any chunking by any number of threads to both streams, exits and kills at any point",
  "Tests capture a couple of printed lines.",
  "teleprox/log/stdio.py teleprox/process.py",
  [("one poller thread per pipe", "log/stdio.py: PipePoller"), ("wait does not read the pipes", "process.py: ChildProcess.wait")],
  ["records at the log server versus bytes written by the child"])

p("C17", "RPCLogHandler prints each record once, in order of creation",
  """RPCLogHandler writes every record it is given exactly once, and records that reach it within its sorting delay are written in the order of their creation times whatever the order in
  which they arrived; each line names the record's host, process and thread. flush_records() (called at exit) has written everything that was emitted before when it returns.""",
  "schedules inputs histories", "any number of threads and remote processes, any order of arrival, flush and exit at any moment",
  "Tests look at single records.",
  "teleprox/log/handler.py",
  [("sorted list and writer thread", "log/handler.py: emit, poll_records, flush_records")],
  ["text written to the stream versus records emitted"])

p("C18", "Timers keep interval and limit, and can be stopped and restarted",
  """While a Timer runs its callback is called repeatedly from one thread, never overlapping, with at least the interval between the starts of two calls, at most limit times
  per start (exactly limit times if it is not stopped); after stop() at most the call already due takes place. A stopped or finished timer can be started again, and callbacks that are proxies
  (to objects or to their methods) are called in their server.""",
  "schedules histories", "any sequence and timing of start/stop from any thread, including from the callback; callback durations around the interval; limits",
  "Tests run one timer once.",
  "teleprox/timer.py teleprox/server.py teleprox/proxy.py",
  [("timer thread", "timer.py: _run"), ("start_timer", "server.py"), ("proxy copy", "proxy.py: _copy")],
  ["times, threads and number of the callback's calls"])

p("C19", "A SharedNDArray is the same memory everywhere",
  """A SharedNDArray made from any array or shape holds exactly its values (or zeros), and every copy of it obtained through RPC, in any process and with either serializer, shows the same shape, dtype and
  memory: a write through one is read through all others. The memory stays usable for every holder until its creator closes it, and close_all() closes what was created for closing and nothing else.""",
  "inputs histories configurations", "all shapes (0-d, empty, n-d), dtypes, memory layouts and views; any chain of transfers; writes from any side; close_all in any holder",
  "Tests share one 1-d array.",
  "teleprox/shmem.py teleprox/serializer.py",
  [("reduce/reload", "shmem.py: __reduce__, __reload__"), ("close_all", "shmem.py")],
  ["array contents on both sides after writes; existence of the shared memory"])

p("C20", "A Qt server executes everything in the GUI thread and stops when closed",
  """A QtRPCServer executes every request in the thread of the Qt application, one after another and in each client's order, while Qt events go on being handled, and every reply reaches its caller also when
  requests call back to their sender or process events themselves. After it was closed it executes nothing, and a process started for it ends.""",
  "schedules histories", "any mix of concurrent requests, timers and signals, nested event loops, callbacks, and closing at any moment",
  "Tests run a few calls against one idle Qt process.",
  "teleprox/qt_server.py teleprox/qt_poll_thread.py teleprox/client.py",
  [("poll thread emitting a signal per request", "qt_poll_thread.py"), ("replies via a PAIR socket", "qt_poll_thread.py")],
  ["thread ids and order recorded by the called object; ticks of a QTimer; process end"])

p("C21", "The Qt binding in use is the one the application uses",
  """import_qt() (and teleprox.qt) bind to the Qt library that the program has already imported, or if none, to the requested or otherwise to the first importable one in the documented order, always yielding one
  consistent namespace with Signal and make_qapp. Asking for another library than the one in use raises ValueError, having none raises ImportError, and a failure has no lasting effect.""",
  "configurations histories", "every subset of installed libraries, every one already imported or not, and sequences of requests including failing ones",
  "The tests can only see the one library that is installed here.",
  "teleprox/qt_util.py teleprox/qt.py",
  [("detection and import order", "qt_util.py: check_qt_imported, import_qt")],
  ["namespace and exceptions in processes with stub Qt packages"])

p("C22", "Published names behave like atomic shared variables",
  """Setting and getting published names of a server, by any number of clients and by the server's own side within its thread, is linearizable: each get returns the value of the latest preceding set in
  some order that agrees with real time, across all clients. A set that failed has no effect, and names that were never set raise an error.""",
  "schedules histories", "all concurrent histories of sets and gets by threads and processes, with values and proxies",
  "Tests publish one object once.",
  "teleprox/server.py teleprox/client.py",
  [("namespace accessed only by the server's thread", "server.py: process_action get_item/set_item")],
  ["invocation/response history checked for linearizability"])

p("C23", "Process and port utilities act on exactly what they were asked for",
  """find_procs() and kill_procs() select exactly the processes whose command line contains the given text, kill_procs() sends a kill signal to those that are still there after the wait
  and to no other process, and ProcessCleaner and assert_pids_dead() kill and report exactly the given processes that are still alive. check_tcp_port() says 'open' exactly if something listens there.""",
  "inputs configurations", "all process tables and search texts, processes that end meanwhile, dead and living pids, open and closed ports",
  "Tests only clean up when nothing is left.",
  "teleprox/util.py",
  [("ps output parsing", "util.py: find_procs"), ("kill", "util.py: kill_procs, assert_pids_dead, ProcessCleaner"), ("port probe", "util.py: check_tcp_port")],
  ["pids passed to os.kill (recorded by a stand-in), return values, exceptions"])

p("C24", "Unhandled exceptions are logged, each exactly once",
  """After log_exceptions(), every exception that ends a thread or reaches sys.excepthook is logged exactly once, with its type, message and traceback, however often log_exceptions() was called and in whichever thread it happens.
  In spawned processes with a log address these records reach the parent's log server.""",
  "inputs histories schedules", "all exceptions (chained, with any text, with failing __str__, without traceback), any number of threads, repeated installation",
  "Tests cover one exception per kind of thread.",
  "teleprox/log/handler.py teleprox/bootstrap.py",
  [("hooks", "log/handler.py: log_exceptions, _log_unhandled_exception")],
  ["log records versus exceptions raised"])

p("C25", "Each thread has at most one server, and everybody sees which",
  """A thread has at most one running server: RPCServer.get_server() called in it (also from handlers and from code that a remote caller runs there) returns exactly that server, or None if there is none, it was closed, or it belonged to a thread that has ended;
  starting a second server in a thread that has one fails with KeyError and leaves the first one (and its clients) unharmed; running() is true exactly from start to close, seen from any thread; after a server was closed,
  another one can be started in the same thread and at the same address, and serves.""",
  "histories schedules configurations",
  "all histories of starting (lazily, in a new thread, in the calling thread, in a spawned process), closing and replacing servers in several threads at once, over tcp, ipc and inproc",
  "Tests start one server per thread and never look at what the registry says afterwards.",
  "teleprox/server.py teleprox/client.py",
  [("table of servers by thread", "server.py: register_server, unregister_server, get_server"), ("local server for callbacks", "server.py: local_client; client.py: RPCClient")],
  ["get_server()/running() seen from inside and outside, exceptions of second starts, replies of replaced servers"],
  [("servers_by_thread", "running server of each thread", "server.py")])

p("C26", "Measured clock differences are right within the round-trip time",
  """RPCClient.measure_clock_diff() returns the difference between the remote clock and the local one with an error of at most half of the longest round trip that occurred during the measurement - with the right sign, for any offset, and
  however busy the server or the calling threads are.""",
  "inputs schedules", "all offsets of the remote clock, from zero to many years, threads and processes, idle and loaded servers, irregular delays",
  "Tests measure processes of one machine, whose clocks agree.",
  "teleprox/client.py",
  [("median of round trips", "client.py: measure_clock_diff")],
  ["returned difference, against a known offset and the bound given by the elapsed time of the round trips"])

p("C27", "Repeated use accumulates nothing",
  """Work that has ended leaves nothing behind in either process, however often it is repeated: answered, failed, timed-out and unanswered requests, proxies that were deleted or dropped (with automatic deletion), clients that were closed,
  servers that were closed (by themselves, by a client, lazy or running), child and daemon processes that ended (stopped, killed, by themselves, or whose start failed; with captured output or not), stopped timers, closed log senders and handlers, stopped log servers,
  and shared arrays after close_all() do not let the number of open descriptors, threads, child processes, attached log handlers or live objects grow.""",
  "inputs histories fault_sequences", "all kinds of completed work and their mixtures, repeated any number of times, in the user's process and in the serving process",
  "Tests use everything once or twice and end; nothing counts what stays open, and a leak shows only after hundreds of repetitions.",
  "teleprox/client.py teleprox/server.py teleprox/process.py teleprox/timer.py teleprox/shmem.py teleprox/log/remote.py teleprox/log/stdio.py teleprox/log/handler.py",
  [("releasing sockets, threads and registrations", "client.py: close, close_server; server.py: close, _final_close; process.py: wait; log/remote.py: LogSender.close, LogServer.run; log/stdio.py"), ("table of futures and of objects held for proxies", "client.py: futures; server.py: _proxy_refs")],
  ["descriptors, threads and children of the processes (/proc), live objects of the garbage collector, allocated blocks"],
  [("clients_by_thread, servers_by_thread", "registries", "client.py, server.py"), ("_proxy_refs", "objects held for proxies", "server.py")])

p("C28", "All spellings of an operation do the same, and what is documented",
  """However an operation is spelled - by a proxy, by the client's method (call_obj, get_obj, transfer, delete, _import, item access) with arguments left out, None, empty, as tuple or list, positional or by keyword, or by send() with its options -
  and in every mode (waiting, with a future, without reply; by value, by proxy, automatic) it has the same effect on the remote object, exactly once, and the same result or type of error as on a local object; transfer() makes a proxy of a copy that lives there;
  an imported module is the one of that name in the server's process; improper requests (unknown actions, modes, names, missing options) are refused with the proper error and without any effect.""",
  "inputs configurations", "all operations, argument lists (also with names the library uses itself), spellings, modes, return types, kinds of servers and serializers",
  "Tests use one spelling of a few operations; most optional arguments are never left out or given.",
  "teleprox/client.py teleprox/server.py teleprox/proxy.py",
  [("requests by name and options", "client.py: send, call_obj, get_obj, transfer, _import; server.py: process_action"), ("options of a call", "proxy.py: __call__, _undefer, _get_value")],
  ["results, error types, state of the remote objects after each operation, compared with a local twin"])

p("C29", "Log viewers receive every record once, in the GUI thread",
  """A LogViewer attached to a logger (given by name, as object, or the root logger by default) receives every record that a handler with the same level and filters at that logger handles - from any thread, and from other processes through a log server -
  as the same object, exactly once, in the order in which each thread logged them, always in the GUI thread, and independently of other viewers at the same logger. Viewers neither disturb logging (also while and after Qt is shut down at the
  program's end) nor keep other handlers from being flushed at exit.""",
  "inputs schedules configurations", "all trees of loggers, viewers, levels and filters, records of any content, numbers of threads, moments and ways of the program's end",
  "Tests do not cover the viewer; which thread a record arrives in and whether one gets lost depends on the schedule and on the order of cleaning up at exit.",
  "teleprox/log/logviewer.py",
  [("records are passed on by a Qt signal", "log/logviewer.py: QtLogHandler.handle, LogViewer.__init__")],
  ["records given to the viewer's new_record, their thread and order; files written by other handlers"])

p("C30", "basic_config() shows the messages of all processes of an application once",
  """After basic_config(level) the standard error of an application shows every record logged in any thread of its process, and - unless start_server is False - every record logged, line printed and unhandled exception raised in the processes
  it starts and in those that they start, exactly once, with its text and the name of the process it comes from, those of one thread (or stream) in their order, if its level is at least that of its own process and of the application, and nothing
  below that; also when the program ends right after, in whatever way. Processes that are not captured keep writing to the application's own streams.""",
  "inputs schedules configurations", "all trees of processes, levels, options, amounts and timing of messages, ways of the program's end",
  "Tests check single parts (handler, sender, capture) with a few messages; what gets lost, doubled or attributed wrongly when all parts work together, depends on levels, timing and the way a program ends.",
  "teleprox/log/__init__.py teleprox/log/handler.py teleprox/log/remote.py teleprox/log/stdio.py teleprox/process.py teleprox/bootstrap.py",
  [("one call sets up handler, exceptions and server", "log/__init__.py: basic_config"), ("address and level passed on to children", "process.py: start_process; bootstrap.py")],
  ["stderr and stdout of the application, ledgers of its processes"])

p("C31", "Everything else works without the optional libraries numpy, msgpack and Qt",
  """numpy, msgpack and Qt are optional: in a process where they cannot be imported, teleprox can, with every serializer that is left and at either side of a connection, to and from processes that do or do not have numpy, do everything that does not involve them - requests with and
  without reply, futures, callbacks, proxies, transferred objects, attributes and items, errors, start and stop of processes - with the results it has elsewhere. What needs numpy is refused with an ImportError (here, or as the error of the request) that leaves the connection usable; what needs msgpack or Qt (that serializer, teleprox.qt, a child with qt=True) is refused with an error as well.""",
  "inputs configurations", "all requests, values, serializers, and sides at which libraries are missing",
  "All tests run where these are installed; code that only fails without it (a name that is not defined, a type test) runs in none of them.",
  "teleprox/serializer.py teleprox/shmem.py teleprox/qt_util.py teleprox/client.py teleprox/server.py",
  [("optional imports", "serializer.py: HAVE_NUMPY, HAVE_MSGPACK; shmem.py: have_numpy; qt_util.py: import_qt")],
  ["results and exceptions of requests in processes without the libraries"])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for x in P:
            assert len(x["title"]) <= 80, x["title"]
            f.write(json.dumps(x) + "\n")
