From 728e5e09c55de819798d6f7c4818d2d9ad86484f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:12 +0000
Subject: [PATCH 01/80] fix: let Future.done() and Future.exception() read the
 replies that have arrived

done() never looked at the socket, so polling a Future as documented never ended.
---
 README.md          |  2 +-
 teleprox/client.py | 19 +++++++++++++++++++
 teleprox/proxy.py  |  2 +-
 3 files changed, 21 insertions(+), 2 deletions(-)

diff --git a/README.md b/README.md
index 410ff30..1cb9447 100644
--- a/README.md
+++ b/README.md
@@ -31,7 +31,7 @@ pid = remote_os.getpid()
 
 # or, call getpid asynchronously and wait for the result:
 request = remote_os.getpid(_sync='async')
-while not request.hasResult():
+while not request.done():
     time.sleep(0.01)
 pid = request.result()
 
diff --git a/teleprox/client.py b/teleprox/client.py
index 87d1f16..021db15 100644
--- a/teleprox/client.py
+++ b/teleprox/client.py
@@ -667,6 +667,25 @@ class Future(concurrent.futures.Future):
     def cancel(self):
         return False
 
+    def done(self):
+        """Return True if the result (or an error message) has arrived.
+
+        This never blocks, but it does read any messages that have already been
+        received from the server.
+        """
+        if not concurrent.futures.Future.done(self):
+            # read available messages; this also handles a closed socket
+            self.client.disconnected()
+        return concurrent.futures.Future.done(self)
+
+    def exception(self, timeout=None):
+        """Return the exception raised by the remote call, or None if there was no exception.
+
+        Blocks in the same way as result().
+        """
+        self.client.process_until_future(self, timeout=timeout)
+        return concurrent.futures.Future.exception(self)
+
     def result(self, timeout=None):
         """Return the result of this Future.
         
diff --git a/teleprox/proxy.py b/teleprox/proxy.py
index f448af1..4bff2f3 100644
--- a/teleprox/proxy.py
+++ b/teleprox/proxy.py
@@ -48,7 +48,7 @@ class ObjectProxy(object):
         
         # asynchronous call
         request = ros.getpid(_sync='async')
-        while not request.hasResult():
+        while not request.done():
             time.sleep(0.01)
         pid = request.result()
         
-- 
2.43.0


From cbe23ff77e20e0403654f86ff02086c96f3c94a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:12 +0000
Subject: [PATCH 02/80] fix: do not drop results when many requests from one
 client are outstanding

---
 teleprox/server.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/teleprox/server.py b/teleprox/server.py
index 1fce84d..5a50b20 100644
--- a/teleprox/server.py
+++ b/teleprox/server.py
@@ -142,6 +142,10 @@ class RPCServer(object):
         # it has closed. (default is -1, which can cause processes to hang
         # on exit)
         self._socket.linger = 5000
+
+        # A ROUTER socket silently drops messages when the queue for a client is full;
+        # never let that happen to results.
+        self._socket.sndhwm = 0
         
         self._socket.bind(address)
         #: The zmq address where this server is listening (e.g. 'tcp:///127.0.0.1:5678')
-- 
2.43.0


From f964276cd665f9ccaf64acde80f52ea4e85c42e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:12 +0000
Subject: [PATCH 03/80] fix: give every RPCClient a unique socket identity

Clients whose process and thread have the same names (the default for siblings) could not connect to the same server.
---
 teleprox/client.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/teleprox/client.py b/teleprox/client.py
index 021db15..da75a15 100644
--- a/teleprox/client.py
+++ b/teleprox/client.py
@@ -6,6 +6,7 @@ import re
 import socket
 import sys
 import time
+import uuid
 import weakref
 import concurrent.futures
 import threading
@@ -100,7 +101,7 @@ class RPCClient(object):
         if isinstance(address, str):
             address = address.encode()
 
-        # pick a unique name: host.pid.tid:rpc_addr
+        # pick a descriptive name: host.process.thread:rpc_addr
         self.name = ("%s.%s.%s:%s" % (log.get_host_name(), log.get_process_name(),
                                       log.get_thread_name(), address.decode())).encode()
         
@@ -132,7 +133,10 @@ class RPCClient(object):
             # DEALER is fully asynchronous--we can send or receive at any time, and
             # unlike ROUTER, it only connects to a single endpoint.
             self._socket = zmq.Context.instance().socket(zmq.DEALER)
-            self._sock_name = self.name
+            # The identity must be unique among all clients of the server, which is not
+            # guaranteed by the names of the process and thread. Max length is 255.
+            identity = uuid.uuid4().hex.encode() + b' ' + self.name
+            self._sock_name = identity[:255].decode(errors='ignore').encode()
             self._socket.setsockopt(zmq.IDENTITY, self._sock_name)
             # socket will continue attempting to deliver messages up to 1 sec after
             # it has closed. (default is -1, which can cause processes to hang
-- 
2.43.0


From 38d02a17eeb14c12efdf994752e5f08be01741dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:12 +0000
Subject: [PATCH 04/80] fix: follow changes of the local server while waiting
 for results

A client kept polling the socket of a local server that had closed, and hung or failed.
---
 teleprox/client.py | 20 ++++++++++----------
 teleprox/server.py |  2 +-
 2 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/teleprox/client.py b/teleprox/client.py
index da75a15..92f73bb 100644
--- a/teleprox/client.py
+++ b/teleprox/client.py
@@ -202,16 +202,16 @@ class RPCClient(object):
         if not self._reentrant:
             return None
         
-        if self._poller is None:
-            server = RPCServer.get_server()
-            if server is None:
-                return None
-            if isinstance(server, QtRPCServer):
-                self._poller = 'qt'
-            else:
-                self._poller = zmq.Poller()
-                self._poller.register(self._socket, zmq.POLLIN)
-                self._poller.register(server._socket, zmq.POLLIN)
+        # The local server may be started, closed, or replaced at any time
+        server = RPCServer.get_server()
+        if server is None:
+            return None
+        if isinstance(server, QtRPCServer):
+            return 'qt'
+        if self._poller is None or server._socket not in self._poller:
+            self._poller = zmq.Poller()
+            self._poller.register(self._socket, zmq.POLLIN)
+            self._poller.register(server._socket, zmq.POLLIN)
         return self._poller
 
     def disconnected(self):
diff --git a/teleprox/server.py b/teleprox/server.py
index 5a50b20..c834264 100644
--- a/teleprox/server.py
+++ b/teleprox/server.py
@@ -257,7 +257,7 @@ class RPCServer(object):
         """Read one message from the rpc socket and invoke the requested
         action.
         """
-        if not self.running:
+        if self._closed is True:
             raise RuntimeError("RPC server socket is already closed.")
             
         name, msg = self._read_one(self._socket)
-- 
2.43.0


From 8f09a98df2c37b3c3889afad18d742c863797f7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:42 +0000
Subject: [PATCH 05/80] fix: accept dictionaries with keys other than str or
 bytes (msgpack)

---
 teleprox/serializer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/teleprox/serializer.py b/teleprox/serializer.py
index 109d2c2..fa57f49 100644
--- a/teleprox/serializer.py
+++ b/teleprox/serializer.py
@@ -256,7 +256,7 @@ class MsgpackSerializer(Serializer):
         #return msgpack.loads(msg, encoding='utf8', use_list=False, object_hook=self.decode)
 
         #Return lists/tuples as lists because json can't be configured otherwise
-        return msgpack.loads(msg, object_hook=self.decode)
+        return msgpack.loads(msg, object_hook=self.decode, strict_map_key=False)
 
 if HAVE_MSGPACK:
     all_serializers[MsgpackSerializer.type] = MsgpackSerializer
-- 
2.43.0


From fbba503b169c9fa15e0bd6bc88506f54b0f404b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:42 +0000
Subject: [PATCH 06/80] fix: transfer numpy arrays with object, structured, or
 datetime dtypes and array subclasses intact

---
 teleprox/serializer.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/teleprox/serializer.py b/teleprox/serializer.py
index fa57f49..4b0bf93 100644
--- a/teleprox/serializer.py
+++ b/teleprox/serializer.py
@@ -93,6 +93,13 @@ class Serializer:
         """
         raise NotImplementedError()
 
+    @staticmethod
+    def _is_plain_array(obj):
+        # True for arrays that are fully described by their dtype name, shape, and bytes.
+        # Others (object or structured dtypes, masked arrays, ..) must be pickled.
+        return (type(obj) is np.ndarray and not obj.dtype.hasobject 
+                and obj.dtype.names is None and obj.dtype.kind != 'V')
+
     def encode(self, obj):
         """Convert various types to serializable objects.
         
@@ -105,10 +112,7 @@ class Serializer:
                 raise TypeError("Cannot make proxy to %r without proxy server." % obj)
             obj = self.server.get_proxy(obj)
 
-        if HAVE_NUMPY and isinstance(obj, np.ndarray):
-            if not obj.flags['C_CONTIGUOUS']:
-                obj = np.ascontiguousarray(obj)
-            assert(obj.flags['C_CONTIGUOUS'])
+        if HAVE_NUMPY and self._is_plain_array(obj):
             return {encode_key: 'ndarray',
                     'data': obj.tobytes(),
                     'dtype': str(obj.dtype),
@@ -291,13 +295,10 @@ class JsonSerializer(Serializer):
         return json.loads(msg.decode(), object_hook=self.decode)
 
     def encode(self, obj):
-        if HAVE_NUMPY and isinstance(obj, np.ndarray):
+        if HAVE_NUMPY and self._is_plain_array(obj):
             # JSON doesn't support bytes, so we use base64 encoding instead:
-            if not obj.flags['C_CONTIGUOUS']:
-                obj = np.ascontiguousarray(obj)
-            assert(obj.flags['C_CONTIGUOUS'])
             return {encode_key: 'ndarray',
-                    'data': base64.b64encode(obj.data).decode(),
+                    'data': base64.b64encode(obj.tobytes()).decode(),
                     'dtype': str(obj.dtype),
                     'shape': obj.shape}
         elif isinstance(obj, bytes):
-- 
2.43.0


From 2c60860c7649e3897331d0815c49524cb7362fc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:42 +0000
Subject: [PATCH 07/80] fix: transfer numpy complex, longdouble and timedelta64
 scalars intact

---
 teleprox/serializer.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/teleprox/serializer.py b/teleprox/serializer.py
index 4b0bf93..47c91a0 100644
--- a/teleprox/serializer.py
+++ b/teleprox/serializer.py
@@ -131,15 +131,13 @@ class Serializer:
             return {encode_key: 'tuple', 'data': list(obj)}
         elif obj is None:
             return {encode_key: 'none'}
-        elif HAVE_NUMPY and isinstance(obj, (np.number, np.bool_)):
+        elif HAVE_NUMPY and isinstance(obj, (np.integer, np.float16, np.float32, np.float64, np.bool_)) and not isinstance(obj, np.timedelta64):
             if isinstance(obj, np.bool_):
                 val = bool(obj)
             elif isinstance(obj, np.integer):
                 val = int(obj)
-            elif isinstance(obj, np.floating):
-                val = float(obj)
             else:
-                raise TypeError("Unhandled numpy scalar type: %s" % type(obj))
+                val = float(obj)
 
             return {
                 encode_key: 'np_number',
-- 
2.43.0


From 95a72990ccbb86a4f8d3af75f7bbad727c82fddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:42 +0000
Subject: [PATCH 08/80] fix: keep the UTC offset of datetimes, and support
 years before 1000

---
 teleprox/serializer.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/teleprox/serializer.py b/teleprox/serializer.py
index 47c91a0..c79c94c 100644
--- a/teleprox/serializer.py
+++ b/teleprox/serializer.py
@@ -123,10 +123,10 @@ class Serializer:
             return ser
         elif isinstance(obj, datetime.datetime):
             return {encode_key: 'datetime',
-                    'data': obj.strftime('%Y-%m-%dT%H:%M:%S.%f')}
+                    'data': obj.isoformat()}
         elif isinstance(obj, datetime.date):
             return {encode_key: 'date',
-                    'data': obj.strftime('%Y-%m-%d')}
+                    'data': obj.isoformat()}
         elif isinstance(obj, tuple):
             return {encode_key: 'tuple', 'data': list(obj)}
         elif obj is None:
@@ -177,9 +177,9 @@ class Serializer:
             elif type_name == 'np_number':
                 return dct['dtype'].type(dct['value'])
             elif type_name == 'datetime':
-                return datetime.datetime.strptime(dct['data'], '%Y-%m-%dT%H:%M:%S.%f')
+                return datetime.datetime.fromisoformat(dct['data'])
             elif type_name == 'date':
-                return datetime.datetime.strptime(dct['data'], '%Y-%m-%d').date()
+                return datetime.date.fromisoformat(dct['data'])
             elif type_name == 'tuple':
                 return tuple(dct['data'])
             elif type_name == 'none':
-- 
2.43.0


From 90ee88241b5477f53b8c20e33caf1a0f6aee7edc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:42 +0000
Subject: [PATCH 09/80] fix: a result that cannot be decoded fails its own
 request

The error was raised from whichever call happened to be waiting, and the request itself never completed.
---
 teleprox/client.py     | 14 +++++++++++---
 teleprox/serializer.py | 12 ++++++++++++
 2 files changed, 23 insertions(+), 3 deletions(-)

diff --git a/teleprox/client.py b/teleprox/client.py
index 92f73bb..302c454 100644
--- a/teleprox/client.py
+++ b/teleprox/client.py
@@ -526,11 +526,19 @@ class RPCClient(object):
             # seems to work for now.
             self._socket.setsockopt(zmq.RCVTIMEO, timeout)
             msg = self._socket.recv()
-            msg = self.serializer.loads(msg, server=None, proxy_opts=self.default_proxy_options)
         except zmq.error.Again as exc:
             raise TimeoutError("Timeout waiting for Future result.") from None
-        
-        self.process_msg(msg)
+
+        try:
+            loaded = self.serializer.loads(msg, server=None, proxy_opts=self.default_proxy_options)
+        except Exception as exc:
+            # This result cannot be decoded; let only the request it belongs to fail.
+            fut = self.futures.pop(self.serializer.loads_req_id(msg), None)
+            if fut is not None:
+                fut.set_exception(exc)
+            return
+
+        self.process_msg(loaded)
 
     def _read_and_process_all(self):
         # process all messages until none are immediately available.
diff --git a/teleprox/serializer.py b/teleprox/serializer.py
index c79c94c..edd5060 100644
--- a/teleprox/serializer.py
+++ b/teleprox/serializer.py
@@ -100,6 +100,12 @@ class Serializer:
         return (type(obj) is np.ndarray and not obj.dtype.hasobject 
                 and obj.dtype.names is None and obj.dtype.kind != 'V')
 
+    def loads_req_id(self, msg):
+        """Return only the request ID of a serialized result (works for messages whose
+        other content cannot be decoded).
+        """
+        raise NotImplementedError()
+
     def encode(self, obj):
         """Convert various types to serializable objects.
         
@@ -260,6 +266,9 @@ class MsgpackSerializer(Serializer):
         #Return lists/tuples as lists because json can't be configured otherwise
         return msgpack.loads(msg, object_hook=self.decode, strict_map_key=False)
 
+    def loads_req_id(self, msg):
+        return msgpack.loads(msg, object_hook=lambda dct: dct.get('req_id'), strict_map_key=False)
+
 if HAVE_MSGPACK:
     all_serializers[MsgpackSerializer.type] = MsgpackSerializer
 
@@ -292,6 +301,9 @@ class JsonSerializer(Serializer):
         self._proxy_opts = proxy_opts
         return json.loads(msg.decode(), object_hook=self.decode)
 
+    def loads_req_id(self, msg):
+        return json.loads(msg.decode(), object_hook=lambda dct: dct.get('req_id'))
+
     def encode(self, obj):
         if HAVE_NUMPY and self._is_plain_array(obj):
             # JSON doesn't support bytes, so we use base64 encoding instead:
-- 
2.43.0


From 29b97bcc0f2f1f84fe946f83622f7a95360c2441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:42 +0000
Subject: [PATCH 10/80] fix: keep serving after a request that names an
 unsupported serializer

---
 teleprox/server.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/teleprox/server.py b/teleprox/server.py
index c834264..2b10bdc 100644
--- a/teleprox/server.py
+++ b/teleprox/server.py
@@ -274,16 +274,18 @@ class RPCServer(object):
         action = msg['action']
         req_id = msg['req_id']
         return_type = msg.get('return_type', 'auto')
-        
+
+        if ser_type not in self._serializers:
+            # There is no way to send a result that this caller would understand
+            logger.error("Ignoring request from %r: unsupported serializer '%s'", caller, ser_type)
+            return
+
         # remember this caller so we can deliver a disconnect message later
         self._clients[caller] = ser_type
         
         # Attempt to read message and invoke requested action
         try:
-            try:
-                serializer = self._serializers[ser_type]
-            except KeyError:
-                raise ValueError("Unsupported serializer '%s'" % ser_type)
+            serializer = self._serializers[ser_type]
             opts = msg.pop('opts', None)
             
             logger.debug("RPC recv '%s' from %s [req_id=%s]", action, caller.decode(), req_id)
-- 
2.43.0


From 280b50a0b14946eba4724085b040be4e8d07da5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:42 +0000
Subject: [PATCH 11/80] fix: keep serving after errors that occur while sending
 a result or error message

---
 teleprox/server.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/teleprox/server.py b/teleprox/server.py
index 2b10bdc..2c95135 100644
--- a/teleprox/server.py
+++ b/teleprox/server.py
@@ -305,12 +305,12 @@ class RPCServer(object):
         if req_id >= 0:
             if exc is None:
                 #print "returnValue:", returnValue, result
-                if return_type == 'auto':
-                    result = self.auto_proxy(result, self.serialize_types)
-                elif return_type == 'proxy':
-                    result = self.get_proxy(result)
-                
                 try:
+                    if return_type == 'auto':
+                        result = self.auto_proxy(result, self.serialize_types)
+                    elif return_type == 'proxy':
+                        result = self.get_proxy(result)
+
                     self._send_result(caller, req_id, rval=result)
                 except:
                     logger.warning("    => Failed to send result for %d", req_id) 
@@ -333,6 +333,8 @@ class RPCServer(object):
         exc_str += traceback.format_stack()
         exc_str += [" < exception caught here >\n"]
         exc_str += traceback.format_exception(*exc)
+        # messages may contain characters that cannot be encoded (eg from file names)
+        exc_str = [line.encode('utf-8', 'backslashreplace').decode('utf-8') for line in exc_str]
         self._send_result(caller, req_id, error=(exc[0].__name__, exc_str))
     
     def _send_result(self, caller, req_id, rval=None, error=None):
-- 
2.43.0


From effbbf9a99995327caadfe16521701797ad1fe0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:42 +0000
Subject: [PATCH 12/80] fix: RPCClient.call_obj() without args or kwargs

---
 teleprox/server.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/teleprox/server.py b/teleprox/server.py
index 2c95135..b5da693 100644
--- a/teleprox/server.py
+++ b/teleprox/server.py
@@ -355,8 +355,8 @@ class RPCServer(object):
         """
         if action == 'call_obj':
             obj = opts['obj']
-            fnargs = opts.get('args', ())
-            fnkwds = opts.get('kwargs', {})
+            fnargs = opts.get('args') or ()
+            fnkwds = opts.get('kwargs') or {}
             
             if len(fnkwds) == 0:  ## need to do this because some functions do not allow keyword arguments.
                 try:
-- 
2.43.0


From a2fb0930a68d2a316d3fc62440f0c6035849df2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:42 +0000
Subject: [PATCH 13/80] fix: attribute proxies do not release the reference
 held by their parent (auto_delete)

---
 teleprox/proxy.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/teleprox/proxy.py b/teleprox/proxy.py
index 4bff2f3..40ad184 100644
--- a/teleprox/proxy.py
+++ b/teleprox/proxy.py
@@ -291,6 +291,8 @@ class ObjectProxy(object):
         is deferred.
         """
         opts = self._proxy_options.copy()
+        # the reference belongs to the parent proxy
+        opts['auto_delete'] = False
         opts.update(kwds)
         proxy = ObjectProxy(self._rpc_addr, self._obj_id, self._ref_id, 
                             self._type_str, self._attributes + (attr,), **opts)
-- 
2.43.0


From 480228829b365dc70451797f0f937c8c3171780a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:42 +0000
Subject: [PATCH 14/80] fix: copying a proxy to a remote attribute (used by
 Timer)

---
 teleprox/proxy.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/teleprox/proxy.py b/teleprox/proxy.py
index 40ad184..1c937f0 100644
--- a/teleprox/proxy.py
+++ b/teleprox/proxy.py
@@ -140,10 +140,10 @@ class ObjectProxy(object):
         # Return a copy of this proxy. 
         # This is used for transferring proxies across threads (because an
         # ObjectProxy should only be used in one thread.
+        # The copy keeps the original alive, since that owns the reference to the object.
         prox = ObjectProxy(self._rpc_addr, self._obj_id, self._ref_id, self._type_str, 
-                           self._attributes, **self._proxy_options)
-        if self._parent_proxy is not None:
-            prox._parent_proxy = self._parent_proxy.copy()
+                           self._attributes, **dict(self._proxy_options, auto_delete=False))
+        prox.__dict__['_parent_proxy'] = self
         return prox
 
     def _client(self):
-- 
2.43.0


From d2be49f98ba31e87d3d012224810bfe8f9206919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:42 +0000
Subject: [PATCH 15/80] fix: a deleted proxy (and its copies) can no longer be
 used

As documented in RPCClient.delete.
---
 teleprox/server.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/teleprox/server.py b/teleprox/server.py
index b5da693..dabb0fb 100644
--- a/teleprox/server.py
+++ b/teleprox/server.py
@@ -222,10 +222,12 @@ class RPCServer(object):
         """
         try:
             oid = proxy._obj_id
-            obj = self._proxy_refs[oid][0]
+            obj, refs = self._proxy_refs[oid]
+            if proxy._ref_id not in refs:
+                raise KeyError(oid)
         except KeyError:
             raise KeyError("Invalid proxy object ID %r. The object may have "
-                           "been released already." % proxy.obj_id)
+                           "been released already." % proxy._obj_id)
         for attr in proxy._attributes:
             obj = getattr(obj, attr)
         #logger.debug("server %s unwrap proxy %d: %s", self.address, oid, obj)
-- 
2.43.0


From 81224ec715053ab33a12cab6fcb60e8eed5520ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:42 +0000
Subject: [PATCH 16/80] fix: proxies of different attributes of one object are
 not equal; reflected xor

---
 teleprox/proxy.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/teleprox/proxy.py b/teleprox/proxy.py
index 1c937f0..458e853 100644
--- a/teleprox/proxy.py
+++ b/teleprox/proxy.py
@@ -435,7 +435,8 @@ class ObjectProxy(object):
         # we can immediately return True.
         if (isinstance(args[0], ObjectProxy) and 
             args[0]._rpc_addr == self._rpc_addr and
-            args[0]._obj_id == self._obj_id):
+            args[0]._obj_id == self._obj_id and
+            args[0]._attributes == self._attributes):
             return True
         return self._deferred_attr('__eq__')(*args)
     
@@ -509,7 +510,7 @@ class ObjectProxy(object):
         return self._deferred_attr('__ror__')(*args)
         
     def __rxor__(self, *args):
-        return self._deferred_attr('__ror__')(*args)
+        return self._deferred_attr('__rxor__')(*args)
         
     def __rmod__(self, *args):
         return self._deferred_attr('__rmod__')(*args)
-- 
2.43.0


From 945ba6ccfad98c8726cadd94befbd1463ef4f6ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:42 +0000
Subject: [PATCH 17/80] fix: evaluate operators that the proxied object leaves
 to the other operand

For example int_proxy == 1.0 and int_proxy + 1.5 returned a proxy to NotImplemented.
---
 teleprox/server.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/teleprox/server.py b/teleprox/server.py
index dabb0fb..234a740 100644
--- a/teleprox/server.py
+++ b/teleprox/server.py
@@ -9,6 +9,7 @@ import builtins
 import zmq
 import logging
 import atexit
+import operator
 
 from . import serializer
 from .proxy import ObjectProxy
@@ -352,6 +353,19 @@ class RPCServer(object):
         data = serializer.dumps(result, server=self, serialize_types=self.serialize_types)
         self._socket.send_multipart([caller, data])
 
+    @staticmethod
+    def _complete_operator(method, args):
+        # A special method like __add__ has returned NotImplemented, which means that python
+        # should ask the other operand: evaluate the complete operator expression instead.
+        name = getattr(method, '__name__', '')
+        owner = getattr(method, '__self__', None)
+        if name[:2] == '__' and len(args) == 1 and owner is not None:
+            if hasattr(operator, name):
+                return getattr(operator, name)(owner, args[0])
+            if name[:3] == '__r' and hasattr(operator, '__' + name[3:]):
+                return getattr(operator, '__' + name[3:])(args[0], owner)
+        return NotImplemented
+
     def process_action(self, action, opts, return_type, caller):
         """Invoke a single action and return the result.
         """
@@ -368,6 +382,8 @@ class RPCServer(object):
                     raise
             else:
                 result = obj(*fnargs, **fnkwds)
+            if result is NotImplemented:
+                result = self._complete_operator(obj, fnargs)
             #logger.debug("    => call_obj result: %r", result)
         elif action == 'get_obj':
             result = opts['obj']
-- 
2.43.0


From c0978c0badead26ae8d2d8692587b8640ef23fcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:42 +0000
Subject: [PATCH 18/80] fix: close_server() returns True if another client
 closes the server at the same time

---
 teleprox/client.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/teleprox/client.py b/teleprox/client.py
index 302c454..3c7efc1 100644
--- a/teleprox/client.py
+++ b/teleprox/client.py
@@ -580,9 +580,8 @@ class RPCClient(object):
                 self._server_disconnected()
         except RuntimeError:
             # might have already disconnected before this request finished.
-            if self.disconnected():
-                pass
-            raise
+            if not self.disconnected():
+                raise
     
     def _server_disconnected(self):
         # server has disconnected; inform all pending futures.
@@ -623,7 +622,13 @@ class RPCClient(object):
         """
         if self.disconnected():
             return True
-        return self.send('close', sync=sync, timeout=timeout, **kwds)
+        try:
+            return self.send('close', sync=sync, timeout=timeout, **kwds)
+        except RuntimeError:
+            if self._disconnected:
+                # another client closed the server in the meantime
+                return True
+            raise
 
     def measure_clock_diff(self):
         """Measure the clock offset between this host and the remote host.
-- 
2.43.0


From 59b760a6fad59e3c5fe1f4334546eb843fada666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:24 +0000
Subject: [PATCH 19/80] fix: report errors that occur while starting a server
 in a new process

The error handler itself failed, so the spawner timed out (or the process stayed alive) instead of showing the error.
---
 teleprox/bootstrap.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/teleprox/bootstrap.py b/teleprox/bootstrap.py
index 0ed3594..b412067 100644
--- a/teleprox/bootstrap.py
+++ b/teleprox/bootstrap.py
@@ -91,7 +91,7 @@ try:
     server = server_class(conf['listen_addr'])
     status = {'address': server.address.decode(), 'pid': os.getpid()}
 except:
-    logger.error("Error starting {class_name} with args: {args}:".format(**conf))
+    logger.error("Error starting %s with args: %s", conf['class_name'], conf)
     status = {'error': traceback.format_exception(*sys.exc_info()), 'pid': os.getpid()}
     
 # Report server status to spawner
@@ -118,7 +118,7 @@ if conf['bootstrap_addr'] is not None:
 if 'address' in status:
     server.run_forever()
     
-if conf['qt']:
+if conf['qt'] and 'address' in status:
     try:
         app.exec()
     except AttributeError:
-- 
2.43.0


From f9ba5a8ef451d6ef8abc68fc08b93034511dfde3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:24 +0000
Subject: [PATCH 20/80] fix: start_process does not leave a process behind when
 it fails

---
 teleprox/process.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/teleprox/process.py b/teleprox/process.py
index a904f1f..5c2ccb3 100644
--- a/teleprox/process.py
+++ b/teleprox/process.py
@@ -220,6 +220,10 @@ def start_process(name=None, address="tcp://127.0.0.1:*", qt=False, log_addr=Non
     try:
         status = bootstrap_sock.recv_json()
     except zmq.error.Again:
+        bootstrap_sock.close()
+        if proc is not None:
+            proc.kill()
+            proc.wait()
         raise TimeoutError("Timed out waiting for response from spawned process.")
     logger.debug("recv status %s", status)
     bootstrap_sock.send(b'OK')
@@ -228,11 +232,21 @@ def start_process(name=None, address="tcp://127.0.0.1:*", qt=False, log_addr=Non
     if 'address' in status:
         address = status['address']
         #: An RPCClient instance that is connected to the RPCServer in the remote process
-        client = RPCClient(address.encode(), serializer=serializer, start_local_server=start_local_server)
+        try:
+            client = RPCClient(address.encode(), serializer=serializer, start_local_server=start_local_server)
+        except BaseException:
+            # don't leave behind a process that nobody has access to
+            if proc is None:
+                kill_pid(status['pid'])
+            else:
+                proc.kill()
+                proc.wait()
+            raise
     else:
         err = ''.join(status['error'])
-        if proc is not None and proc.poll() is not None:
+        if proc is not None:
             proc.kill()
+            proc.wait()
         raise RuntimeError(f"Error while spawning process:\n{err}")
 
     if daemon is True:
-- 
2.43.0


From 803163f6857c8a6ca7aa7c4b232ff038990f6ce2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:24 +0000
Subject: [PATCH 21/80] fix: a new process exits if its spawner never answers

---
 teleprox/bootstrap.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/teleprox/bootstrap.py b/teleprox/bootstrap.py
index b412067..505ff14 100644
--- a/teleprox/bootstrap.py
+++ b/teleprox/bootstrap.py
@@ -111,6 +111,9 @@ if conf['bootstrap_addr'] is not None:
         except zmq.error.Again:
             time.sleep(0.01)
             continue
+    else:
+        # the spawner has given up or died, so nobody knows about this process
+        sys.exit(1)
 
     bootstrap_sock.close()
 
-- 
2.43.0


From b9b94833dbd66bb46d95c4131df242332f254de7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:24 +0000
Subject: [PATCH 22/80] fix: start_process accepts addresses as str or bytes,
 as documented

---
 teleprox/process.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/teleprox/process.py b/teleprox/process.py
index 5c2ccb3..398c7f1 100644
--- a/teleprox/process.py
+++ b/teleprox/process.py
@@ -118,6 +118,8 @@ def start_process(name=None, address="tcp://127.0.0.1:*", qt=False, log_addr=Non
     assert log_addr is None or isinstance(log_addr, (str, bytes)), f"log_addr must be str or None; got {repr(log_addr)}"
     if log_addr is None and not daemon:
         log_addr = get_logger_address()
+    if isinstance(log_addr, str):
+        log_addr = log_addr.encode()
     assert log_level is None or isinstance(log_level, (int, str)), f"log_level must be int, str, or None; got {repr(log_level)}"
     if log_level is None:
         log_level = logger.getEffectiveLevel()
@@ -155,6 +157,8 @@ def start_process(name=None, address="tcp://127.0.0.1:*", qt=False, log_addr=Non
             f'--logaddr={log_addr.decode()}',
             f'--loglevel={log_level}',
         ])
+    if isinstance(address, bytes):
+        address = address.decode()
     bootstrap_args.extend([
         f'--listen_addr={address}',
         f'--bootstrap_addr={bootstrap_addr.decode()}',
-- 
2.43.0


From 3e324ff2de316a1fbe1b0e04abf2fce7c043a121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:24 +0000
Subject: [PATCH 23/80] fix: start_process applies log_level without a log
 server

---
 teleprox/process.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/teleprox/process.py b/teleprox/process.py
index 398c7f1..385db44 100644
--- a/teleprox/process.py
+++ b/teleprox/process.py
@@ -121,6 +121,7 @@ def start_process(name=None, address="tcp://127.0.0.1:*", qt=False, log_addr=Non
     if isinstance(log_addr, str):
         log_addr = log_addr.encode()
     assert log_level is None or isinstance(log_level, (int, str)), f"log_level must be int, str, or None; got {repr(log_level)}"
+    log_level_given = log_level is not None
     if log_level is None:
         log_level = logger.getEffectiveLevel()
     elif isinstance(log_level, str):
@@ -153,10 +154,9 @@ def start_process(name=None, address="tcp://127.0.0.1:*", qt=False, log_addr=Non
     if daemon is True:
         bootstrap_args.append('--daemon')
     if log_addr is not None:
-        bootstrap_args.extend([
-            f'--logaddr={log_addr.decode()}',
-            f'--loglevel={log_level}',
-        ])
+        bootstrap_args.append(f'--logaddr={log_addr.decode()}')
+    if log_addr is not None or log_level_given:
+        bootstrap_args.append(f'--loglevel={log_level}')
     if isinstance(address, bytes):
         address = address.decode()
     bootstrap_args.extend([
-- 
2.43.0


From fa3d4e581d82cd3d25b63afd781f5903dcca1b95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:24 +0000
Subject: [PATCH 24/80] fix: quote arguments when starting a process via the
 shell

---
 teleprox/process.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/teleprox/process.py b/teleprox/process.py
index 385db44..a4bb1e5 100644
--- a/teleprox/process.py
+++ b/teleprox/process.py
@@ -4,6 +4,7 @@
 
 import sys
 import json
+import shlex
 import subprocess
 import atexit
 from teleprox.log.remote import get_process_name, set_thread_name
@@ -182,7 +183,10 @@ def start_process(name=None, address="tcp://127.0.0.1:*", qt=False, log_addr=Non
         cmd = ('conda', 'run', '--no-capture-output', '-n', conda_env) + cmd
     
     if shell is True:
-        cmd = ' '.join(cmd)
+        # quote only what we have added; the executable may be any shell command
+        quote = (lambda arg: subprocess.list2cmdline([arg])) if sys.platform == 'win32' else shlex.quote
+        n = len(cmd) - len(bootstrap_args)
+        cmd = ' '.join(cmd[:n] + tuple(quote(arg) for arg in bootstrap_args))
 
     popen_kwargs = {
         'stdin': stdin or subprocess.DEVNULL,
-- 
2.43.0


From d33514d8472e6f07f061e153316578f23147a183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:22 +0000
Subject: [PATCH 25/80] fix: forward all kinds of log records

The thread of LogSender died from records with exc_info, extra attributes that are not JSON serializable, messages that are not a string or do not fit their arguments; and arguments were formatted too late.
---
 teleprox/log/remote.py | 44 ++++++++++++++++++++++++++++++++----------
 1 file changed, 34 insertions(+), 10 deletions(-)

diff --git a/teleprox/log/remote.py b/teleprox/log/remote.py
index f486ab5..026f954 100644
--- a/teleprox/log/remote.py
+++ b/teleprox/log/remote.py
@@ -157,9 +157,13 @@ class LogSender(logging.Handler):
             
         atexit.register(self.close)
 
-    def handle(self, record):
-        self.record_queue.put(record)
-        return True
+    def emit(self, record):
+        # Collect everything to be sent immediately, because the objects that are referenced
+        # by the record may change (and process / thread names are known here)
+        try:
+            self.record_queue.put(self._prepare(record))
+        except Exception:
+            self.handleError(record)
 
     def run(self):
         while True:
@@ -168,19 +172,39 @@ class LogSender(logging.Handler):
                 break
             self._handle(record)
 
-    def _handle(self, record):
+    def _prepare(self, record):
+        # Return the serialized record
         global host_name, process_name, thread_names
-        if self.socket is None:
-            return
         rec = record.__dict__.copy()
-        args = rec.pop('args')
-        if len(args) > 0:
-            rec['msg'] = rec['msg'] % args
+        rec.pop('args')
+        try:
+            rec['msg'] = record.getMessage()
+        except Exception:
+            # message does not fit its arguments; still send what we know
+            rec['msg'] = '%s %r' % (record.msg, record.args)
+        # tracebacks can only be sent as text
+        if rec['exc_info'] and not rec['exc_text']:
+            rec['exc_text'] = logging.Formatter().formatException(rec['exc_info'])
+        rec['exc_info'] = None
         if process_name is not None:
             rec['process_name'] = process_name
         rec['thread_name'] = thread_names.get(rec['thread'], rec['threadName'])
         rec['host_name'] = host_name
-        self.socket.send(json.dumps(rec).encode('utf-8'))
+        try:
+            return json.dumps(rec, default=str).encode('utf-8')
+        except Exception:
+            # extra attributes may be of any type
+            for key, val in rec.items():
+                try:
+                    json.dumps(val, default=str)
+                except Exception:
+                    rec[key] = object.__repr__(val)
+            return json.dumps(rec, default=str).encode('utf-8')
+
+    def _handle(self, rec):
+        if self.socket is None:
+            return
+        self.socket.send(rec)
         
     def connect(self, addr):
         """Set the address of the LogServer to which log messages should be
-- 
2.43.0


From 54a980ac9a85b414de672846213ed21e84956416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:22 +0000
Subject: [PATCH 26/80] fix: LogSender sends all queued records before it
 closes, and can be reconnected while sending

---
 teleprox/log/remote.py | 40 ++++++++++++++++++++++++++++------------
 1 file changed, 28 insertions(+), 12 deletions(-)

diff --git a/teleprox/log/remote.py b/teleprox/log/remote.py
index 026f954..1a3d5fc 100644
--- a/teleprox/log/remote.py
+++ b/teleprox/log/remote.py
@@ -10,6 +10,7 @@ import zmq
 import logging
 import atexit
 import json
+import time
 
 logger = logging.getLogger(__name__)
 
@@ -138,6 +139,7 @@ class LogSender(logging.Handler):
     """
     def __init__(self, address=None, logger=None):
         self.socket = None
+        self.socket_lock = threading.Lock()  # the socket is used by multiple threads
         logging.Handler.__init__(self)
         
         # attach to logger if requested
@@ -202,30 +204,44 @@ class LogSender(logging.Handler):
             return json.dumps(rec, default=str).encode('utf-8')
 
     def _handle(self, rec):
-        if self.socket is None:
-            return
-        self.socket.send(rec)
+        while True:
+            # never block while holding the lock, so it is always possible to connect elsewhere
+            with self.socket_lock:
+                if self.socket is None:
+                    return
+                try:
+                    self.socket.send(rec, zmq.NOBLOCK)
+                    return
+                except zmq.error.Again:
+                    pass
+            time.sleep(0.02)
         
     def connect(self, addr):
         """Set the address of the LogServer to which log messages should be
         sent. This value should be acquired from `log_server.address` or
         `get_logger_address()`.
         """
-        if self.socket is not None:
-            self.socket.close()
+        with self.socket_lock:
+            if self.socket is not None:
+                self.socket.close()
 
-        self.socket = zmq.Context.instance().socket(zmq.PUSH)
-        self.socket.linger = 1000  # don't let socket deadlock when exiting
-        self.socket.connect(addr)
+            self.socket = zmq.Context.instance().socket(zmq.PUSH)
+            self.socket.linger = 1000  # don't let socket deadlock when exiting
+            self.socket.connect(addr)
 
     def close(self):
         # if this socket is left open when the process exits, it can lead to
         # deadlock.
         self.record_queue.put(None)
-        socket, self.socket = self.socket, None
-        if socket is not None:
-            socket.close()
-        
+        # send the remaining records first (but don't wait forever)
+        if self.thread is not threading.current_thread():
+            self.thread.join(timeout=1.0)
+        with self.socket_lock:
+            socket, self.socket = self.socket, None
+            if socket is not None:
+                socket.close()
+        logging.Handler.close(self)
+
 
 class LogServer(threading.Thread):
     """Thread for receiving log records via zmq socket from a LogSender.
-- 
2.43.0


From 655a9ced4b387c41bfb20a44dc69b78423e84be6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:22 +0000
Subject: [PATCH 27/80] fix: LogServer survives exceptions raised by handlers
 and filters

---
 teleprox/log/remote.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/teleprox/log/remote.py b/teleprox/log/remote.py
index 1a3d5fc..250c39f 100644
--- a/teleprox/log/remote.py
+++ b/teleprox/log/remote.py
@@ -11,6 +11,7 @@ import logging
 import atexit
 import json
 import time
+import traceback
 
 logger = logging.getLogger(__name__)
 
@@ -302,5 +303,10 @@ class LogServer(threading.Thread):
             rec = logging.makeLogRecord(kwds)
             if self.filter_by_level and rec.levelno < self.logger.getEffectiveLevel():
                 continue
-            self.logger.handle(rec)
+            try:
+                self.logger.handle(rec)
+            except Exception:
+                # an error in a handler or filter must not end this thread
+                if logging.raiseExceptions:
+                    traceback.print_exc()
         self.socket.close()
-- 
2.43.0


From a9b6d165644d5865ec4f1583a73be4b9155f9635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:22 +0000
Subject: [PATCH 28/80] fix: RPCLogHandler shows the host name of remote
 records

---
 teleprox/log/handler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/teleprox/log/handler.py b/teleprox/log/handler.py
index a612dd7..b3d8fa9 100644
--- a/teleprox/log/handler.py
+++ b/teleprox/log/handler.py
@@ -103,7 +103,7 @@ class RPCLogHandler(logging.StreamHandler):
         return header + ' ' + message
 
     def get_thread_header(self, record):
-        hid = getattr(record, 'hostname', get_host_name())
+        hid = getattr(record, 'host_name', get_host_name())
         pid = getattr(record, 'process_name', get_process_name())
         tid = getattr(record, 'thread_name', get_thread_name(record.thread))
         key = (hid, pid, tid)
-- 
2.43.0


From 69dc0cd3fd8b9d839265646175c1ead3e88511a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:22 +0000
Subject: [PATCH 29/80] fix: RPCLogHandler.flush_records keeps the order of
 records and waits for those being written

---
 teleprox/log/handler.py | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/teleprox/log/handler.py b/teleprox/log/handler.py
index b3d8fa9..2b9e896 100644
--- a/teleprox/log/handler.py
+++ b/teleprox/log/handler.py
@@ -60,6 +60,8 @@ class RPCLogHandler(logging.StreamHandler):
         # by creation time.
         self.delay = 0.2
         self.record_lock = threading.Lock()
+        # held while collecting and writing records, to keep them in order
+        self.write_lock = threading.RLock()
         self.records = []
         self.thread = threading.Thread(target=self.poll_records, daemon=True)
         self.thread.start()
@@ -81,15 +83,15 @@ class RPCLogHandler(logging.StreamHandler):
             # collect all records more than 0.5 sec old
             limit = time.time() - self.delay
             recs = []
-            with self.record_lock:
-                while len(self.records) > 0 and self.records[0].created < limit:
-                    recs.append(self.records.pop(0))
-                    
-            # emit records or sleep
-            if len(recs) > 0:
+            with self.write_lock:
+                with self.record_lock:
+                    while len(self.records) > 0 and self.records[0].created < limit:
+                        recs.append(self.records.pop(0))
+
                 for rec in recs:
                     logging.StreamHandler.emit(self, rec)
-            else:
+
+            if len(recs) == 0:
                 time.sleep(0.2)
 
     def format(self, record):
@@ -117,11 +119,13 @@ class RPCLogHandler(logging.StreamHandler):
         return header
 
     def flush_records(self):
-        with self.record_lock:
-            recs = self.records[:]
-            self.records = []
-        for rec in recs:
-            logging.StreamHandler.emit(self, rec)
+        # the lock also makes sure that records being written by the thread are not lost at exit
+        with self.write_lock:
+            with self.record_lock:
+                recs = self.records[:]
+                self.records = []
+            for rec in recs:
+                logging.StreamHandler.emit(self, rec)
 
 
 _sys_excepthook = None
-- 
2.43.0


From b562b429d59c4ad9b98dfd0f70420824f86b5880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:22 +0000
Subject: [PATCH 30/80] fix: capture stdio lines that are not UTF-8 or not
 terminated by a newline

After a line that was not UTF-8, the pipe was not read any more and the process would block.
---
 teleprox/log/stdio.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/teleprox/log/stdio.py b/teleprox/log/stdio.py
index 4d99c5d..592d4eb 100644
--- a/teleprox/log/stdio.py
+++ b/teleprox/log/stdio.py
@@ -18,10 +18,12 @@ class PipePoller(threading.Thread):
         prefix = self.prefix
         pipe = self.pipe
         while True:
-            line = pipe.readline().decode()
+            line = pipe.readline().decode(errors='backslashreplace')
             if line == '':
                 break
-            callback(prefix + line[:-1])
+            if line.endswith('\n'):
+                line = line[:-1]
+            callback(prefix + line)
 
 
 class StdioLogSender:
-- 
2.43.0


From b4a3bce0269bbd31d632a2899ab35fbc5c8443fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:22 +0000
Subject: [PATCH 31/80] fix: ChildProcess.wait() does not steal the output that
 is captured for logging

---
 teleprox/log/stdio.py | 6 ++++++
 teleprox/process.py   | 7 ++++++-
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/teleprox/log/stdio.py b/teleprox/log/stdio.py
index 592d4eb..4318ade 100644
--- a/teleprox/log/stdio.py
+++ b/teleprox/log/stdio.py
@@ -49,3 +49,9 @@ class StdioLogSender:
         self.stdout_poller = PipePoller(proc.stdout, self.logger.info, f'[{name}.stdout] ', name='stdout')
         self.stderr_poller = PipePoller(proc.stderr, self.logger.warning, f'[{name}.stderr] ', name='stderr')
 
+    def join(self, timeout=None):
+        """Wait until all output of the process has been logged (the process must have exited).
+        """
+        self.stdout_poller.join(timeout)
+        self.stderr_poller.join(timeout)
+
diff --git a/teleprox/process.py b/teleprox/process.py
index a4bb1e5..3310cd1 100644
--- a/teleprox/process.py
+++ b/teleprox/process.py
@@ -308,7 +308,12 @@ class ChildProcess:
         # see: https://docs.python.org/2/library/subprocess.html#subprocess.Popen.wait
         try:
             # Turns out communicate() can deadlock too
-            self.proc.communicate(timeout=timeout)
+            if self.stdio_logger is None:
+                self.proc.communicate(timeout=timeout)
+            else:
+                # the pipes are read by stdio_logger; communicate() would steal its input
+                self.proc.wait(timeout=timeout)
+                self.stdio_logger.join(timeout=1.0)
         except (AttributeError, ValueError):
             # Python bug: http://bugs.python.org/issue30203
             # Calling communicate on process with closed i/o can generate
-- 
2.43.0


From d809c091b9708069df79bbcc3db52083a49a50f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:12 +0000
Subject: [PATCH 32/80] fix: a Timer can be started again after it has stopped
 or finished

---
 teleprox/timer.py | 31 +++++++++++++++++++++----------
 1 file changed, 21 insertions(+), 10 deletions(-)

diff --git a/teleprox/timer.py b/teleprox/timer.py
index 501396a..b7564d3 100644
--- a/teleprox/timer.py
+++ b/teleprox/timer.py
@@ -24,7 +24,9 @@ class Timer(object):
         Whether to immediately start the timer.
     """
     def __init__(self, callback, interval, limit=None, start=False):
-        self.thread = threading.Thread(target=self._run, daemon=True)
+        self.thread = None
+        self.running = False
+        self._run_id = None
         self.callback = callback
         self.interval = float(interval)
         self.limit = limit
@@ -42,23 +44,28 @@ class Timer(object):
         invocations.
         """
         with self._lock:
-            self.running = True
             self._last_call_time = None
             self._call_count = 0
-        
-        if self.thread.is_alive():
-            return
-        else:
+            if self.running:
+                return
+            self.running = True
+            self._run_id = object()
+            # a previous thread may still be finishing its last callback
+            self.thread = threading.Thread(target=self._run, args=(self._run_id, self.thread), daemon=True)
             self.thread.start()
-        
+
+
     def stop(self):
         """Stop the timer.
         """
         with self._lock:
             self.running = False
         
-    def _run(self):
+    def _run(self, run_id, previous_thread):
         try:
+            if previous_thread is not None:
+                previous_thread.join()
+
             callback = self.callback
             if isinstance(callback, ObjectProxy):
                 # Make sure we are using a proxy owned by this thread
@@ -74,16 +81,20 @@ class Timer(object):
                     time.sleep(sleep_time)
                     
                 with self._lock:
-                    if not self.running:
+                    if not self.running or self._run_id is not run_id:
                         return
                     self._last_call_time = time.perf_counter()
                     
                 callback()
                 
                 with self._lock:
+                    if self._run_id is not run_id:
+                        return
                     self._call_count += 1
                     if self.limit is not None and self._call_count >= self.limit:
+                        self.running = False
                         return
         finally:
             with self._lock:
-                self.running = False
+                if self._run_id is run_id:
+                    self.running = False
-- 
2.43.0


From 16461aa0b9378b22c4a39b3147bc84767e6a0103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:12 +0000
Subject: [PATCH 33/80] fix: close_all() only closes shared memory that is
 meant to be closed

Receiving a SharedNDArray and then exiting destroyed the memory of the sender.
---
 teleprox/shmem.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/teleprox/shmem.py b/teleprox/shmem.py
index fde3480..11a6ae8 100644
--- a/teleprox/shmem.py
+++ b/teleprox/shmem.py
@@ -43,7 +43,7 @@ class SharedNDArray:
         self.shmem = shmem
         self.data = data
         self.close = close
-        all_shmem.append(shmem)
+        all_shmem.append(self)
 
     @classmethod
     def zeros(cls, shape, dtype, close=True):
@@ -72,11 +72,15 @@ class SharedNDArray:
 
 def close_all():
     global all_shmem
-    for shmem in all_shmem:
-        if shmem.close:
-            shmem.close()
+    for arr in all_shmem:
+        if arr.close:
             try:
-                shmem.unlink()
+                arr.shmem.close()
+            except BufferError:
+                # arrays using this memory still exist
+                pass
+            try:
+                arr.shmem.unlink()
             except FileNotFoundError:
                 pass
     all_shmem = []
-- 
2.43.0


From 1be04d5140d50ccba3ce7481168877ceacf7950a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:12 +0000
Subject: [PATCH 34/80] fix: SharedNDArray with zero dimensions or zero size

---
 teleprox/shmem.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/teleprox/shmem.py b/teleprox/shmem.py
index 11a6ae8..fa78160 100644
--- a/teleprox/shmem.py
+++ b/teleprox/shmem.py
@@ -48,7 +48,8 @@ class SharedNDArray:
     @classmethod
     def zeros(cls, shape, dtype, close=True):
         """Create a SharedNDArray filled with zeros."""
-        shmem = mp_shm.SharedMemory(create=True, size=np.prod(shape) * np.dtype(dtype).itemsize)
+        size = int(np.prod(shape)) * np.dtype(dtype).itemsize
+        shmem = mp_shm.SharedMemory(create=True, size=max(size, 1))
         data = np.ndarray(shape, dtype=dtype, buffer=shmem.buf)
         data.fill(0)
         return cls(shmem, data, close)
@@ -56,9 +57,9 @@ class SharedNDArray:
     @classmethod
     def copy(cls, arr, close=True):
         """Create a SharedNDArray containing a copy of the given array."""
-        shmem = mp_shm.SharedMemory(create=True, size=arr.nbytes)
+        shmem = mp_shm.SharedMemory(create=True, size=max(arr.nbytes, 1))
         data = np.ndarray(arr.shape, dtype=arr.dtype, buffer=shmem.buf)
-        data[:] = arr[:]
+        data[...] = arr
         return cls(shmem, data, close)
         
     def __reduce__(self):
-- 
2.43.0


From 1141bee9ebd6f3a33e7bfb977e0f749865301bfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:12 +0000
Subject: [PATCH 35/80] fix: SharedNDArray of a view keeps its position in the
 shared memory when it is transferred

---
 teleprox/shmem.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/teleprox/shmem.py b/teleprox/shmem.py
index fa78160..7f2edc8 100644
--- a/teleprox/shmem.py
+++ b/teleprox/shmem.py
@@ -63,11 +63,14 @@ class SharedNDArray:
         return cls(shmem, data, close)
         
     def __reduce__(self):
-        return SharedNDArray.__reload__, (self.shmem, self.data.shape, self.data.dtype, self.data.strides)
+        # data may be a view that begins anywhere in the buffer
+        start = np.frombuffer(self.shmem.buf, dtype='u1').__array_interface__['data'][0]
+        offset = self.data.__array_interface__['data'][0] - start
+        return SharedNDArray.__reload__, (self.shmem, self.data.shape, self.data.dtype, self.data.strides, offset)
     
     @classmethod
-    def __reload__(cls, shmem, shape, dtype, strides):
-        arr = np.ndarray(shape, dtype=dtype, buffer=shmem.buf, strides=strides)
+    def __reload__(cls, shmem, shape, dtype, strides, offset=0):
+        arr = np.ndarray(shape, dtype=dtype, buffer=shmem.buf, strides=strides, offset=offset)
         return SharedNDArray(shmem, arr)
 
 
-- 
2.43.0


From 0b1f62847f1ce653dbb1f3e3c68b310ec524b97a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:12 +0000
Subject: [PATCH 36/80] fix: kill_procs kills the processes that match its
 argument

---
 teleprox/util.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/teleprox/util.py b/teleprox/util.py
index 257ef56..f31d9fe 100644
--- a/teleprox/util.py
+++ b/teleprox/util.py
@@ -66,11 +66,11 @@ def kill_procs(search, wait=5):
 
     return (pid, command) for each killed process
     """
-    procs = find_procs(teleprox.process.PROCESS_NAME_PREFIX)    
+    procs = find_procs(search)
     if not procs:
         return []
     time.sleep(wait)  # wait a little longer for cleanup..
-    procs = find_procs(teleprox.process.PROCESS_NAME_PREFIX)
+    procs = find_procs(search)
     if not procs:
         return []
     for pid, line in procs:
-- 
2.43.0


From 066eb5b34c3fd2dcb5df82dd308550c8c8440902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:12 +0000
Subject: [PATCH 37/80] fix: QtRPCServer does not process any requests after it
 has closed

---
 teleprox/qt_poll_thread.py |  4 +++-
 teleprox/qt_server.py      | 21 +++++++++++++--------
 2 files changed, 16 insertions(+), 9 deletions(-)

diff --git a/teleprox/qt_poll_thread.py b/teleprox/qt_poll_thread.py
index 80095a1..8cce75e 100644
--- a/teleprox/qt_poll_thread.py
+++ b/teleprox/qt_poll_thread.py
@@ -51,7 +51,7 @@ class QtPollThread(qt.QThread):
             if self.return_socket in socks:
                 name, data = self.return_socket.recv_multipart()
                 #logger.debug("poller return %s %s", name, data)
-                if name == 'STOP':
+                if name == b'STOP':
                     break
                 self.rpc_socket.send_multipart([name, data])
                 
@@ -60,6 +60,8 @@ class QtPollThread(qt.QThread):
                 #logger.debug("poller recv %s %s", name, msg)
                 self.new_request.emit(name, msg)
 
+        self.return_socket.close()
+        self.rpc_socket.close()
         #logger.error("poller exit.")
         
     def stop(self):
diff --git a/teleprox/qt_server.py b/teleprox/qt_server.py
index de234b5..cce1294 100644
--- a/teleprox/qt_server.py
+++ b/teleprox/qt_server.py
@@ -1,4 +1,4 @@
-import logging, time
+import logging
 from .server import RPCServer
 from . import log
 
@@ -73,13 +73,18 @@ class QtRPCServer(RPCServer):
                 from teleprox import qt
                 qt.QApplication.instance().quit()
             # can't stop poller thread here--that would prevent the return 
-            # message being sent. In general it should be safe to leave this thread
-            # running anyway.
-            #self.poll_thread.stop()
+            # message being sent (see _final_close)
         return RPCServer.process_action(self, action, opts, return_type, caller)
 
+    def _process_one(self, caller, msg):
+        if self._closed is True:
+            # request was already in the event queue when the server closed
+            return
+        RPCServer._process_one(self, caller, msg)
+
     def _final_close(self):
-        # Block for a moment to allow the poller thread to flush any pending
-        # messages. Ideally, we could let the poller thread keep the process
-        # alive until it is done, but then we can end up with zombie processes..
-        time.sleep(0.1)
+        # Stop the poller thread after it has flushed any pending messages. 
+        self.poll_thread.stop()
+        self.poll_thread.wait(1000)
+        self._socket.close()
+
-- 
2.43.0


From 9bbb3188022e0b83d2ba0a68527b36c552b07e26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:12 +0000
Subject: [PATCH 38/80] fix: notice a Qt library that was imported after an
 earlier failure to find one

---
 teleprox/qt_util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/teleprox/qt_util.py b/teleprox/qt_util.py
index 447157b..d1bd0a3 100644
--- a/teleprox/qt_util.py
+++ b/teleprox/qt_util.py
@@ -15,7 +15,7 @@ def check_qt_imported():
     HAVE_QT : bool | None
         True if a Qt library has been imported, False if none are importable, None if none have been imported yet."""
     global HAVE_QT, QT_LIB
-    if HAVE_QT is None:
+    if not HAVE_QT:
         for qt_lib in qt_lib_order:
             if qt_lib+'.QtCore' in sys.modules or qt_lib+'.QtGui' in sys.modules or qt_lib+'.QtWidgets' in sys.modules:
                 HAVE_QT = True
-- 
2.43.0


From b49ea5ba0ce150046ce4b61b1f593297996cd9a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:12 +0000
Subject: [PATCH 39/80] fix: no error when the server is closed by a reentrant
 request

---
 teleprox/server.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/teleprox/server.py b/teleprox/server.py
index 234a740..5de200a 100644
--- a/teleprox/server.py
+++ b/teleprox/server.py
@@ -304,6 +304,11 @@ class RPCServer(object):
         except:
             exc = sys.exc_info()
 
+        if self._closed is True and action != 'close':
+            # The server was closed while this request was waiting for a reentrant call; the
+            # caller has been informed already.
+            return
+
         # Send result or error back to client
         if req_id >= 0:
             if exc is None:
-- 
2.43.0


From d596eabf2f3a9b7c773cc0436dcd867ed8a66e97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:18 +0000
Subject: [PATCH 40/80] fix: JSON serializer honours serialize_types for arrays
 and bytes

---
 teleprox/serializer.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/teleprox/serializer.py b/teleprox/serializer.py
index edd5060..c47e830 100644
--- a/teleprox/serializer.py
+++ b/teleprox/serializer.py
@@ -305,6 +305,9 @@ class JsonSerializer(Serializer):
         return json.loads(msg.decode(), object_hook=lambda dct: dct.get('req_id'))
 
     def encode(self, obj):
+        if not isinstance(obj, self._serialize_types):
+            # send by proxy
+            return Serializer.encode(self, obj)
         if HAVE_NUMPY and self._is_plain_array(obj):
             # JSON doesn't support bytes, so we use base64 encoding instead:
             return {encode_key: 'ndarray',
-- 
2.43.0


From d6f46167800fc8931f44e0f24a7ceab4f982f4d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:49 +0000
Subject: [PATCH 41/80] fix: operators on proxies are evaluated completely by
 the server (missing special methods, class objects)

---
 teleprox/server.py | 32 ++++++++++++++++++--------------
 1 file changed, 18 insertions(+), 14 deletions(-)

diff --git a/teleprox/server.py b/teleprox/server.py
index 5de200a..c662c12 100644
--- a/teleprox/server.py
+++ b/teleprox/server.py
@@ -230,7 +230,8 @@ class RPCServer(object):
             raise KeyError("Invalid proxy object ID %r. The object may have "
                            "been released already." % proxy._obj_id)
         for attr in proxy._attributes:
-            obj = getattr(obj, attr)
+            func = self._operator_function(obj, attr)
+            obj = getattr(obj, attr) if func is None else func
         #logger.debug("server %s unwrap proxy %d: %s", self.address, oid, obj)
         return obj
 
@@ -359,17 +360,22 @@ class RPCServer(object):
         self._socket.send_multipart([caller, data])
 
     @staticmethod
-    def _complete_operator(method, args):
-        # A special method like __add__ has returned NotImplemented, which means that python
-        # should ask the other operand: evaluate the complete operator expression instead.
-        name = getattr(method, '__name__', '')
-        owner = getattr(method, '__self__', None)
-        if name[:2] == '__' and len(args) == 1 and owner is not None:
-            if hasattr(operator, name):
-                return getattr(operator, name)(owner, args[0])
-            if name[:3] == '__r' and hasattr(operator, '__' + name[3:]):
-                return getattr(operator, '__' + name[3:])(args[0], owner)
-        return NotImplemented
+    def _operator_function(obj, name):
+        # Return a function that evaluates the complete operator expression that the special
+        # method *name* of *obj* takes part in, or None if this is not an operator method.
+        # (the method itself may be missing, return NotImplemented, or belong to instances of *obj*)
+        if name == '__len__':
+            return lambda: len(obj)
+        if name == '__pow__':
+            return lambda *args: pow(obj, *args)
+        if name[:2] == '__' and name[-2:] == '__':
+            func = vars(operator).get(name)
+            if callable(func):
+                return lambda *args: func(obj, *args)
+            func = vars(operator).get('__' + name[3:]) if name[2:3] == 'r' else None
+            if callable(func):
+                return lambda other: func(other, obj)
+        return None
 
     def process_action(self, action, opts, return_type, caller):
         """Invoke a single action and return the result.
@@ -387,8 +393,6 @@ class RPCServer(object):
                     raise
             else:
                 result = obj(*fnargs, **fnkwds)
-            if result is NotImplemented:
-                result = self._complete_operator(obj, fnargs)
             #logger.debug("    => call_obj result: %r", result)
         elif action == 'get_obj':
             result = opts['obj']
-- 
2.43.0


From b29e7797c6bcf06ace2bb96b39d9ea56214df940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:07 +0000
Subject: [PATCH 42/80] fix: receiving a proxy never asks its server for a
 representation (client default safe_print=False)

---
 teleprox/client.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/teleprox/client.py b/teleprox/client.py
index 3c7efc1..1103e24 100644
--- a/teleprox/client.py
+++ b/teleprox/client.py
@@ -556,7 +556,7 @@ class RPCClient(object):
         """
         logger.debug("RPC recv result from %s [req_id=%s]", self.address.decode(), 
                      msg.get('req_id', None))
-        logger.debug("    => %s" % msg)
+        logger.debug("    => %s", msg)
         if msg['action'] == 'return':
             req_id = msg['req_id']
             fut = self.futures.pop(req_id, None)
-- 
2.43.0


From 0f20f595bb52c8d5efb5c8c38095abe699419dc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:12 +0000
Subject: [PATCH 43/80] fix: a client that closes the server without waiting
 for a reply is told about it

---
 teleprox/server.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/teleprox/server.py b/teleprox/server.py
index c662c12..e1b6018 100644
--- a/teleprox/server.py
+++ b/teleprox/server.py
@@ -300,6 +300,10 @@ class RPCServer(object):
                 opts = serializer.loads(opts, server=self, proxy_opts={})
             logger.debug("    => opts: %s", opts)
             
+            if action == 'close' and req_id < 0:
+                # this caller will not be sent a return value, so it must be
+                # informed like all others
+                caller = None
             result = self.process_action(action, opts, return_type, caller)
             exc = None
         except:
-- 
2.43.0


From 5418e31ed6fb9f6ff6a340b69b674f0176f3dbe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:35 +0000
Subject: [PATCH 44/80] fix: sending a request never blocks when the inproc
 server is gone or its queue is full

---
 teleprox/client.py | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/teleprox/client.py b/teleprox/client.py
index 1103e24..7da8389 100644
--- a/teleprox/client.py
+++ b/teleprox/client.py
@@ -304,7 +304,7 @@ class RPCClient(object):
         ser_type = self.serializer.type.encode()
         
         msg = [str(req_id).encode(), action.encode(), return_type.encode(), ser_type, opts_str]
-        self._socket.send_multipart(msg)
+        self._send_message(msg, timeout if sync == 'sync' else None)
         
         if sync == 'off':
             return
@@ -322,6 +322,22 @@ class RPCClient(object):
         else:
             raise ValueError('Invalid sync value: %s' % sync)
 
+    def _send_message(self, msg, timeout):
+        # A message cannot be sent while too many others are waiting to be transmitted, or if
+        # the server's socket is gone (which is permanent for inproc addresses).
+        start = time.perf_counter()
+        while True:
+            try:
+                self._socket.send_multipart(msg, zmq.NOBLOCK)
+                return
+            except zmq.error.Again:
+                pass
+            if self.disconnected():
+                raise RuntimeError("Cannot send request; server has already disconnected.")
+            if timeout is not None and time.perf_counter() - start > timeout:
+                raise TimeoutError("Timeout waiting to send request.")
+            self._socket.poll(20, zmq.POLLOUT)
+
     def call_obj(self, obj, args=None, kwargs=None, **kwds):
         """Invoke a remote callable object.
         
-- 
2.43.0


From 44a8c4a71afcc37c45345032cda6c85420de412e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:25 +0000
Subject: [PATCH 45/80] fix: connecting to a vanished inproc server fails with
 TimeoutError instead of hanging

---
 teleprox/client.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/teleprox/client.py b/teleprox/client.py
index 7da8389..e2c3c8e 100644
--- a/teleprox/client.py
+++ b/teleprox/client.py
@@ -304,7 +304,8 @@ class RPCClient(object):
         ser_type = self.serializer.type.encode()
         
         msg = [str(req_id).encode(), action.encode(), return_type.encode(), ser_type, opts_str]
-        self._send_message(msg, timeout if sync == 'sync' else None)
+        limited = sync == 'sync' or not self.connect_established
+        self._send_message(msg, timeout if limited else None)
         
         if sync == 'off':
             return
@@ -454,8 +455,8 @@ class RPCClient(object):
         try:
             start = time.time()
             while time.time() < start + timeout:
-                fut = self.ping(sync='async')
                 try:
+                    fut = self.ping(sync='async', timeout=0.1)
                     result = fut.result(timeout=0.1)
                     self.connect_established = True
                     return
-- 
2.43.0


From 174a917191221f59c85cba09cfb6dea87a60c0f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:12 +0000
Subject: [PATCH 46/80] fix: stop() also works when the client of the process
 was closed

---
 teleprox/process.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/teleprox/process.py b/teleprox/process.py
index 3310cd1..b865211 100644
--- a/teleprox/process.py
+++ b/teleprox/process.py
@@ -263,6 +263,11 @@ def start_process(name=None, address="tcp://127.0.0.1:*", qt=False, log_addr=Non
         return ChildProcess(proc, client, name, qt, stdio_logger)
 
 
+def _open_client(client):
+    # The client of a process may have been closed by the user
+    return RPCClient.get_client(client.address) if client._socket.closed else client
+
+
 class DaemonProcess:
     def __init__(self, client, name, qt, pid):
         self.client = client
@@ -274,7 +279,7 @@ class DaemonProcess:
         """Stop the spawned process by asking its RPC server to close.
         """
         logger.info(f"Close daemon process: {self.client.address}")
-        closed = self.client.close_server()
+        closed = _open_client(self.client).close_server()
         assert closed is True, f"Server refused to close. (reply: {closed})"
 
     def kill(self):
@@ -349,7 +354,7 @@ class ChildProcess:
             # process has already exited
             return
         logger.info(f"Close process: {self.client.address}")
-        closed = self.client.close_server(timeout=timeout)
+        closed = _open_client(self.client).close_server(timeout=timeout)
         assert closed is True, f"Server refused to close. (reply: {closed})"
 
         return self.wait(timeout)
-- 
2.43.0


From 5b108a5708ab1185c460bcecc53e465190e54291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:04 +0000
Subject: [PATCH 47/80] fix: kill the process itself when it was started by a
 shell

---
 teleprox/process.py | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/teleprox/process.py b/teleprox/process.py
index b865211..54958a6 100644
--- a/teleprox/process.py
+++ b/teleprox/process.py
@@ -244,9 +244,8 @@ def start_process(name=None, address="tcp://127.0.0.1:*", qt=False, log_addr=Non
             client = RPCClient(address.encode(), serializer=serializer, start_local_server=start_local_server)
         except BaseException:
             # don't leave behind a process that nobody has access to
-            if proc is None:
-                kill_pid(status['pid'])
-            else:
+            _kill_if_alive(status['pid'])
+            if proc is not None:
                 proc.kill()
                 proc.wait()
             raise
@@ -260,7 +259,14 @@ def start_process(name=None, address="tcp://127.0.0.1:*", qt=False, log_addr=Non
     if daemon is True:
         return DaemonProcess(client, name, qt, status['pid'])
     else:
-        return ChildProcess(proc, client, name, qt, stdio_logger)
+        return ChildProcess(proc, client, name, qt, stdio_logger, status['pid'])
+
+
+def _kill_if_alive(pid):
+    try:
+        kill_pid(pid)
+    except OSError:
+        pass
 
 
 def _open_client(client):
@@ -292,9 +298,10 @@ class DaemonProcess:
 
 
 class ChildProcess:
-    def __init__(self, proc, client, name, qt, stdio_logger=None):
+    def __init__(self, proc, client, name, qt, stdio_logger=None, pid=None):
         self.proc = proc
-        self.pid = proc.pid
+        # differs from proc.pid if the process was started by a shell
+        self.pid = proc.pid if pid is None else pid
         self.client = client
         self.name = name
         self.qt = qt
@@ -342,7 +349,9 @@ class ChildProcess:
         """
         if self.proc.poll() is not None:
             return
-        logger.info("Kill child process: %d", self.proc.pid)
+        logger.info("Kill child process: %d", self.pid)
+        if self.pid != self.proc.pid:
+            _kill_if_alive(self.pid)
         self.proc.kill()
 
         return self.wait()
-- 
2.43.0


From a12da7b1f967c1b96e7115b7588a9731253a2b46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:35 +0000
Subject: [PATCH 48/80] fix: wait() returns the exit code of an exited process
 whose output was not read yet

---
 teleprox/process.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/teleprox/process.py b/teleprox/process.py
index 54958a6..9bb1e71 100644
--- a/teleprox/process.py
+++ b/teleprox/process.py
@@ -332,7 +332,9 @@ class ChildProcess:
             # exceptions.
             pass
         except subprocess.TimeoutExpired as exc:
-            raise TimeoutError(f'Timed out waiting for process "{self.name}" to exit') from exc
+            # the process may have exited while its pipes are still open or not read yet
+            if self.proc.poll() is None:
+                raise TimeoutError(f'Timed out waiting for process "{self.name}" to exit') from exc
         
         sleep = 1e-3
         while True:
-- 
2.43.0


From 66d65051f0be73ab9f7d2b424264cb186e5c1b54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:01 +0000
Subject: [PATCH 49/80] fix: calling start() of a running timer at the wrong
 moment does not end its thread

---
 teleprox/timer.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/teleprox/timer.py b/teleprox/timer.py
index b7564d3..ebb0691 100644
--- a/teleprox/timer.py
+++ b/teleprox/timer.py
@@ -72,10 +72,11 @@ class Timer(object):
                 callback = callback._copy()
             
             while True:
-                if self._last_call_time is None:
+                last_call_time = self._last_call_time  # may be reset by start() at any time
+                if last_call_time is None:
                     sleep_time = 0
                 else:
-                    sleep_time = self.interval - (time.perf_counter() - self._last_call_time)
+                    sleep_time = self.interval - (time.perf_counter() - last_call_time)
                 
                 if sleep_time > 0:
                     time.sleep(sleep_time)
-- 
2.43.0


From 7b5177aa63fda647596614393f1306ddb5801580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:16 +0000
Subject: [PATCH 50/80] fix: SharedNDArray.zeros() of strings contains the same
 as numpy.zeros()

---
 teleprox/shmem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/teleprox/shmem.py b/teleprox/shmem.py
index 7f2edc8..060a45c 100644
--- a/teleprox/shmem.py
+++ b/teleprox/shmem.py
@@ -51,7 +51,7 @@ class SharedNDArray:
         size = int(np.prod(shape)) * np.dtype(dtype).itemsize
         shmem = mp_shm.SharedMemory(create=True, size=max(size, 1))
         data = np.ndarray(shape, dtype=dtype, buffer=shmem.buf)
-        data.fill(0)
+        data[...] = np.zeros((), dtype=dtype)
         return cls(shmem, data, close)
     
     @classmethod
-- 
2.43.0


From 7852278f97fd15bcdb3d12ecc91dfa17cbe61d70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:08 +0000
Subject: [PATCH 51/80] fix: empty views of a SharedNDArray can be transferred

---
 teleprox/shmem.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/teleprox/shmem.py b/teleprox/shmem.py
index 060a45c..0d8722d 100644
--- a/teleprox/shmem.py
+++ b/teleprox/shmem.py
@@ -65,7 +65,8 @@ class SharedNDArray:
     def __reduce__(self):
         # data may be a view that begins anywhere in the buffer
         start = np.frombuffer(self.shmem.buf, dtype='u1').__array_interface__['data'][0]
-        offset = self.data.__array_interface__['data'][0] - start
+        # (or anywhere at all, if it is empty)
+        offset = self.data.__array_interface__['data'][0] - start if self.data.size > 0 else 0
         return SharedNDArray.__reload__, (self.shmem, self.data.shape, self.data.dtype, self.data.strides, offset)
     
     @classmethod
-- 
2.43.0


From 5914a061000c8a727d6a43788972ab9e61bf39be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:24 +0000
Subject: [PATCH 52/80] fix: import_qt() never returns an incomplete namespace
 and falls back to complete libraries

---
 teleprox/qt_util.py | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/teleprox/qt_util.py b/teleprox/qt_util.py
index d1bd0a3..1559974 100644
--- a/teleprox/qt_util.py
+++ b/teleprox/qt_util.py
@@ -7,6 +7,9 @@ HAVE_QT = None
 QT_LIB = None
 qt_lib_order = ['PyQt6', 'PySide6', 'PyQt5', 'PySide2']
 
+# modules that import_qt left behind from libraries that it could only import in part
+_leftover_modules = set()
+
 def check_qt_imported():
     """Check if a Qt library has been imported.
     
@@ -17,7 +20,8 @@ def check_qt_imported():
     global HAVE_QT, QT_LIB
     if not HAVE_QT:
         for qt_lib in qt_lib_order:
-            if qt_lib+'.QtCore' in sys.modules or qt_lib+'.QtGui' in sys.modules or qt_lib+'.QtWidgets' in sys.modules:
+            qt_modules = {qt_lib+'.QtCore', qt_lib+'.QtGui', qt_lib+'.QtWidgets'} - _leftover_modules
+            if any(module in sys.modules for module in qt_modules):
                 HAVE_QT = True
                 QT_LIB = qt_lib
                 break
@@ -49,26 +53,28 @@ def import_qt(qt_lib=None):
         HAVE_QT = False
         for qt_lib in qt_libs:
             try:
-                importlib.import_module(qt_lib+'.QtCore')
+                for module in ('.QtCore', '.QtGui', '.QtWidgets'):
+                    importlib.import_module(qt_lib+module)
                 HAVE_QT = True
                 QT_LIB = qt_lib
                 break
             except ImportError:
-                pass
+                _leftover_modules.update(module for module in sys.modules if module.startswith(qt_lib+'.'))
 
     if not HAVE_QT:
         raise ImportError(f'No importable Qt library found (tried {", ".join(qt_libs)})')
 
-    qt_namespace = {}
+    namespace = {}
     qtcore = importlib.import_module(QT_LIB + '.QtCore')
-    qt_namespace.update(qtcore.__dict__)
+    namespace.update(qtcore.__dict__)
     qtgui = importlib.import_module(QT_LIB + '.QtGui')
-    qt_namespace.update(qtgui.__dict__)
+    namespace.update(qtgui.__dict__)
     qtwidgets = importlib.import_module(QT_LIB + '.QtWidgets')
-    qt_namespace.update(qtwidgets.__dict__)
+    namespace.update(qtwidgets.__dict__)
     
     if 'PySide' not in QT_LIB:
-        qt_namespace['Signal'] = qt_namespace['pyqtSignal']  # for compatibility with PySide
+        namespace['Signal'] = namespace['pyqtSignal']  # for compatibility with PySide
+    qt_namespace = namespace  # only if all modules could be imported
 
     def make_qapp():
         """Create a QApplication object if one does not already exist.
-- 
2.43.0


From 71118956d10155493aa7d362b06130e24e0a9302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:17 +0000
Subject: [PATCH 53/80] fix: find_procs() finds text anywhere in a command
 line, and only there

---
 teleprox/util.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/teleprox/util.py b/teleprox/util.py
index f31d9fe..9689c50 100644
--- a/teleprox/util.py
+++ b/teleprox/util.py
@@ -45,9 +45,12 @@ def find_procs(search):
     """
     if sys.platform == 'linux':
         import subprocess
-        processes = subprocess.check_output(['ps', '-e', '-o', 'pid,command']).decode('utf-8').split('\n')
+        # no limit to the width, no header
+        processes = subprocess.check_output(['ps', '-eww', '-o', 'pid=,command=']).decode('utf-8').split('\n')
         found_procs = []
         for line in processes:
+            if not line:
+                continue
             pid, _, cmd = line.lstrip().partition(' ')
             if search in cmd:
                 found_procs.append((int(pid), line))
-- 
2.43.0


From a0528d36ce6f13114fea880cb60dc9b820be9e11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:17 +0000
Subject: [PATCH 54/80] fix: kill_procs() also kills the others when a process
 ends by itself

---
 teleprox/util.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/teleprox/util.py b/teleprox/util.py
index 9689c50..79cb59d 100644
--- a/teleprox/util.py
+++ b/teleprox/util.py
@@ -76,9 +76,14 @@ def kill_procs(search, wait=5):
     procs = find_procs(search)
     if not procs:
         return []
+    killed = []
     for pid, line in procs:
-        kill_pid(pid)
-    return procs
+        try:
+            kill_pid(pid)
+            killed.append((pid, line))
+        except ProcessLookupError:
+            pass  # ended in the meantime
+    return killed
 
 
 class ProcessCleaner:
-- 
2.43.0


From 4a796a4c080824f97f16a613eb04db1cb0d7af3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:28 +0000
Subject: [PATCH 55/80] fix: check_tcp_port() does not take a connection to
 itself for a listener

---
 teleprox/util.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/teleprox/util.py b/teleprox/util.py
index 79cb59d..57902c1 100644
--- a/teleprox/util.py
+++ b/teleprox/util.py
@@ -149,6 +149,8 @@ def check_tcp_port(host, port, timeout=1.0):
         s.settimeout(timeout)
         try:
             s.connect((host, port))
+            if s.getsockname() == s.getpeername():
+                return "closed"  # nothing listens; the socket got this port itself and is connected to itself
             return "open"
         except socket.timeout:
             return "timeout"
-- 
2.43.0


From b29ff5b3a2d4253574b6db8fe66740269a6acd6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:19 +0000
Subject: [PATCH 56/80] fix: unhandled exceptions without traceback are logged
 with their message (also causes)

---
 teleprox/log/handler.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/teleprox/log/handler.py b/teleprox/log/handler.py
index 2b9e896..4af1536 100644
--- a/teleprox/log/handler.py
+++ b/teleprox/log/handler.py
@@ -135,7 +135,10 @@ _threading_excepthook = None
 def _log_unhandled_exception(exc, val, tb):
     exc_str = traceback.format_stack()
     exc_str += [" < exception caught here >\n"]
-    exc_str += traceback.format_exception(exc, val, tb)[1:]
+    exc_lines = traceback.format_exception(exc, val, tb)
+    if exc_lines[0].startswith('Traceback'):  # header; missing if the first exception has no traceback
+        exc_lines = exc_lines[1:]
+    exc_str += exc_lines
     exc_str = ''.join(['    ' + line for line in exc_str])
     logging.getLogger().warning("Unhandled exception:\n%s", exc_str)
 
-- 
2.43.0


From 9f622f6be3f74ba1e5221094f91c9bd30e6eea88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:47 +0000
Subject: [PATCH 57/80] fix: closing an old client again must not forget the
 client that replaced it

---
 teleprox/client.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/teleprox/client.py b/teleprox/client.py
index e2c3c8e..15aabac 100644
--- a/teleprox/client.py
+++ b/teleprox/client.py
@@ -95,7 +95,9 @@ class RPCClient(object):
         """
         key = (threading.current_thread().ident, client.address)
         with RPCClient.clients_by_thread_lock:
-            RPCClient.clients_by_thread.pop(key, None)
+            # (it may have been replaced already)
+            if RPCClient.clients_by_thread.get(key) is client:
+                del RPCClient.clients_by_thread[key]
     
     def __init__(self, address, reentrant=True, start_local_server=False, serializer='msgpack', serialize_types=None):
         if isinstance(address, str):
-- 
2.43.0


From f1c8b31920e9946cac7c4a9eb9e2c630a6112753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:37 +0000
Subject: [PATCH 58/80] fix: a new thread may connect to a server to which an
 ended thread with the same ID was connected

---
 teleprox/client.py | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/teleprox/client.py b/teleprox/client.py
index 15aabac..35ae40c 100644
--- a/teleprox/client.py
+++ b/teleprox/client.py
@@ -84,10 +84,21 @@ class RPCClient(object):
         
         # Return an existing client if there is one
         with RPCClient.clients_by_thread_lock:
-            if key in RPCClient.clients_by_thread:
-                return RPCClient.clients_by_thread[key]
+            client = RPCClient._find_client(key)
+        if client is not None:
+            return client
         
         return RPCClient(address)
+
+    @staticmethod
+    def _find_client(key):
+        # Return the client registered for this thread (the lock must be held)
+        client = RPCClient.clients_by_thread.get(key)
+        if client is not None and client._thread is not threading.current_thread():
+            # left behind by an ended thread that had the same ID
+            del RPCClient.clients_by_thread[key]
+            return None
+        return client
     
     @staticmethod
     def forget_client(client):
@@ -119,9 +130,10 @@ class RPCClient(object):
         else:
             self._local_server = None
 
-        key = (threading.current_thread().ident, address)
+        self._thread = threading.current_thread()
+        key = (self._thread.ident, address)
         with RPCClient.clients_by_thread_lock:
-            if key in RPCClient.clients_by_thread:
+            if RPCClient._find_client(key) is not None:
                 raise KeyError("An RPCClient instance already exists for this address."
                     " Use RPCClient.get_client(address) instead.")
             RPCClient.clients_by_thread[key] = self
-- 
2.43.0


From fa6e80b59b0867d62caf0054f93bb76f823f154f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:37 +0000
Subject: [PATCH 59/80] fix: a new thread has no server, even if an ended
 thread with the same ID had one

---
 teleprox/server.py | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/teleprox/server.py b/teleprox/server.py
index e1b6018..5dd29c8 100644
--- a/teleprox/server.py
+++ b/teleprox/server.py
@@ -97,7 +97,18 @@ class RPCServer(object):
         """Return the server running in this thread, or None if there is no server.
         """
         with RPCServer.servers_by_thread_lock:
-            return RPCServer.servers_by_thread.get(threading.current_thread().ident, None)
+            return RPCServer._find_server()
+
+    @staticmethod
+    def _find_server():
+        # Return the server registered for this thread (the lock must be held)
+        thread = threading.current_thread()
+        srv = RPCServer.servers_by_thread.get(thread.ident, None)
+        if srv is not None and srv._owner is not thread:
+            # left behind by an ended thread that had the same ID
+            del RPCServer.servers_by_thread[thread.ident]
+            return None
+        return srv
     
     @staticmethod
     def register_server(srv):
@@ -107,13 +118,14 @@ class RPCServer(object):
         this thread.
         """
         key = threading.current_thread().ident
-        if srv._thread == key:
+        if srv._owner is threading.current_thread():
             return
         assert srv._thread is None, "Server has already been registered."
         with RPCServer.servers_by_thread_lock:
-            if key in RPCServer.servers_by_thread:
+            if RPCServer._find_server() is not None:
                 raise KeyError("An RPCServer is already running in this thread.")
             RPCServer.servers_by_thread[key] = srv
+            srv._owner = threading.current_thread()
         srv._thread = key
 
     @staticmethod
@@ -122,8 +134,9 @@ class RPCServer(object):
         """
         key = srv._thread
         with RPCServer.servers_by_thread_lock:
-            assert RPCServer.servers_by_thread[key] is srv
-            RPCServer.servers_by_thread.pop(key)
+            # (another thread with the same ID may have registered its own server)
+            if RPCServer.servers_by_thread.get(key) is srv:
+                RPCServer.servers_by_thread.pop(key)
 
     @staticmethod
     def local_client():
@@ -165,6 +178,7 @@ class RPCServer(object):
         
         # Id of thread that this server is registered to
         self._thread = None
+        self._owner = None  # the Thread with this ID
         self._run_thread = None
         
         # Objects that may be retrieved by name using client['obj_name']
-- 
2.43.0


From e2ce2f077fc06f7b754e4fe8aa93a19353bd0f54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:54 +0000
Subject: [PATCH 60/80] fix: log records of a thread do not get the name of an
 ended thread that had the same ID

---
 teleprox/log/remote.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/teleprox/log/remote.py b/teleprox/log/remote.py
index 250c39f..5174993 100644
--- a/teleprox/log/remote.py
+++ b/teleprox/log/remote.py
@@ -22,6 +22,7 @@ logger = logging.getLogger(__name__)
 host_name = socket.gethostname()
 process_name = "process-%d" % os.getpid()
 thread_names = {}
+_named_threads = {}  # thread ID: Thread
 
 
 def set_host_name(name):
@@ -56,6 +57,7 @@ def set_thread_name(name, tid=None):
     global thread_names
     if tid is None:
         tid = threading.current_thread().ident
+    _named_threads[tid] = next((t for t in threading.enumerate() if t.ident == tid), None)
     thread_names[tid] = name
 
 def get_thread_name(tid=None):
@@ -65,8 +67,16 @@ def get_thread_name(tid=None):
     """
     if tid is None:
         tid = threading.current_thread().ident
-    return thread_names.get(tid, 'thread-%x'%tid)
-    
+    return _find_thread_name(tid, 'thread-%x'%tid)
+
+
+def _find_thread_name(tid, default):
+    named = _named_threads.get(tid)
+    if named is not None and any(t.ident == tid and t is not named for t in threading.enumerate()):
+        # the name was set for an ended thread that had the same ID
+        _named_threads.pop(tid, None)
+        thread_names.pop(tid, None)
+    return thread_names.get(tid, default)
 
 
 # Provide global access to sender / server
@@ -177,7 +187,7 @@ class LogSender(logging.Handler):
 
     def _prepare(self, record):
         # Return the serialized record
-        global host_name, process_name, thread_names
+        global host_name, process_name
         rec = record.__dict__.copy()
         rec.pop('args')
         try:
@@ -191,7 +201,7 @@ class LogSender(logging.Handler):
         rec['exc_info'] = None
         if process_name is not None:
             rec['process_name'] = process_name
-        rec['thread_name'] = thread_names.get(rec['thread'], rec['threadName'])
+        rec['thread_name'] = _find_thread_name(rec['thread'], rec['threadName'])
         rec['host_name'] = host_name
         try:
             return json.dumps(rec, default=str).encode('utf-8')
-- 
2.43.0


From 355852ed8ad002075bf4381a2fea1089e9c8e73f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:34 +0000
Subject: [PATCH 61/80] fix: the log sender of a process's output is closed
 when its output has ended

---
 teleprox/log/stdio.py | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/teleprox/log/stdio.py b/teleprox/log/stdio.py
index 4318ade..9872518 100644
--- a/teleprox/log/stdio.py
+++ b/teleprox/log/stdio.py
@@ -4,10 +4,11 @@ from teleprox.log.remote import LogSender, set_thread_name
 
 
 class PipePoller(threading.Thread):    
-    def __init__(self, pipe, callback, prefix, name):
+    def __init__(self, pipe, callback, prefix, name, on_end):
         threading.Thread.__init__(self, daemon=True)
         self.pipe = pipe
         self.callback = callback
+        self.on_end = on_end
         self.prefix = prefix
         self.name = name
         self.start()
@@ -24,6 +25,7 @@ class PipePoller(threading.Thread):
             if line.endswith('\n'):
                 line = line[:-1]
             callback(prefix + line)
+        self.on_end()
 
 
 class StdioLogSender:
@@ -35,6 +37,7 @@ class StdioLogSender:
     def __init__(self, proc, name, log_addr=None, log_level=None):
         self.proc = proc
         self.log_addr = log_addr
+        self.log_handler = None
 
         # create a logger for handling stdout/stderr and forwarding to log server
         # TODO id(proc) is not id(self), so this behavior is changed from before. is that okay?
@@ -46,8 +49,19 @@ class StdioLogSender:
             self.logger.level = log_level
         
         # create threads to poll stdout/stderr and generate / send log records
-        self.stdout_poller = PipePoller(proc.stdout, self.logger.info, f'[{name}.stdout] ', name='stdout')
-        self.stderr_poller = PipePoller(proc.stderr, self.logger.warning, f'[{name}.stderr] ', name='stderr')
+        self._open_pipes = 2
+        self._open_pipes_lock = threading.Lock()
+        self.stdout_poller = PipePoller(proc.stdout, self.logger.info, f'[{name}.stdout] ', name='stdout', on_end=self._pipe_closed)
+        self.stderr_poller = PipePoller(proc.stderr, self.logger.warning, f'[{name}.stderr] ', name='stderr', on_end=self._pipe_closed)
+
+    def _pipe_closed(self):
+        # The handler is not needed any longer when all output has been logged
+        with self._open_pipes_lock:
+            self._open_pipes -= 1
+            if self._open_pipes > 0 or self.log_handler is None:
+                return
+        self.log_handler.close()
+        self.logger.removeHandler(self.log_handler)
 
     def join(self, timeout=None):
         """Wait until all output of the process has been logged (the process must have exited).
-- 
2.43.0


From c2bcdfd2f8a0921724244a3febfb085ebba69f9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:34 +0000
Subject: [PATCH 62/80] fix: a closed log sender is not kept until exit

---
 teleprox/log/remote.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/teleprox/log/remote.py b/teleprox/log/remote.py
index 5174993..e0ee89e 100644
--- a/teleprox/log/remote.py
+++ b/teleprox/log/remote.py
@@ -252,6 +252,7 @@ class LogSender(logging.Handler):
             if socket is not None:
                 socket.close()
         logging.Handler.close(self)
+        atexit.unregister(self.close)
 
 
 class LogServer(threading.Thread):
-- 
2.43.0


From f7896f1a3f959f6f9a7e6af576c5940087e64a5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:35 +0000
Subject: [PATCH 63/80] fix: a child process that has ended is not kept until
 exit

---
 teleprox/process.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/teleprox/process.py b/teleprox/process.py
index 9bb1e71..3bd23ba 100644
--- a/teleprox/process.py
+++ b/teleprox/process.py
@@ -338,7 +338,7 @@ class ChildProcess:
         
         sleep = 1e-3
         while True:
-            rcode = self.proc.poll()
+            rcode = self.poll()
             if rcode is not None:
                 return rcode
             if time.time() - start > timeout:
@@ -349,7 +349,7 @@ class ChildProcess:
     def kill(self):
         """Kill the spawned process immediately.
         """
-        if self.proc.poll() is not None:
+        if self.poll() is not None:
             return
         logger.info("Kill child process: %d", self.pid)
         if self.pid != self.proc.pid:
@@ -361,7 +361,7 @@ class ChildProcess:
     def stop(self, timeout=10):
         """Stop the spawned process by asking its RPC server to close.
         """
-        if self.proc.poll() is not None:
+        if self.poll() is not None:
             # process has already exited
             return
         logger.info(f"Close process: {self.client.address}")
@@ -374,4 +374,8 @@ class ChildProcess:
         """Return the spawned process's return code, or None if it has not
         exited yet.
         """
-        return self.proc.poll()
+        rcode = self.proc.poll()
+        if rcode is not None:
+            # nothing left to be done when we exit
+            atexit.unregister(self.stop)
+        return rcode
-- 
2.43.0


From 7f58f27cd3746fbb57a3a32a11b30c41f2e00a4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:35 +0000
Subject: [PATCH 64/80] fix: a closed server is not kept until exit

---
 teleprox/server.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/teleprox/server.py b/teleprox/server.py
index 5dd29c8..292f925 100644
--- a/teleprox/server.py
+++ b/teleprox/server.py
@@ -461,6 +461,7 @@ class RPCServer(object):
                 logger.debug("RPC server sending disconnect message to %r", client)
                 self._socket.send_multipart([client, data_str])
             RPCServer.unregister_server(self)
+            atexit.unregister(self._atexit)
             result = True
         else:
             raise ValueError("Invalid RPC action '%s'" % action)
-- 
2.43.0


From 525de4354bd48bd2a3b9828acf8ffae553a89d97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:35 +0000
Subject: [PATCH 65/80] fix: a closed RPCLogHandler ends its thread and is not
 kept until exit

---
 teleprox/log/handler.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/teleprox/log/handler.py b/teleprox/log/handler.py
index 4af1536..4b97eb8 100644
--- a/teleprox/log/handler.py
+++ b/teleprox/log/handler.py
@@ -63,6 +63,7 @@ class RPCLogHandler(logging.StreamHandler):
         # held while collecting and writing records, to keep them in order
         self.write_lock = threading.RLock()
         self.records = []
+        self.closed = False
         self.thread = threading.Thread(target=self.poll_records, daemon=True)
         self.thread.start()
         atexit.register(self.flush_records)
@@ -77,9 +78,11 @@ class RPCLogHandler(logging.StreamHandler):
         with self.record_lock:
             self.records.append(record)
             self.records.sort(key=lambda rec: rec.created)
+        if self.closed:
+            self.flush_records()
 
     def poll_records(self):
-        while True:
+        while not self.closed:
             # collect all records more than 0.5 sec old
             limit = time.time() - self.delay
             recs = []
@@ -94,6 +97,12 @@ class RPCLogHandler(logging.StreamHandler):
             if len(recs) == 0:
                 time.sleep(0.2)
 
+    def close(self):
+        self.closed = True
+        self.flush_records()
+        atexit.unregister(self.flush_records)
+        logging.StreamHandler.close(self)
+
     def format(self, record):
         header = self.get_thread_header(record)
         
-- 
2.43.0


From c06e024da3d8e12a5b105b6cfc954f8a85c53607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:35 +0000
Subject: [PATCH 66/80] fix: closing a server does not leave an open client
 behind

---
 teleprox/client.py | 9 +++++++++
 teleprox/server.py | 7 ++++++-
 2 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/teleprox/client.py b/teleprox/client.py
index 35ae40c..9f6779c 100644
--- a/teleprox/client.py
+++ b/teleprox/client.py
@@ -90,6 +90,15 @@ class RPCClient(object):
         
         return RPCClient(address)
 
+    @staticmethod
+    def has_client(address):
+        """Return True if there is a client already for this thread and a given server address.
+        """
+        if isinstance(address, str):
+            address = address.encode()
+        with RPCClient.clients_by_thread_lock:
+            return RPCClient._find_client((threading.current_thread().ident, address)) is not None
+
     @staticmethod
     def _find_client(key):
         # Return the client registered for this thread (the lock must be held)
diff --git a/teleprox/server.py b/teleprox/server.py
index 292f925..5af05ad 100644
--- a/teleprox/server.py
+++ b/teleprox/server.py
@@ -480,11 +480,16 @@ class RPCServer(object):
         This method is thread-safe.
         """
         from .client import RPCClient
+        is_open = RPCClient.has_client(self.address)
         cli = RPCClient.get_client(self.address)
         if cli is None:
             self.process_action('close', None, None, None)
         else:
-            cli.close_server(sync='sync')
+            try:
+                cli.close_server(sync='sync')
+            finally:
+                if not is_open:
+                    cli.close()
 
     def _final_close(self):
         # Called after the server has closed and sent its disconnect messages.
-- 
2.43.0


From 843ce3fa9a97d5993bb8fb7431f61647a72563d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:35 +0000
Subject: [PATCH 67/80] fix: stopping a process whose client was closed does
 not leave an open client behind

---
 teleprox/process.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/teleprox/process.py b/teleprox/process.py
index 3bd23ba..896654c 100644
--- a/teleprox/process.py
+++ b/teleprox/process.py
@@ -269,9 +269,17 @@ def _kill_if_alive(pid):
         pass
 
 
-def _open_client(client):
-    # The client of a process may have been closed by the user
-    return RPCClient.get_client(client.address) if client._socket.closed else client
+def _close_server(client, **kwds):
+    if not client._socket.closed:
+        return client.close_server(**kwds)
+    # The client of a process has been closed by the user
+    is_open = RPCClient.has_client(client.address)
+    client = RPCClient.get_client(client.address)
+    try:
+        return client.close_server(**kwds)
+    finally:
+        if not is_open:
+            client.close()
 
 
 class DaemonProcess:
@@ -285,7 +293,7 @@ class DaemonProcess:
         """Stop the spawned process by asking its RPC server to close.
         """
         logger.info(f"Close daemon process: {self.client.address}")
-        closed = _open_client(self.client).close_server()
+        closed = _close_server(self.client)
         assert closed is True, f"Server refused to close. (reply: {closed})"
 
     def kill(self):
@@ -365,7 +373,7 @@ class ChildProcess:
             # process has already exited
             return
         logger.info(f"Close process: {self.client.address}")
-        closed = _open_client(self.client).close_server(timeout=timeout)
+        closed = _close_server(self.client, timeout=timeout)
         assert closed is True, f"Server refused to close. (reply: {closed})"
 
         return self.wait(timeout)
-- 
2.43.0


From 367d05e010413557604aad2cd38a104ce37f1bdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:34 +0000
Subject: [PATCH 68/80] fix: a request with an invalid sync mode is refused
 before it is sent

---
 teleprox/client.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/teleprox/client.py b/teleprox/client.py
index 9f6779c..de789b5 100644
--- a/teleprox/client.py
+++ b/teleprox/client.py
@@ -311,6 +311,8 @@ class RPCClient(object):
         if self._disconnected:
             raise RuntimeError("Cannot send request; server has already disconnected.")
         
+        if sync not in ('sync', 'async', 'off'):
+            raise ValueError('Invalid sync value: %s' % sync)
         if sync == 'off':
             req_id = -1
         else:
@@ -341,10 +343,7 @@ class RPCClient(object):
         
         if sync == 'async':
             return fut
-        elif sync == 'sync':
-            return fut.result(timeout=timeout)
-        else:
-            raise ValueError('Invalid sync value: %s' % sync)
+        return fut.result(timeout=timeout)
 
     def _send_message(self, msg, timeout):
         # A message cannot be sent while too many others are waiting to be transmitted, or if
-- 
2.43.0


From 81ef275e9adf99358dd1ee962a8426cc333d0f5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:38 +0000
Subject: [PATCH 69/80] fix: RPCLogHandler prints records with levels above
 CRITICAL (colored output)

---
 teleprox/log/handler.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/teleprox/log/handler.py b/teleprox/log/handler.py
index 4b97eb8..cf627c9 100644
--- a/teleprox/log/handler.py
+++ b/teleprox/log/handler.py
@@ -108,7 +108,8 @@ class RPCLogHandler(logging.StreamHandler):
         
         message = logging.StreamHandler.format(self, record)
         if HAVE_COLORAMA:
-            ind = record.levelno // 10 * 10  # decrease to multiple of 10
+            # decrease to multiple of 10 (there may be levels above CRITICAL)
+            ind = min(max(record.levelno, 0), logging.CRITICAL) // 10 * 10
             message = _level_color_map[ind] + message + colorama.Style.RESET_ALL
             
         return header + ' ' + message
-- 
2.43.0


From f6b58ca8f7682d7d49012edccf1c9254ffb0f40b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:03 +0000
Subject: [PATCH 70/80] fix: capturing the output of a process is not affected
 by earlier captures

---
 teleprox/log/stdio.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/teleprox/log/stdio.py b/teleprox/log/stdio.py
index 9872518..3cbfd3f 100644
--- a/teleprox/log/stdio.py
+++ b/teleprox/log/stdio.py
@@ -42,11 +42,11 @@ class StdioLogSender:
         # create a logger for handling stdout/stderr and forwarding to log server
         # TODO id(proc) is not id(self), so this behavior is changed from before. is that okay?
         self.logger = logging.getLogger(__name__ + '.' + str(id(proc)))
+        # (the logger may have been used for an earlier process with the same ID)
+        self.logger.propagate = log_addr is None
+        self.logger.setLevel(logging.NOTSET if log_level is None else log_level)
         if log_addr is not None:
-            self.logger.propagate = False
             self.log_handler = LogSender(log_addr, self.logger)
-        if log_level is not None:
-            self.logger.level = log_level
         
         # create threads to poll stdout/stderr and generate / send log records
         self._open_pipes = 2
-- 
2.43.0


From c0139b7d42788863cef35e3db71b49cdbf235fd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:20 +0000
Subject: [PATCH 71/80] fix: proxies that are collected while a message is sent
 do not break that message

---
 teleprox/client.py | 31 ++++++++++++++++++++++++++++++-
 teleprox/proxy.py  |  7 ++++++-
 2 files changed, 36 insertions(+), 2 deletions(-)

diff --git a/teleprox/client.py b/teleprox/client.py
index de789b5..45970c2 100644
--- a/teleprox/client.py
+++ b/teleprox/client.py
@@ -139,6 +139,10 @@ class RPCClient(object):
         else:
             self._local_server = None
 
+        # proxies that were collected at a time when nothing could be sent
+        self._collected = []
+        self._sending = True
+
         self._thread = threading.current_thread()
         key = (self._thread.ident, address)
         with RPCClient.clients_by_thread_lock:
@@ -313,11 +317,13 @@ class RPCClient(object):
         
         if sync not in ('sync', 'async', 'off'):
             raise ValueError('Invalid sync value: %s' % sync)
+        self._sending = True
         if sync == 'off':
             req_id = -1
         else:
             req_id = self.next_request_id
             self.next_request_id += 1
+        self._sending = False
         logger.info("RPC request '%s' to %s [req_id=%s]", action, 
                     self.address.decode(), req_id)
         logger.debug("    => sync=%s return=%s opts=%s", sync, return_type, opts)
@@ -351,15 +357,38 @@ class RPCClient(object):
         start = time.perf_counter()
         while True:
             try:
+                self._sending = True
                 self._socket.send_multipart(msg, zmq.NOBLOCK)
-                return
+                break
             except zmq.error.Again:
                 pass
+            finally:
+                self._sending = False
             if self.disconnected():
                 raise RuntimeError("Cannot send request; server has already disconnected.")
             if timeout is not None and time.perf_counter() - start > timeout:
                 raise TimeoutError("Timeout waiting to send request.")
             self._socket.poll(20, zmq.POLLOUT)
+        self._delete_collected()
+
+    def delete_collected(self, obj):
+        """Delete an object proxy that is being collected by Python.
+
+        This may happen at any time, even while another message is being sent (the
+        reference is deleted after that message in this case).
+        """
+        self._collected.append((obj._obj_id, obj._ref_id))
+        if not self._sending:
+            self._delete_collected()
+
+    def _delete_collected(self):
+        collected, self._collected = self._collected, []
+        for obj_id, ref_id in collected:
+            try:
+                # (nobody waits for the result)
+                self.send('delete', opts={'obj_id': obj_id, 'ref_id': ref_id}, sync='async')
+            except RuntimeError:
+                return  # the server has gone, and all references with it
 
     def call_obj(self, obj, args=None, kwargs=None, **kwds):
         """Invoke a remote callable object.
diff --git a/teleprox/proxy.py b/teleprox/proxy.py
index 458e853..1f82360 100644
--- a/teleprox/proxy.py
+++ b/teleprox/proxy.py
@@ -2,6 +2,8 @@
 # Copyright (c) 2016, French National Center for Scientific Research (CNRS)
 # Distributed under the (new) BSD License. See LICENSE for more info.
 
+import threading
+
 
 class ObjectProxy(object):
     """
@@ -266,7 +268,10 @@ class ObjectProxy(object):
         
     def __del__(self):
         if self._proxy_options['auto_delete'] is True:
-            self._delete()
+            if self._client_ is not None and self._client_._thread is not threading.current_thread():
+                # collected in another thread, which must not use that client
+                self.__dict__['_client_'] = None
+            self._client().delete_collected(self)
         
     def __getattr__(self, attr):
         """
-- 
2.43.0


From 99ad8186823c8740e03d55573394f7575a965375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:47 +0000
Subject: [PATCH 72/80] fix: proxies may be collected while clients or servers
 are looked up

---
 teleprox/client.py | 2 +-
 teleprox/server.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/teleprox/client.py b/teleprox/client.py
index 45970c2..5d475a7 100644
--- a/teleprox/client.py
+++ b/teleprox/client.py
@@ -64,7 +64,7 @@ class RPCClient(object):
     """
     
     clients_by_thread = {}  # (thread_id, rpc_addr): client
-    clients_by_thread_lock = threading.Lock()
+    clients_by_thread_lock = threading.RLock()  # (proxies may be collected while it is held)
     
     @staticmethod
     def get_client(address):
diff --git a/teleprox/server.py b/teleprox/server.py
index 5af05ad..6d16ecf 100644
--- a/teleprox/server.py
+++ b/teleprox/server.py
@@ -90,7 +90,7 @@ class RPCServer(object):
     """
     
     servers_by_thread = {}
-    servers_by_thread_lock = threading.Lock()
+    servers_by_thread_lock = threading.RLock()  # (proxies may be collected while it is held)
     
     @staticmethod
     def get_server():
-- 
2.43.0


From 11f89b566316a07568f9fcc8761ac3f1f56706c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:19 +0000
Subject: [PATCH 73/80] fix: connecting is not affected by changes of the
 system time

---
 teleprox/client.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/teleprox/client.py b/teleprox/client.py
index 5d475a7..ba4a66e 100644
--- a/teleprox/client.py
+++ b/teleprox/client.py
@@ -504,8 +504,8 @@ class RPCClient(object):
             return
         self.establishing_connect = True
         try:
-            start = time.time()
-            while time.time() < start + timeout:
+            start = time.perf_counter()
+            while time.perf_counter() < start + timeout:
                 try:
                     fut = self.ping(sync='async', timeout=0.1)
                     result = fut.result(timeout=0.1)
-- 
2.43.0


From c5aabbadd97f31774c38653a9bda6f49f9f75588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:42 +0000
Subject: [PATCH 74/80] fix: filters of a QtLogHandler are respected

---
 teleprox/log/logviewer.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/teleprox/log/logviewer.py b/teleprox/log/logviewer.py
index dc11f30..00780de 100644
--- a/teleprox/log/logviewer.py
+++ b/teleprox/log/logviewer.py
@@ -55,4 +55,7 @@ class QtLogHandler(logging.Handler, qt.QObject):
         qt.QObject.__init__(self)
         
     def handle(self, record):
-        self.new_record.emit(record)
\ No newline at end of file
+        rv = self.filter(record)
+        if rv:
+            self.new_record.emit(rv if isinstance(rv, logging.LogRecord) else record)
+        return rv
-- 
2.43.0


From 2d492dfed4935ed8afce7394d2c36f31fe63eaa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:42 +0000
Subject: [PATCH 75/80] fix: a QtLogHandler does not keep other handlers from
 being flushed at exit

---
 teleprox/log/logviewer.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/teleprox/log/logviewer.py b/teleprox/log/logviewer.py
index 00780de..560aa64 100644
--- a/teleprox/log/logviewer.py
+++ b/teleprox/log/logviewer.py
@@ -49,6 +49,10 @@ class QtLogHandler(logging.Handler, qt.QObject):
     """Log handler that emits a Qt signal for each record.
     """
     new_record = qt.Signal(object)
+
+    # There is nothing to flush. (logging.shutdown() asks when Qt may have deleted its part of this object; an
+    # attribute that is not found in Python would raise an exception then, and no other handler would be flushed)
+    flushOnClose = False
     
     def __init__(self):
         logging.Handler.__init__(self)
@@ -57,5 +61,9 @@ class QtLogHandler(logging.Handler, qt.QObject):
     def handle(self, record):
         rv = self.filter(record)
         if rv:
-            self.new_record.emit(rv if isinstance(rv, logging.LogRecord) else record)
+            try:
+                self.new_record.emit(rv if isinstance(rv, logging.LogRecord) else record)
+            except RuntimeError:
+                # Qt has deleted its part of this object (the program ends)
+                pass
         return rv
-- 
2.43.0


From 32c518db06a45f47adb09da466664cd70c64bb59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:26 +0000
Subject: [PATCH 76/80] fix: a wait in a Qt thread also processes requests that
 were already queued

---
 teleprox/client.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/teleprox/client.py b/teleprox/client.py
index ba4a66e..2bb076f 100644
--- a/teleprox/client.py
+++ b/teleprox/client.py
@@ -552,6 +552,9 @@ class RPCClient(object):
                 # Server runs in Qt thread; we need to time-share with Qt event
                 # loop.
                 from .qt import QApplication
+                # (requests that were queued along with the one that is being processed
+                # are not necessarily delivered by processEvents)
+                QApplication.sendPostedEvents()
                 QApplication.processEvents()
                 try:
                     self._read_and_process_one(timeout=0.05)
-- 
2.43.0


From a89f76f5cf6493d286effa27f892d45fa8727de8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:03 +0000
Subject: [PATCH 77/80] fix: proxy options set to None use the default, as
 documented

---
 teleprox/proxy.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/teleprox/proxy.py b/teleprox/proxy.py
index 1f82360..921326b 100644
--- a/teleprox/proxy.py
+++ b/teleprox/proxy.py
@@ -229,6 +229,13 @@ class ObjectProxy(object):
                 raise KeyError("Unrecognized proxy option '%s'" % k)
         self._proxy_options.update(kwds)
 
+    def _get_option(self, name, default):
+        # None stands for the default defined by the client
+        value = self._proxy_options[name]
+        if value is None:
+            value = self._client().default_proxy_options.get(name)
+        return default if value is None else value
+
     def _get_value(self):
         """
         Return the value of the proxied object.
@@ -286,7 +293,7 @@ class ObjectProxy(object):
         them more difficult to debug.
         """
         prox = self._deferred_attr(attr)
-        if self._proxy_options['defer_getattr'] is True:
+        if self._get_option('defer_getattr', True) is True:
             return prox
         else:
             return prox._undefer()
@@ -345,8 +352,8 @@ class ObjectProxy(object):
         
         """
         opts = {
-            'sync': self._proxy_options['sync'],
-            'return_type': self._proxy_options['return_type'],
+            'sync': self._get_option('sync', 'sync'),
+            'return_type': self._get_option('return_type', 'auto'),
             'timeout': self._proxy_options['timeout'],
         }
         for k in opts:
-- 
2.43.0


From 3606a55356654d8223cd671462c02aa3e49aeb01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:01 +0000
Subject: [PATCH 78/80] fix: start_process accepts file descriptor 0 as stdin

---
 teleprox/process.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/teleprox/process.py b/teleprox/process.py
index 896654c..efe22f3 100644
--- a/teleprox/process.py
+++ b/teleprox/process.py
@@ -189,7 +189,7 @@ def start_process(name=None, address="tcp://127.0.0.1:*", qt=False, log_addr=Non
         cmd = ' '.join(cmd[:n] + tuple(quote(arg) for arg in bootstrap_args))
 
     popen_kwargs = {
-        'stdin': stdin or subprocess.DEVNULL,
+        'stdin': subprocess.DEVNULL if stdin is None else stdin,
         'stdout': stdout,
         'stderr': stderr,
         'shell': shell,
-- 
2.43.0


From 208466a7f2146b0b43d464fb283b3917912e777b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:21 +0000
Subject: [PATCH 79/80] fix: SharedNDArray raises ImportError without numpy

---
 teleprox/shmem.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/teleprox/shmem.py b/teleprox/shmem.py
index 0d8722d..10de117 100644
--- a/teleprox/shmem.py
+++ b/teleprox/shmem.py
@@ -38,16 +38,21 @@ class SharedNDArray:
       to be unlinked, preventing other processes from accessing it.
     """
     def __init__(self, shmem, data, close=False):
-        if not have_numpy:
-            raise ImportError("numpy is required for SharedNDArray")
+        self._check_numpy()
         self.shmem = shmem
         self.data = data
         self.close = close
         all_shmem.append(self)
 
+    @staticmethod
+    def _check_numpy():
+        if not have_numpy:
+            raise ImportError("numpy is required for SharedNDArray")
+
     @classmethod
     def zeros(cls, shape, dtype, close=True):
         """Create a SharedNDArray filled with zeros."""
+        cls._check_numpy()
         size = int(np.prod(shape)) * np.dtype(dtype).itemsize
         shmem = mp_shm.SharedMemory(create=True, size=max(size, 1))
         data = np.ndarray(shape, dtype=dtype, buffer=shmem.buf)
@@ -57,6 +62,7 @@ class SharedNDArray:
     @classmethod
     def copy(cls, arr, close=True):
         """Create a SharedNDArray containing a copy of the given array."""
+        cls._check_numpy()
         shmem = mp_shm.SharedMemory(create=True, size=max(arr.nbytes, 1))
         data = np.ndarray(arr.shape, dtype=arr.dtype, buffer=shmem.buf)
         data[...] = arr
-- 
2.43.0


From 39da46d9e8953678aa6b1dbfb59cf58114401b9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:21 +0000
Subject: [PATCH 80/80] fix: clients that are made implicitly work without
 msgpack

---
 teleprox/client.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/teleprox/client.py b/teleprox/client.py
index 2bb076f..cbf74f8 100644
--- a/teleprox/client.py
+++ b/teleprox/client.py
@@ -88,7 +88,8 @@ class RPCClient(object):
         if client is not None:
             return client
         
-        return RPCClient(address)
+        # (msgpack is optional)
+        return RPCClient(address, serializer='msgpack' if 'msgpack' in all_serializers else 'json')
 
     @staticmethod
     def has_client(address):
-- 
2.43.0

