From ff7c5ea5216e2d1a73400d0765d34ba68301f588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:18 +0000
Subject: [PATCH 01/64] fix: give every RPCClient socket a unique routing ID

---
 teleprox/client.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/teleprox/client.py b/teleprox/client.py
index 87d1f16..8b708ad 100644
--- a/teleprox/client.py
+++ b/teleprox/client.py
@@ -6,6 +6,7 @@ import re
 import socket
 import sys
 import time
+import uuid
 import weakref
 import concurrent.futures
 import threading
@@ -132,7 +133,11 @@ class RPCClient(object):
             # DEALER is fully asynchronous--we can send or receive at any time, and
             # unlike ROUTER, it only connects to a single endpoint.
             self._socket = zmq.Context.instance().socket(zmq.DEALER)
-            self._sock_name = self.name
+            # Routing IDs must be unique among all clients of the server: if two
+            # clients share an ID then the server ignores one of them. The names
+            # above are not guaranteed to be unique (eg, names may be assigned by
+            # the user, and closed clients may be replaced within the same thread).
+            self._sock_name = ("%s %s" % (uuid.uuid4().hex, self.name.decode()[:50])).encode()
             self._socket.setsockopt(zmq.IDENTITY, self._sock_name)
             # socket will continue attempting to deliver messages up to 1 sec after
             # it has closed. (default is -1, which can cause processes to hang
-- 
2.43.0


From 8db96a642f00c67112b977ae31a05ef3df3502a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:19 +0000
Subject: [PATCH 02/64] fix: do not drop results or block requests when the zmq
 high water mark is reached

---
 teleprox/client.py | 3 +++
 teleprox/server.py | 4 ++++
 2 files changed, 7 insertions(+)

diff --git a/teleprox/client.py b/teleprox/client.py
index 8b708ad..9bb5594 100644
--- a/teleprox/client.py
+++ b/teleprox/client.py
@@ -143,6 +143,9 @@ class RPCClient(object):
             # it has closed. (default is -1, which can cause processes to hang
             # on exit)
             self._socket.linger = 1000
+            # never block in send() because of a slow server; timeouts are only
+            # applied while waiting for a response
+            self._socket.sndhwm = 0
             
             # If this thread is running a server, then we need to allow the 
             # server to process requests when the client is blocking.
diff --git a/teleprox/server.py b/teleprox/server.py
index 1fce84d..ba3e700 100644
--- a/teleprox/server.py
+++ b/teleprox/server.py
@@ -142,6 +142,10 @@ class RPCServer(object):
         # it has closed. (default is -1, which can cause processes to hang
         # on exit)
         self._socket.linger = 5000
+
+        # ROUTER sockets silently drop messages when a peer's queue is full, so
+        # the queue must be unlimited or else clients may never see some results
+        self._socket.sndhwm = 0
         
         self._socket.bind(address)
         #: The zmq address where this server is listening (e.g. 'tcp:///127.0.0.1:5678')
-- 
2.43.0


From f9773b495f4c00e945fa78074ba665dbb6e468b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:35 +0000
Subject: [PATCH 03/64] fix: accept dicts with non-string keys in msgpack
 messages

---
 teleprox/serializer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/teleprox/serializer.py b/teleprox/serializer.py
index 109d2c2..fa57f49 100644
--- a/teleprox/serializer.py
+++ b/teleprox/serializer.py
@@ -256,7 +256,7 @@ class MsgpackSerializer(Serializer):
         #return msgpack.loads(msg, encoding='utf8', use_list=False, object_hook=self.decode)
 
         #Return lists/tuples as lists because json can't be configured otherwise
-        return msgpack.loads(msg, object_hook=self.decode)
+        return msgpack.loads(msg, object_hook=self.decode, strict_map_key=False)
 
 if HAVE_MSGPACK:
     all_serializers[MsgpackSerializer.type] = MsgpackSerializer
-- 
2.43.0


From 9bb0c55853d9d2e4fe59ee6ba1aba2190a8ad1f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:35 +0000
Subject: [PATCH 04/64] fix: pickle numpy object arrays instead of sending
 their pointers

---
 teleprox/serializer.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/teleprox/serializer.py b/teleprox/serializer.py
index fa57f49..3fafbfd 100644
--- a/teleprox/serializer.py
+++ b/teleprox/serializer.py
@@ -105,7 +105,8 @@ class Serializer:
                 raise TypeError("Cannot make proxy to %r without proxy server." % obj)
             obj = self.server.get_proxy(obj)
 
-        if HAVE_NUMPY and isinstance(obj, np.ndarray):
+        # (object arrays contain pointers, so they can only be pickled)
+        if HAVE_NUMPY and isinstance(obj, np.ndarray) and not obj.dtype.hasobject:
             if not obj.flags['C_CONTIGUOUS']:
                 obj = np.ascontiguousarray(obj)
             assert(obj.flags['C_CONTIGUOUS'])
@@ -291,7 +292,7 @@ class JsonSerializer(Serializer):
         return json.loads(msg.decode(), object_hook=self.decode)
 
     def encode(self, obj):
-        if HAVE_NUMPY and isinstance(obj, np.ndarray):
+        if HAVE_NUMPY and isinstance(obj, np.ndarray) and not obj.dtype.hasobject:
             # JSON doesn't support bytes, so we use base64 encoding instead:
             if not obj.flags['C_CONTIGUOUS']:
                 obj = np.ascontiguousarray(obj)
-- 
2.43.0


From 1b8308b89204794f50d4d998546e2fa8b0b11fb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:54 +0000
Subject: [PATCH 05/64] fix: report a result that cannot be decoded to the
 Future that requested it

---
 teleprox/client.py     | 15 ++++++++++++---
 teleprox/serializer.py | 12 ++++++++++++
 2 files changed, 24 insertions(+), 3 deletions(-)

diff --git a/teleprox/client.py b/teleprox/client.py
index 9bb5594..a0cefb5 100644
--- a/teleprox/client.py
+++ b/teleprox/client.py
@@ -529,11 +529,20 @@ class RPCClient(object):
             # NOTE: docs say timeout can only be set before bind, but this
             # seems to work for now.
             self._socket.setsockopt(zmq.RCVTIMEO, timeout)
-            msg = self._socket.recv()
-            msg = self.serializer.loads(msg, server=None, proxy_opts=self.default_proxy_options)
+            data = self._socket.recv()
         except zmq.error.Again as exc:
             raise TimeoutError("Timeout waiting for Future result.") from None
-        
+
+        try:
+            msg = self.serializer.loads(data, server=None, proxy_opts=self.default_proxy_options)
+        except Exception as exc:
+            # The result could not be decoded. This must be reported to the Future that
+            # requested it, rather than to whichever one we happen to be waiting for.
+            fut = self.futures.pop(self.serializer.loads_raw(data)['req_id'], None)
+            if fut is not None:
+                fut.set_exception(exc)
+            return
+
         self.process_msg(msg)
 
     def _read_and_process_all(self):
diff --git a/teleprox/serializer.py b/teleprox/serializer.py
index 3fafbfd..56e5b93 100644
--- a/teleprox/serializer.py
+++ b/teleprox/serializer.py
@@ -93,6 +93,12 @@ class Serializer:
         """
         raise NotImplementedError()
 
+    def loads_raw(self, msg):
+        """Convert from serialized string using only the basic types supported by
+        the format (no call to decode()).
+        """
+        raise NotImplementedError()
+
     def encode(self, obj):
         """Convert various types to serializable objects.
         
@@ -259,6 +265,9 @@ class MsgpackSerializer(Serializer):
         #Return lists/tuples as lists because json can't be configured otherwise
         return msgpack.loads(msg, object_hook=self.decode, strict_map_key=False)
 
+    def loads_raw(self, msg):
+        return msgpack.loads(msg, strict_map_key=False)
+
 if HAVE_MSGPACK:
     all_serializers[MsgpackSerializer.type] = MsgpackSerializer
 
@@ -291,6 +300,9 @@ class JsonSerializer(Serializer):
         self._proxy_opts = proxy_opts
         return json.loads(msg.decode(), object_hook=self.decode)
 
+    def loads_raw(self, msg):
+        return json.loads(msg.decode())
+
     def encode(self, obj):
         if HAVE_NUMPY and isinstance(obj, np.ndarray) and not obj.dtype.hasobject:
             # JSON doesn't support bytes, so we use base64 encoding instead:
-- 
2.43.0


From 893fe0eb442b98d4a906569096ea62f95a0e1384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:54 +0000
Subject: [PATCH 06/64] fix: allow args and kwargs to be omitted from
 RPCClient.call_obj

---
 teleprox/client.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/teleprox/client.py b/teleprox/client.py
index a0cefb5..0e87c4c 100644
--- a/teleprox/client.py
+++ b/teleprox/client.py
@@ -340,7 +340,7 @@ class RPCClient(object):
         kwds :
             All extra keyword arguments are passed to :func:`send() <RPCClient.send>`.
         """
-        opts = {'obj': obj, 'args': args, 'kwargs': kwargs} 
+        opts = {'obj': obj, 'args': args or (), 'kwargs': kwargs or {}} 
         return self.send('call_obj', opts=opts, **kwds)
 
     def get_obj(self, obj, **kwds):
-- 
2.43.0


From 08b2e91dffc49f328da7f17cdf6ea1117c53c972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:54 +0000
Subject: [PATCH 07/64] fix: proxies to different attributes of the same object
 are not equal

---
 teleprox/proxy.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/teleprox/proxy.py b/teleprox/proxy.py
index f448af1..2740dc6 100644
--- a/teleprox/proxy.py
+++ b/teleprox/proxy.py
@@ -433,7 +433,8 @@ class ObjectProxy(object):
         # we can immediately return True.
         if (isinstance(args[0], ObjectProxy) and 
             args[0]._rpc_addr == self._rpc_addr and
-            args[0]._obj_id == self._obj_id):
+            args[0]._obj_id == self._obj_id and
+            args[0]._attributes == self._attributes):
             return True
         return self._deferred_attr('__eq__')(*args)
     
-- 
2.43.0


From e485fd1105bdf539a753c96dde623186cc2dec84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:54 +0000
Subject: [PATCH 08/64] fix: ObjectProxy.__rxor__ called __ror__

---
 teleprox/proxy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/teleprox/proxy.py b/teleprox/proxy.py
index 2740dc6..5bb5d76 100644
--- a/teleprox/proxy.py
+++ b/teleprox/proxy.py
@@ -508,7 +508,7 @@ class ObjectProxy(object):
         return self._deferred_attr('__ror__')(*args)
         
     def __rxor__(self, *args):
-        return self._deferred_attr('__ror__')(*args)
+        return self._deferred_attr('__rxor__')(*args)
         
     def __rmod__(self, *args):
         return self._deferred_attr('__rmod__')(*args)
-- 
2.43.0


From 06dfffb6d610c81a9fa4b6647662ba7c1183b82e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:13 +0000
Subject: [PATCH 09/64] fix: reject proxies that have been deleted, even if the
 object is still referenced by others

---
 teleprox/server.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/teleprox/server.py b/teleprox/server.py
index ba3e700..43f0f4c 100644
--- a/teleprox/server.py
+++ b/teleprox/server.py
@@ -223,9 +223,12 @@ class RPCServer(object):
         try:
             oid = proxy._obj_id
             obj = self._proxy_refs[oid][0]
+            if proxy._ref_id not in self._proxy_refs[oid][1]:
+                # this reference was deleted, although others still exist
+                raise KeyError(proxy._ref_id)
         except KeyError:
             raise KeyError("Invalid proxy object ID %r. The object may have "
-                           "been released already." % proxy.obj_id)
+                           "been released already." % proxy._obj_id)
         for attr in proxy._attributes:
             obj = getattr(obj, attr)
         #logger.debug("server %s unwrap proxy %d: %s", self.address, oid, obj)
-- 
2.43.0


From 9cc50c1fa6a4a738d1c0040a868a1470e373874a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:13 +0000
Subject: [PATCH 10/64] fix: attribute proxies and copies of proxies must not
 auto-delete the reference they borrow

---
 teleprox/proxy.py      | 9 +++++++--
 teleprox/serializer.py | 4 ++--
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/teleprox/proxy.py b/teleprox/proxy.py
index 5bb5d76..86e3929 100644
--- a/teleprox/proxy.py
+++ b/teleprox/proxy.py
@@ -142,8 +142,10 @@ class ObjectProxy(object):
         # ObjectProxy should only be used in one thread.
         prox = ObjectProxy(self._rpc_addr, self._obj_id, self._ref_id, self._type_str, 
                            self._attributes, **self._proxy_options)
-        if self._parent_proxy is not None:
-            prox._parent_proxy = self._parent_proxy.copy()
+        # The copy does not own the reference, so keep its owner alive instead
+        # (note: setattr is overridden)
+        prox._proxy_options['auto_delete'] = False
+        prox.__dict__['_parent_proxy'] = self if self._parent_proxy is None else self._parent_proxy
         return prox
 
     def _client(self):
@@ -291,6 +293,9 @@ class ObjectProxy(object):
         is deferred.
         """
         opts = self._proxy_options.copy()
+        # the reference is owned by this proxy; it must not be deleted together with
+        # the attribute proxy
+        opts['auto_delete'] = False
         opts.update(kwds)
         proxy = ObjectProxy(self._rpc_addr, self._obj_id, self._ref_id, 
                             self._type_str, self._attributes + (attr,), **opts)
diff --git a/teleprox/serializer.py b/teleprox/serializer.py
index 56e5b93..623498f 100644
--- a/teleprox/serializer.py
+++ b/teleprox/serializer.py
@@ -193,11 +193,11 @@ class Serializer:
                 if 'attributes' in dct:
                     dct['attributes'] = tuple(dct['attributes'])
                 proxy = ObjectProxy(**dct)
-                if self._proxy_opts is not None:
-                    proxy._set_proxy_options(**self._proxy_opts)
                 if self.server is not None and proxy._rpc_addr == self.server.address:
                     return self.server.unwrap_proxy(proxy)
                 else:
+                    if self._proxy_opts is not None:
+                        proxy._set_proxy_options(**self._proxy_opts)
                     return proxy
         return dct
 
-- 
2.43.0


From 4af3ce9378a3f8ee1a03e4d56dc6d935919ef36f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:28 +0000
Subject: [PATCH 11/64] fix: Future.done() and Future.exception() must read
 messages from the server

---
 teleprox/client.py | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/teleprox/client.py b/teleprox/client.py
index 0e87c4c..7e5d092 100644
--- a/teleprox/client.py
+++ b/teleprox/client.py
@@ -117,6 +117,9 @@ class RPCClient(object):
         else:
             self._local_server = None
 
+        # this client may only be used from the current thread
+        self._thread_id = threading.current_thread().ident
+
         key = (threading.current_thread().ident, address)
         with RPCClient.clients_by_thread_lock:
             if key in RPCClient.clients_by_thread:
@@ -471,7 +474,7 @@ class RPCClient(object):
             Maximum time (seconds) to wait for a response.
         """
         start = time.perf_counter()
-        while not future.done():
+        while not concurrent.futures.Future.done(future):
             # wait patiently with blocking calls.
             if timeout is None:
                 itimeout = None
@@ -692,3 +695,22 @@ class Future(concurrent.futures.Future):
         """
         self.client.process_until_future(self, timeout=timeout)
         return concurrent.futures.Future.result(self)
+
+    def done(self):
+        """Return True if the result (or an error message) has arrived.
+
+        This does not block, but it does process any messages that have been received
+        from the server.
+        """
+        if self.client._thread_id == threading.current_thread().ident:
+            self.client.disconnected()  # reads all incoming messages
+        return concurrent.futures.Future.done(self)
+
+    def exception(self, timeout=None):
+        """Return the exception raised by the call, or None if it completed without raising.
+
+        If the result is not yet available, then this call will block until
+        the result has arrived or the timeout elapses.
+        """
+        self.client.process_until_future(self, timeout=timeout)
+        return concurrent.futures.Future.exception(self)
-- 
2.43.0


From 83af05a25a3f1e83382d2a91a1919326c1193a04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:44 +0000
Subject: [PATCH 12/64] fix: report errors from starting the server in a new
 process instead of failing to format the error message

---
 teleprox/bootstrap.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/teleprox/bootstrap.py b/teleprox/bootstrap.py
index 0ed3594..206c077 100644
--- a/teleprox/bootstrap.py
+++ b/teleprox/bootstrap.py
@@ -91,7 +91,7 @@ try:
     server = server_class(conf['listen_addr'])
     status = {'address': server.address.decode(), 'pid': os.getpid()}
 except:
-    logger.error("Error starting {class_name} with args: {args}:".format(**conf))
+    logger.error("Error starting {class_name} with listen_addr: {listen_addr}".format(**conf))
     status = {'error': traceback.format_exception(*sys.exc_info()), 'pid': os.getpid()}
     
 # Report server status to spawner
@@ -118,7 +118,7 @@ if conf['bootstrap_addr'] is not None:
 if 'address' in status:
     server.run_forever()
     
-if conf['qt']:
+if conf['qt'] and 'address' in status:
     try:
         app.exec()
     except AttributeError:
-- 
2.43.0


From bc24de7853739d18f565c76e43eb20e8ae5065b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:17 +0000
Subject: [PATCH 13/64] fix: kill the new process when start_process fails

---
 teleprox/process.py | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/teleprox/process.py b/teleprox/process.py
index a904f1f..c0f1bbd 100644
--- a/teleprox/process.py
+++ b/teleprox/process.py
@@ -220,6 +220,11 @@ def start_process(name=None, address="tcp://127.0.0.1:*", qt=False, log_addr=Non
     try:
         status = bootstrap_sock.recv_json()
     except zmq.error.Again:
+        bootstrap_sock.close()
+        if proc is not None:
+            # don't leave behind a process that nobody can reach
+            proc.kill()
+            proc.wait()
         raise TimeoutError("Timed out waiting for response from spawned process.")
     logger.debug("recv status %s", status)
     bootstrap_sock.send(b'OK')
@@ -228,11 +233,23 @@ def start_process(name=None, address="tcp://127.0.0.1:*", qt=False, log_addr=Non
     if 'address' in status:
         address = status['address']
         #: An RPCClient instance that is connected to the RPCServer in the remote process
-        client = RPCClient(address.encode(), serializer=serializer, start_local_server=start_local_server)
+        try:
+            client = RPCClient(address.encode(), serializer=serializer, start_local_server=start_local_server)
+        except BaseException:
+            # don't leave behind a process that nobody can reach
+            try:
+                kill_pid(status['pid'])
+            except OSError:
+                pass
+            if proc is not None:
+                proc.kill()
+                proc.wait()
+            raise
     else:
         err = ''.join(status['error'])
-        if proc is not None and proc.poll() is not None:
+        if proc is not None:
             proc.kill()
+            proc.wait()
         raise RuntimeError(f"Error while spawning process:\n{err}")
 
     if daemon is True:
-- 
2.43.0


From 57b4a4cb6f070e0c3039bcacdb600dc634c821e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:17 +0000
Subject: [PATCH 14/64] fix: measure timeouts with a clock that is not affected
 by changes to the system time

---
 teleprox/bootstrap.py | 4 ++--
 teleprox/client.py    | 4 ++--
 teleprox/process.py   | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/teleprox/bootstrap.py b/teleprox/bootstrap.py
index 206c077..78c6353 100644
--- a/teleprox/bootstrap.py
+++ b/teleprox/bootstrap.py
@@ -101,8 +101,8 @@ if conf['bootstrap_addr'] is not None:
     bootstrap_sock.connect(conf['bootstrap_addr'].encode())
     bootstrap_sock.linger = 1000
 
-    start = time.time()
-    while time.time() < start + 10.0:
+    start = time.perf_counter()
+    while time.perf_counter() < start + 10.0:
         # send status repeatedly until spawner gives a reply.
         bootstrap_sock.send_json(status)
         try:
diff --git a/teleprox/client.py b/teleprox/client.py
index 7e5d092..1f4e833 100644
--- a/teleprox/client.py
+++ b/teleprox/client.py
@@ -443,8 +443,8 @@ class RPCClient(object):
             return
         self.establishing_connect = True
         try:
-            start = time.time()
-            while time.time() < start + timeout:
+            start = time.perf_counter()
+            while time.perf_counter() < start + timeout:
                 fut = self.ping(sync='async')
                 try:
                     result = fut.result(timeout=0.1)
diff --git a/teleprox/process.py b/teleprox/process.py
index c0f1bbd..e1b0a4b 100644
--- a/teleprox/process.py
+++ b/teleprox/process.py
@@ -297,7 +297,7 @@ class ChildProcess:
     def wait(self, timeout=10):
         """Wait for the process to exit and return its return code.
         """
-        start = time.time()
+        start = time.perf_counter()
 
         # Using proc.wait() can deadlock; use communicate() instead.
         # see: https://docs.python.org/2/library/subprocess.html#subprocess.Popen.wait
@@ -317,7 +317,7 @@ class ChildProcess:
             rcode = self.proc.poll()
             if rcode is not None:
                 return rcode
-            if time.time() - start > timeout:
+            if time.perf_counter() - start > timeout:
                 raise TimeoutError("Timed out waiting on process exit for %s" % self.name)
             time.sleep(sleep)
             sleep = min(sleep*2, 100e-3)
-- 
2.43.0


From 444d77668882e80549de0da810c9a1c8a44748d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:17 +0000
Subject: [PATCH 15/64] fix: exit if the spawner of this process does not
 respond

---
 teleprox/bootstrap.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/teleprox/bootstrap.py b/teleprox/bootstrap.py
index 78c6353..6672386 100644
--- a/teleprox/bootstrap.py
+++ b/teleprox/bootstrap.py
@@ -111,6 +111,10 @@ if conf['bootstrap_addr'] is not None:
         except zmq.error.Again:
             time.sleep(0.01)
             continue
+    else:
+        # nobody knows how to reach this process
+        logger.error("No response from spawner; exiting.")
+        status.pop('address', None)
 
     bootstrap_sock.close()
 
-- 
2.43.0


From 8312c10519153d80342c5c53c81a8f250cf90c2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:47 +0000
Subject: [PATCH 16/64] fix: LogSender must not lose records, nor stop when it
 encounters one that is difficult to encode

---
 teleprox/log/remote.py | 79 ++++++++++++++++++++++++++++--------------
 1 file changed, 53 insertions(+), 26 deletions(-)

diff --git a/teleprox/log/remote.py b/teleprox/log/remote.py
index f486ab5..b1f573b 100644
--- a/teleprox/log/remote.py
+++ b/teleprox/log/remote.py
@@ -10,6 +10,7 @@ import zmq
 import logging
 import atexit
 import json
+import traceback
 
 logger = logging.getLogger(__name__)
 
@@ -138,69 +139,95 @@ class LogSender(logging.Handler):
     """
     def __init__(self, address=None, logger=None):
         self.socket = None
+        self._closed = False
         logging.Handler.__init__(self)
-        
-        # attach to logger if requested
-        if isinstance(logger, str):
-            logger = logging.getLogger(logger)
-        if logger is not None:
-            logger.addHandler(self)
 
         # make thread-safe: handle() may be called from any thread
         # and log records are passed to the server in a background thread.
+        # The socket is only used by this thread.
         self.record_queue = queue.Queue()
         self.thread = threading.Thread(target=self.run, daemon=True)
         self.thread.start()
 
         if address is not None:
             self.connect(address)
+
+        # attach to logger if requested
+        if isinstance(logger, str):
+            logger = logging.getLogger(logger)
+        if logger is not None:
+            logger.addHandler(self)
             
         atexit.register(self.close)
 
     def handle(self, record):
-        self.record_queue.put(record)
+        if self._closed:
+            return False
+        try:
+            # Collect everything we need from the record right now; the arguments may
+            # be modified later.
+            data = self._encode(record)
+        except Exception:
+            self.handleError(record)
+            return False
+        self.record_queue.put((self._send, data))
         return True
 
     def run(self):
         while True:
-            record = self.record_queue.get()
-            if record is None:
+            item = self.record_queue.get()
+            if item is None:
                 break
-            self._handle(record)
+            func, arg = item
+            try:
+                func(arg)
+            except Exception:
+                if logging.raiseExceptions:
+                    traceback.print_exc()
+        self._set_socket(None)
 
-    def _handle(self, record):
+    def _encode(self, record):
         global host_name, process_name, thread_names
-        if self.socket is None:
-            return
         rec = record.__dict__.copy()
-        args = rec.pop('args')
-        if len(args) > 0:
-            rec['msg'] = rec['msg'] % args
+        rec.pop('args')
+        rec['msg'] = record.getMessage()
+        if rec['exc_info'] and not rec['exc_text']:
+            rec['exc_text'] = logging.Formatter().formatException(rec['exc_info'])
+        rec['exc_info'] = None
         if process_name is not None:
             rec['process_name'] = process_name
         rec['thread_name'] = thread_names.get(rec['thread'], rec['threadName'])
         rec['host_name'] = host_name
-        self.socket.send(json.dumps(rec).encode('utf-8'))
+        return json.dumps(rec, default=str, skipkeys=True).encode('utf-8')
+
+    def _send(self, data):
+        if self.socket is not None:
+            self.socket.send(data)
+
+    def _set_socket(self, new_socket):
+        old_socket, self.socket = self.socket, new_socket
+        if old_socket is not None:
+            old_socket.close()
         
     def connect(self, addr):
         """Set the address of the LogServer to which log messages should be
         sent. This value should be acquired from `log_server.address` or
         `get_logger_address()`.
         """
-        if self.socket is not None:
-            self.socket.close()
-
-        self.socket = zmq.Context.instance().socket(zmq.PUSH)
-        self.socket.linger = 1000  # don't let socket deadlock when exiting
-        self.socket.connect(addr)
+        new_socket = zmq.Context.instance().socket(zmq.PUSH)
+        new_socket.linger = 1000  # don't let socket deadlock when exiting
+        new_socket.connect(addr)
+        # hand over to the sender thread
+        self.record_queue.put((self._set_socket, new_socket))
 
     def close(self):
         # if this socket is left open when the process exits, it can lead to
         # deadlock.
+        self._closed = True
         self.record_queue.put(None)
-        socket, self.socket = self.socket, None
-        if socket is not None:
-            socket.close()
+        # give the thread a chance to send everything that was logged before closing
+        if threading.current_thread() is not self.thread:
+            self.thread.join(timeout=1.0)
         
 
 class LogServer(threading.Thread):
-- 
2.43.0


From d754d581cd8e638ea9dec77472ad6a3f2761b7c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:21 +0000
Subject: [PATCH 17/64] fix: capture output that is not valid utf-8 or does not
 end with a newline

---
 teleprox/log/stdio.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/teleprox/log/stdio.py b/teleprox/log/stdio.py
index 4d99c5d..f6b12d1 100644
--- a/teleprox/log/stdio.py
+++ b/teleprox/log/stdio.py
@@ -18,10 +18,12 @@ class PipePoller(threading.Thread):
         prefix = self.prefix
         pipe = self.pipe
         while True:
-            line = pipe.readline().decode()
+            # (the process may write anything, not just valid text)
+            line = pipe.readline().decode(errors='backslashreplace')
             if line == '':
                 break
-            callback(prefix + line[:-1])
+            # note that the last line does not need to have a newline
+            callback(prefix + (line[:-1] if line.endswith('\n') else line))
 
 
 class StdioLogSender:
-- 
2.43.0


From 5e3bc75c89965235c463cd042369207df4f3aa2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:22 +0000
Subject: [PATCH 18/64] fix: do not reuse the loggers of previous processes to
 capture stdio

---
 teleprox/log/stdio.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/teleprox/log/stdio.py b/teleprox/log/stdio.py
index f6b12d1..5a0e026 100644
--- a/teleprox/log/stdio.py
+++ b/teleprox/log/stdio.py
@@ -1,8 +1,12 @@
+import itertools
 import logging, threading
 
 from teleprox.log.remote import LogSender, set_thread_name
 
 
+_logger_ids = itertools.count()
+
+
 class PipePoller(threading.Thread):    
     def __init__(self, pipe, callback, prefix, name):
         threading.Thread.__init__(self, daemon=True)
@@ -37,8 +41,8 @@ class StdioLogSender:
         self.log_addr = log_addr
 
         # create a logger for handling stdout/stderr and forwarding to log server
-        # TODO id(proc) is not id(self), so this behavior is changed from before. is that okay?
-        self.logger = logging.getLogger(__name__ + '.' + str(id(proc)))
+        # (loggers live forever, so the name must never be used again by another process)
+        self.logger = logging.getLogger(__name__ + '.' + str(next(_logger_ids)))
         if log_addr is not None:
             self.logger.propagate = False
             self.log_handler = LogSender(log_addr, self.logger)
-- 
2.43.0


From c804509de05cf33a0e8891b585b746d92da5f588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:22 +0000
Subject: [PATCH 19/64] fix: ChildProcess.wait() must not discard output that
 should be logged

---
 teleprox/log/stdio.py | 6 ++++++
 teleprox/process.py   | 9 +++++++--
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/teleprox/log/stdio.py b/teleprox/log/stdio.py
index 5a0e026..0944921 100644
--- a/teleprox/log/stdio.py
+++ b/teleprox/log/stdio.py
@@ -53,3 +53,9 @@ class StdioLogSender:
         self.stdout_poller = PipePoller(proc.stdout, self.logger.info, f'[{name}.stdout] ', name='stdout')
         self.stderr_poller = PipePoller(proc.stderr, self.logger.warning, f'[{name}.stderr] ', name='stderr')
 
+    def join(self, timeout=1.0):
+        """After the process has exited, wait until all of its output has been logged.
+        """
+        # (the pipes may be kept open by other processes)
+        self.stdout_poller.join(timeout)
+        self.stderr_poller.join(timeout)
diff --git a/teleprox/process.py b/teleprox/process.py
index e1b0a4b..6aea127 100644
--- a/teleprox/process.py
+++ b/teleprox/process.py
@@ -302,8 +302,13 @@ class ChildProcess:
         # Using proc.wait() can deadlock; use communicate() instead.
         # see: https://docs.python.org/2/library/subprocess.html#subprocess.Popen.wait
         try:
-            # Turns out communicate() can deadlock too
-            self.proc.communicate(timeout=timeout)
+            if self.stdio_logger is not None:
+                # output is already being read by other threads
+                self.proc.wait(timeout=timeout)
+                self.stdio_logger.join()
+            else:
+                # Turns out communicate() can deadlock too
+                self.proc.communicate(timeout=timeout)
         except (AttributeError, ValueError):
             # Python bug: http://bugs.python.org/issue30203
             # Calling communicate on process with closed i/o can generate
-- 
2.43.0


From 709e2943cddd5cdf24f54a845ded00da9da5e7eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:52 +0000
Subject: [PATCH 20/64] fix: poll the server that currently runs in this
 thread, and use milliseconds for polling timeouts

---
 teleprox/client.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/teleprox/client.py b/teleprox/client.py
index 1f4e833..a02cd97 100644
--- a/teleprox/client.py
+++ b/teleprox/client.py
@@ -209,10 +209,12 @@ class RPCClient(object):
         if not self._reentrant:
             return None
         
-        if self._poller is None:
-            server = RPCServer.get_server()
-            if server is None:
-                return None
+        server = RPCServer.get_server()
+        if server is None:
+            return None
+        if self._poller is None or self._poller_server is not server:
+            # (the server in this thread may have been closed and replaced since last time)
+            self._poller_server = server
             if isinstance(server, QtRPCServer):
                 self._poller = 'qt'
             else:
@@ -499,12 +501,13 @@ class RPCClient(object):
             else:
                 # Poll for input on both the client's socket and the server's
                 # socket. This is necessary to avoid deadlocks.
-                socks = [x[0] for x in poller.poll(itimeout)]
+                # (poll timeout is in ms)
+                socks = [x[0] for x in poller.poll(None if itimeout is None else itimeout * 1000)]
                 if self._socket in socks:
                     self._read_and_process_one(timeout=0)
                 elif len(socks) > 0: 
                     server = RPCServer.get_server()
-                    if server is None:
+                    if server is None or server._socket not in socks:
                         # this can happen after server has unregistered itself 
                         # at exit
                         continue
-- 
2.43.0


From 7a88cd9ae0a234511fcbb0979ba3d3bddcc9eda9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:12 +0000
Subject: [PATCH 21/64] fix: RPCServer must survive invalid messages and errors
 that cannot be encoded

---
 teleprox/qt_poll_thread.py |  7 ++++---
 teleprox/server.py         | 40 +++++++++++++++++++++++++-------------
 2 files changed, 30 insertions(+), 17 deletions(-)

diff --git a/teleprox/qt_poll_thread.py b/teleprox/qt_poll_thread.py
index 80095a1..e58d0a0 100644
--- a/teleprox/qt_poll_thread.py
+++ b/teleprox/qt_poll_thread.py
@@ -56,9 +56,10 @@ class QtPollThread(qt.QThread):
                 self.rpc_socket.send_multipart([name, data])
                 
             if self.rpc_socket in socks:
-                name, msg = RPCServer._read_one(self.rpc_socket)
-                #logger.debug("poller recv %s %s", name, msg)
-                self.new_request.emit(name, msg)
+                request = RPCServer._read_one(self.rpc_socket)
+                #logger.debug("poller recv %s %s", *request)
+                if request is not None:
+                    self.new_request.emit(*request)
 
         #logger.error("poller exit.")
         
diff --git a/teleprox/server.py b/teleprox/server.py
index 43f0f4c..2fd303b 100644
--- a/teleprox/server.py
+++ b/teleprox/server.py
@@ -244,27 +244,34 @@ class RPCServer(object):
         
     @staticmethod
     def _read_one(socket):
+        # Return None if the message is not a valid request.
         parts = socket.recv_multipart()
-        name, req_id, action, return_type, ser_type, opts = parts
-
-        msg = {
-            'req_id': int(req_id), 
-            'action': action.decode(), 
-            'return_type': return_type.decode(),
-            'ser_type': ser_type.decode(),
-            'opts': opts,
-        }
+        try:
+            name, req_id, action, return_type, ser_type, opts = parts
+
+            msg = {
+                'req_id': int(req_id), 
+                'action': action.decode(), 
+                'return_type': return_type.decode(),
+                'ser_type': ser_type.decode(),
+                'opts': opts,
+            }
+            name.decode()
+        except ValueError:
+            logger.warning("RPC server ignored invalid message: %r", parts)
+            return None
         return name, msg
         
     def _read_and_process_one(self):
         """Read one message from the rpc socket and invoke the requested
         action.
         """
-        if not self.running:
+        if self._closed is True:
             raise RuntimeError("RPC server socket is already closed.")
             
-        name, msg = self._read_one(self._socket)
-        self._process_one(name, msg)
+        request = self._read_one(self._socket)
+        if request is not None:
+            self._process_one(*request)
         
     def _process_one(self, caller, msg):
         """
@@ -278,6 +285,10 @@ class RPCServer(object):
         req_id = msg['req_id']
         return_type = msg.get('return_type', 'auto')
         
+        if ser_type not in self._serializers:
+            logger.warning("RPC server ignored request from %s: unsupported serializer '%s'", caller.decode(), ser_type)
+            return
+
         # remember this caller so we can deliver a disconnect message later
         self._clients[caller] = ser_type
         
@@ -334,6 +345,8 @@ class RPCServer(object):
         exc_str += traceback.format_stack()
         exc_str += [" < exception caught here >\n"]
         exc_str += traceback.format_exception(*exc)
+        # the message may contain anything, but we have to be able to encode it
+        exc_str = [line.encode('utf-8', errors='backslashreplace').decode() for line in exc_str]
         self._send_result(caller, req_id, error=(exc[0].__name__, exc_str))
     
     def _send_result(self, caller, req_id, rval=None, error=None):
@@ -457,8 +470,7 @@ class RPCServer(object):
         logger.info("RPC start server loop: %s@%s", name, self.address.decode())
         RPCServer.register_server(self)
         while self.running():
-            name, msg = self._read_one(self._socket)
-            self._process_one(name, msg)
+            self._read_and_process_one()
 
     def run_in_thread(self):
         """Call run_forever in a new thread.
-- 
2.43.0


From d82135b97a20e93ee73683fccb59db2fa81d4af4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:28 +0000
Subject: [PATCH 22/64] fix: allow closing an RPCServer that was never started

---
 teleprox/server.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/teleprox/server.py b/teleprox/server.py
index 2fd303b..4bce59e 100644
--- a/teleprox/server.py
+++ b/teleprox/server.py
@@ -445,6 +445,12 @@ class RPCServer(object):
         
         This method is thread-safe.
         """
+        if self._thread is None:
+            # not running yet; there is nobody to inform
+            self._closed = True
+            self._final_close()
+            return
+
         from .client import RPCClient
         cli = RPCClient.get_client(self.address)
         if cli is None:
-- 
2.43.0


From dab5c29718f51717c027eb3f450df25518a7dac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:00 +0000
Subject: [PATCH 23/64] fix: QtRPCServer must stop processing requests after it
 is closed

---
 teleprox/qt_poll_thread.py | 4 +++-
 teleprox/qt_server.py      | 3 +++
 teleprox/server.py         | 4 ++++
 3 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/teleprox/qt_poll_thread.py b/teleprox/qt_poll_thread.py
index e58d0a0..56d5a02 100644
--- a/teleprox/qt_poll_thread.py
+++ b/teleprox/qt_poll_thread.py
@@ -51,7 +51,7 @@ class QtPollThread(qt.QThread):
             if self.return_socket in socks:
                 name, data = self.return_socket.recv_multipart()
                 #logger.debug("poller return %s %s", name, data)
-                if name == 'STOP':
+                if name == b'STOP':
                     break
                 self.rpc_socket.send_multipart([name, data])
                 
@@ -62,6 +62,8 @@ class QtPollThread(qt.QThread):
                     self.new_request.emit(*request)
 
         #logger.error("poller exit.")
+        self.rpc_socket.close()
+        self.return_socket.close()
         
     def stop(self):
         """Ask the poller thread to stop.
diff --git a/teleprox/qt_server.py b/teleprox/qt_server.py
index de234b5..80125cb 100644
--- a/teleprox/qt_server.py
+++ b/teleprox/qt_server.py
@@ -79,6 +79,9 @@ class QtRPCServer(RPCServer):
         return RPCServer.process_action(self, action, opts, return_type, caller)
 
     def _final_close(self):
+        # Stop listening for requests after all pending messages were sent
+        self.poll_thread.stop()
+
         # Block for a moment to allow the poller thread to flush any pending
         # messages. Ideally, we could let the poller thread keep the process
         # alive until it is done, but then we can end up with zombie processes..
diff --git a/teleprox/server.py b/teleprox/server.py
index 4bce59e..28bb1aa 100644
--- a/teleprox/server.py
+++ b/teleprox/server.py
@@ -280,6 +280,10 @@ class RPCServer(object):
         This method sends back to the client either the return value or an
         error message.
         """
+        if self._closed is True:
+            # request was already waiting (eg, in the Qt event queue) when we closed
+            return
+
         ser_type = msg['ser_type']
         action = msg['action']
         req_id = msg['req_id']
-- 
2.43.0


From 84b2dc077fc491cda1d06214cd59bafbc23b91c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:21 +0000
Subject: [PATCH 24/64] fix: Timer.start() must work after the timer was
 stopped or reached its limit

---
 teleprox/timer.py | 30 ++++++++++++++++++++----------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/teleprox/timer.py b/teleprox/timer.py
index 501396a..e202ef0 100644
--- a/teleprox/timer.py
+++ b/teleprox/timer.py
@@ -24,7 +24,8 @@ class Timer(object):
         Whether to immediately start the timer.
     """
     def __init__(self, callback, interval, limit=None, start=False):
-        self.thread = threading.Thread(target=self._run, daemon=True)
+        self.thread = None
+        self.running = False
         self.callback = callback
         self.interval = float(interval)
         self.limit = limit
@@ -42,14 +43,18 @@ class Timer(object):
         invocations.
         """
         with self._lock:
-            self.running = True
             self._last_call_time = None
             self._call_count = 0
-        
-        if self.thread.is_alive():
-            return
-        else:
+            if self.running:
+                return
+            self.running = True
+            # (if the timer was stopped before, then its old thread will exit by itself)
+            self.thread = threading.Thread(target=self._run, daemon=True)
             self.thread.start()
+
+    def _is_current(self):
+        # True if the timer is running and the calling thread is in charge of it
+        return self.running and self.thread is threading.current_thread()
         
     def stop(self):
         """Stop the timer.
@@ -65,25 +70,30 @@ class Timer(object):
                 callback = callback._copy()
             
             while True:
-                if self._last_call_time is None:
+                last_call_time = self._last_call_time  # may be reset by start() at any time
+                if last_call_time is None:
                     sleep_time = 0
                 else:
-                    sleep_time = self.interval - (time.perf_counter() - self._last_call_time)
+                    sleep_time = self.interval - (time.perf_counter() - last_call_time)
                 
                 if sleep_time > 0:
                     time.sleep(sleep_time)
                     
                 with self._lock:
-                    if not self.running:
+                    if not self._is_current():
                         return
                     self._last_call_time = time.perf_counter()
                     
                 callback()
                 
                 with self._lock:
+                    if not self._is_current():
+                        return
                     self._call_count += 1
                     if self.limit is not None and self._call_count >= self.limit:
+                        self.running = False
                         return
         finally:
             with self._lock:
-                self.running = False
+                if self._is_current():
+                    self.running = False
-- 
2.43.0


From f3178b1ee3ede4c86c25834b92836a943241b5c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:21 +0000
Subject: [PATCH 25/64] fix: kill_procs must look for the requested processes,
 and kill all of them even if one has just exited

---
 teleprox/util.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/teleprox/util.py b/teleprox/util.py
index 257ef56..84cd2d5 100644
--- a/teleprox/util.py
+++ b/teleprox/util.py
@@ -66,16 +66,20 @@ def kill_procs(search, wait=5):
 
     return (pid, command) for each killed process
     """
-    procs = find_procs(teleprox.process.PROCESS_NAME_PREFIX)    
+    procs = find_procs(search)
     if not procs:
         return []
     time.sleep(wait)  # wait a little longer for cleanup..
-    procs = find_procs(teleprox.process.PROCESS_NAME_PREFIX)
-    if not procs:
-        return []
+    procs = find_procs(search)
+    killed = []
     for pid, line in procs:
-        kill_pid(pid)
-    return procs
+        try:
+            kill_pid(pid)
+        except ProcessLookupError:
+            # exited by itself just now
+            continue
+        killed.append((pid, line))
+    return killed
 
 
 class ProcessCleaner:
-- 
2.43.0


From 7d4fe25fb6c892b7f23b6fee27172828e6203fec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:21 +0000
Subject: [PATCH 26/64] fix: do not destroy shared memory that is owned by
 another process

---
 teleprox/shmem.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/teleprox/shmem.py b/teleprox/shmem.py
index fde3480..d495760 100644
--- a/teleprox/shmem.py
+++ b/teleprox/shmem.py
@@ -43,7 +43,8 @@ class SharedNDArray:
         self.shmem = shmem
         self.data = data
         self.close = close
-        all_shmem.append(shmem)
+        if close:
+            all_shmem.append(shmem)
 
     @classmethod
     def zeros(cls, shape, dtype, close=True):
@@ -73,12 +74,11 @@ class SharedNDArray:
 def close_all():
     global all_shmem
     for shmem in all_shmem:
-        if shmem.close:
-            shmem.close()
-            try:
-                shmem.unlink()
-            except FileNotFoundError:
-                pass
+        shmem.close()
+        try:
+            shmem.unlink()
+        except FileNotFoundError:
+            pass
     all_shmem = []
 
 atexit.register(close_all)
-- 
2.43.0


From b1237e596454ef32c812f3ceca01a73edc91cb5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:21 +0000
Subject: [PATCH 27/64] fix: display the host name sent with remote log records

---
 teleprox/log/handler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/teleprox/log/handler.py b/teleprox/log/handler.py
index a612dd7..b3d8fa9 100644
--- a/teleprox/log/handler.py
+++ b/teleprox/log/handler.py
@@ -103,7 +103,7 @@ class RPCLogHandler(logging.StreamHandler):
         return header + ' ' + message
 
     def get_thread_header(self, record):
-        hid = getattr(record, 'hostname', get_host_name())
+        hid = getattr(record, 'host_name', get_host_name())
         pid = getattr(record, 'process_name', get_process_name())
         tid = getattr(record, 'thread_name', get_thread_name(record.thread))
         key = (hid, pid, tid)
-- 
2.43.0


From 76c1e7e2b25d3e10b2372f98d37d8e1d88f7c0eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:58 +0000
Subject: [PATCH 28/64] fix: allow connecting to a new server at the address of
 a server that was closed

---
 teleprox/client.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/teleprox/client.py b/teleprox/client.py
index a02cd97..458501c 100644
--- a/teleprox/client.py
+++ b/teleprox/client.py
@@ -93,9 +93,10 @@ class RPCClient(object):
     def forget_client(client):
         """Forget a client that is no longer needed.
         """
-        key = (threading.current_thread().ident, client.address)
+        key = (client._thread_id, client.address)
         with RPCClient.clients_by_thread_lock:
-            RPCClient.clients_by_thread.pop(key, None)
+            if RPCClient.clients_by_thread.get(key) is client:
+                RPCClient.clients_by_thread.pop(key)
     
     def __init__(self, address, reentrant=True, start_local_server=False, serializer='msgpack', serialize_types=None):
         if isinstance(address, str):
@@ -602,6 +603,8 @@ class RPCClient(object):
         # * another client requested that the server close and this client
         #   received a preemptive disconnect message from the server.
         self._disconnected = True
+        # allow connecting to another server that is started at the same address
+        RPCClient.forget_client(self)
         logger.debug("Received server disconnect from %s", self.address)
         exc = RuntimeError("Cannot receive result; server has already disconnected.")
         for fut in self.futures.values():
-- 
2.43.0


From b9473064704a4466268eb0f8404d8e03ced5074f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:58 +0000
Subject: [PATCH 29/64] fix: do not mistake proxies from a previous server at
 the same address for proxies to other objects

---
 teleprox/server.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/teleprox/server.py b/teleprox/server.py
index 28bb1aa..245b7a4 100644
--- a/teleprox/server.py
+++ b/teleprox/server.py
@@ -3,6 +3,7 @@
 # Distributed under the (new) BSD License. See LICENSE for more info.
 
 import sys
+import random
 import traceback
 import threading
 import builtins
@@ -174,7 +175,10 @@ class RPCServer(object):
         # has been proxied. Multiple requests for the same object will return
         # proxies with the same object ID. We do _not_ use id(obj) here because
         # Python may re-use these IDs over time.
-        self._next_object_id = 0  # uniquely identifies proxied objects
+        # The first ID is random because clients reconnect automatically if a server is
+        # restarted at the same address, and proxies from before must not be mistaken
+        # for proxies to other objects.
+        self._next_object_id = random.SystemRandom().getrandbits(48)  # uniquely identifies proxied objects
         # "ref ID" is an integer that uniquely identifies a single proxy as it
         # is sent. Multiple requests for the same object will each have a
         # different ref ID. These are used for remote reference counting to
-- 
2.43.0


From 7f434ed13cac81a4241311c5a3d243c215a3aa3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:07:07 +0000
Subject: [PATCH 30/64] fix: do not ignore clients that reconnect after losing
 their connection

---
 teleprox/server.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/teleprox/server.py b/teleprox/server.py
index 245b7a4..82d9376 100644
--- a/teleprox/server.py
+++ b/teleprox/server.py
@@ -147,6 +147,10 @@ class RPCServer(object):
         # ROUTER sockets silently drop messages when a peer's queue is full, so
         # the queue must be unlimited or else clients may never see some results
         self._socket.sndhwm = 0
+
+        # if a client loses its connection and reconnects before we have noticed, then
+        # the new connection must replace the old one rather than being ignored forever
+        self._socket.router_handover = 1
         
         self._socket.bind(address)
         #: The zmq address where this server is listening (e.g. 'tcp:///127.0.0.1:5678')
-- 
2.43.0


From 071ebf4c28345ef4d0e3ae0cb60434c5024282c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:07 +0000
Subject: [PATCH 31/64] fix: do not crash when a request handler closes the
 server

The nested close request closed the socket, and the server then failed with
ZMQError while trying to return the outer request's result.
---
 teleprox/server.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/teleprox/server.py b/teleprox/server.py
index 82d9376..758f1de 100644
--- a/teleprox/server.py
+++ b/teleprox/server.py
@@ -325,8 +325,9 @@ class RPCServer(object):
         except:
             exc = sys.exc_info()
 
-        # Send result or error back to client
-        if req_id >= 0:
+        # Send result or error back to client (unless the requested action closed
+        # this server; in that case the client was already told to disconnect)
+        if req_id >= 0 and not self._socket.closed:
             if exc is None:
                 #print "returnValue:", returnValue, result
                 if return_type == 'auto':
-- 
2.43.0


From d008900ca5941bdbac6391c4d25f2990ce89a0f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:39 +0000
Subject: [PATCH 32/64] fix: tell the client that closed a server without
 waiting that it is closed

A client that calls close_server(sync='off') receives no return value, and
was also skipped when clients are informed of the disconnect.
---
 teleprox/server.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/teleprox/server.py b/teleprox/server.py
index 758f1de..3697e51 100644
--- a/teleprox/server.py
+++ b/teleprox/server.py
@@ -320,7 +320,10 @@ class RPCServer(object):
                 opts = serializer.loads(opts, server=self, proxy_opts={})
             logger.debug("    => opts: %s", opts)
             
-            result = self.process_action(action, opts, return_type, caller)
+            # callers that expect no response must be told about a disconnect like
+            # all other clients
+            responding_to = caller if req_id >= 0 else None
+            result = self.process_action(action, opts, return_type, responding_to)
             exc = None
         except:
             exc = sys.exc_info()
-- 
2.43.0


From 0bba362951376e2a18a62a559896118391d0171e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:48 +0000
Subject: [PATCH 33/64] fix: closing a closed server again does nothing

RPCServer.close() on a server that is already closed tried to connect to its
former address, and closed any other server that is listening there by now.
---
 teleprox/server.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/teleprox/server.py b/teleprox/server.py
index 3697e51..717a025 100644
--- a/teleprox/server.py
+++ b/teleprox/server.py
@@ -461,6 +461,10 @@ class RPCServer(object):
         
         This method is thread-safe.
         """
+        if self._closed is True:
+            # another server may be listening at our address by now
+            return
+
         if self._thread is None:
             # not running yet; there is nobody to inform
             self._closed = True
-- 
2.43.0


From 72993218e76706d048035a54d090aa6accc75e86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:48 +0000
Subject: [PATCH 34/64] fix: start_process accepts address as bytes and
 log_addr as str

Both are documented / asserted to be allowed, but the address was passed on as
"b'tcp://...'" and log_addr.decode() failed.
---
 teleprox/process.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/teleprox/process.py b/teleprox/process.py
index 6aea127..3def9f8 100644
--- a/teleprox/process.py
+++ b/teleprox/process.py
@@ -114,10 +114,14 @@ def start_process(name=None, address="tcp://127.0.0.1:*", qt=False, log_addr=Non
     assert daemon in (True, False), f"daemon must be bool; got {repr(daemon)}"
     assert qt in (True, False), f"qt must be bool; got {repr(qt)}"
     assert isinstance(address, (str, bytes)), f"address must be str or bytes; got {repr(address)}"
+    if isinstance(address, bytes):
+        address = address.decode()
     assert name is None or isinstance(name, str), f"name must be str or None; got {repr(name)}"
     assert log_addr is None or isinstance(log_addr, (str, bytes)), f"log_addr must be str or None; got {repr(log_addr)}"
     if log_addr is None and not daemon:
         log_addr = get_logger_address()
+    elif isinstance(log_addr, str):
+        log_addr = log_addr.encode()
     assert log_level is None or isinstance(log_level, (int, str)), f"log_level must be int, str, or None; got {repr(log_level)}"
     if log_level is None:
         log_level = logger.getEffectiveLevel()
-- 
2.43.0


From a67208a1ae3d9beee85a0d21f5bcbd3fa55a1f57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:48 +0000
Subject: [PATCH 35/64] fix: start_process works if the address was used by a
 process that has died

The client of the former process was still registered, and connecting to the new
process failed with KeyError.
---
 teleprox/process.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/teleprox/process.py b/teleprox/process.py
index 3def9f8..75684d2 100644
--- a/teleprox/process.py
+++ b/teleprox/process.py
@@ -236,6 +236,11 @@ def start_process(name=None, address="tcp://127.0.0.1:*", qt=False, log_addr=Non
     
     if 'address' in status:
         address = status['address']
+        # If this thread still has a client for this address, then that was connected to
+        # another process that died without notice.
+        stale_client = RPCClient.clients_by_thread.get((threading.current_thread().ident, address.encode()))
+        if stale_client is not None:
+            stale_client.close()
         #: An RPCClient instance that is connected to the RPCServer in the remote process
         try:
             client = RPCClient(address.encode(), serializer=serializer, start_local_server=start_local_server)
-- 
2.43.0


From 8fe37b557b2c6c18663fb4cfdce0a3bbd32f229f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:47 +0000
Subject: [PATCH 36/64] fix: start_process only listens to the process it
 started

When ports are reused, a process that was started (or a client that was connected)
before could report to the bootstrap socket of a later process, so that start_process
returned a client connected to the wrong process, or locked out the new process.
---
 teleprox/bootstrap.py |  4 +++-
 teleprox/process.py   | 19 ++++++++++++++++---
 2 files changed, 19 insertions(+), 4 deletions(-)

diff --git a/teleprox/bootstrap.py b/teleprox/bootstrap.py
index 6672386..d302af6 100644
--- a/teleprox/bootstrap.py
+++ b/teleprox/bootstrap.py
@@ -14,6 +14,7 @@ parser.add_argument('--verbose', nargs='?', default=False, const=True, help='Pri
 parser.add_argument('--logaddr', nargs='?', default=None, help='Optional address to send log records to')
 parser.add_argument('--loglevel', nargs='?', default='INFO', help='Log level for this process. (default is INFO)')
 parser.add_argument('--bootstrap_addr', nargs='?', default=None, help='Address to send bootstrap messages to')
+parser.add_argument('--bootstrap_token', nargs='?', default=None, help='Identifies this process to the spawner')
 parser.add_argument('--child_name_prefix', nargs='?', default='', help='Prefix for child process names')
 
 args = parser.parse_args()
@@ -97,9 +98,10 @@ except:
 # Report server status to spawner
 # Open a socket to parent process to inform it of the new RPC server address
 if conf['bootstrap_addr'] is not None:
-    bootstrap_sock = zmq.Context.instance().socket(zmq.PAIR)
+    bootstrap_sock = zmq.Context.instance().socket(zmq.DEALER)
     bootstrap_sock.connect(conf['bootstrap_addr'].encode())
     bootstrap_sock.linger = 1000
+    status['token'] = conf['bootstrap_token']
 
     start = time.perf_counter()
     while time.perf_counter() < start + 10.0:
diff --git a/teleprox/process.py b/teleprox/process.py
index 75684d2..c5eed49 100644
--- a/teleprox/process.py
+++ b/teleprox/process.py
@@ -13,6 +13,7 @@ import zmq
 import logging
 import threading
 import time
+import uuid
 
 from .client import RPCClient
 from .log import get_logger_address, LogSender
@@ -140,11 +141,15 @@ def start_process(name=None, address="tcp://127.0.0.1:*", qt=False, log_addr=Non
     
     # temporary socket to allow the remote process to report its status.
     bootstrap_addr = 'tcp://127.0.0.1:*'
-    bootstrap_sock = zmq.Context.instance().socket(zmq.PAIR)
+    bootstrap_sock = zmq.Context.instance().socket(zmq.ROUTER)
     bootstrap_sock.setsockopt(zmq.RCVTIMEO, 10000)
     bootstrap_sock.bind(bootstrap_addr)
     bootstrap_sock.linger = 1000 # don't let socket deadlock when exiting
     bootstrap_addr = bootstrap_sock.last_endpoint
+    # Used to recognize the new process: others might still be trying to report to a
+    # previous socket that had the same port (and with zmq.PAIR they would lock out the
+    # new process).
+    bootstrap_token = uuid.uuid4().hex
     
     # Spawn new process
     bootstrap_args = []
@@ -162,6 +167,7 @@ def start_process(name=None, address="tcp://127.0.0.1:*", qt=False, log_addr=Non
     bootstrap_args.extend([
         f'--listen_addr={address}',
         f'--bootstrap_addr={bootstrap_addr.decode()}',
+        f'--bootstrap_token={bootstrap_token}',
     ])
     if PROCESS_NAME_PREFIX not in ('', None):
         bootstrap_args.append(
@@ -222,7 +228,14 @@ def start_process(name=None, address="tcp://127.0.0.1:*", qt=False, log_addr=Non
 
     # Receive status information (especially the final RPC address)
     try:
-        status = bootstrap_sock.recv_json()
+        while True:
+            sender, *msg = bootstrap_sock.recv_multipart()
+            try:
+                status = json.loads(b''.join(msg))
+            except ValueError:
+                continue
+            if isinstance(status, dict) and status.get('token') == bootstrap_token:
+                break
     except zmq.error.Again:
         bootstrap_sock.close()
         if proc is not None:
@@ -231,7 +244,7 @@ def start_process(name=None, address="tcp://127.0.0.1:*", qt=False, log_addr=Non
             proc.wait()
         raise TimeoutError("Timed out waiting for response from spawned process.")
     logger.debug("recv status %s", status)
-    bootstrap_sock.send(b'OK')
+    bootstrap_sock.send_multipart([sender, b'OK'])
     bootstrap_sock.close()
     
     if 'address' in status:
-- 
2.43.0


From b60de5fef4eaf654858be0eeb9d6568772ca5bd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:17:44 +0000
Subject: [PATCH 37/64] fix: start_process does not wait forever for a daemon
 that fails to detach

---
 teleprox/process.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/teleprox/process.py b/teleprox/process.py
index c5eed49..32332e0 100644
--- a/teleprox/process.py
+++ b/teleprox/process.py
@@ -223,7 +223,13 @@ def start_process(name=None, address="tcp://127.0.0.1:*", qt=False, log_addr=Non
         
     logger.info(f'Spawned process "{name}" with pid {proc.pid}')
     if daemon is True and sys.platform != 'win32':
-        proc.wait()  # prevent zombie
+        try:
+            proc.wait(timeout=10)  # prevent zombie
+        except subprocess.TimeoutExpired:
+            bootstrap_sock.close()
+            proc.kill()
+            proc.wait()
+            raise TimeoutError("Timed out waiting for daemon process to detach.")
         proc = None  # prevent trying wait/kill/poll  (but maybe we can still do this on windows?)
 
     # Receive status information (especially the final RPC address)
-- 
2.43.0


From d6a6f044e84564ca1ad120b4f33b1c771b9c894d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:24 +0000
Subject: [PATCH 38/64] fix: a bad message or failing handler does not end the
 log server

---
 teleprox/log/remote.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/teleprox/log/remote.py b/teleprox/log/remote.py
index b1f573b..e910ae1 100644
--- a/teleprox/log/remote.py
+++ b/teleprox/log/remote.py
@@ -285,9 +285,14 @@ class LogServer(threading.Thread):
             if self.socket not in events:
                 continue
             msg = self.socket.recv()
-            kwds = json.loads(msg)
-            rec = logging.makeLogRecord(kwds)
-            if self.filter_by_level and rec.levelno < self.logger.getEffectiveLevel():
-                continue
-            self.logger.handle(rec)
+            try:
+                kwds = json.loads(msg)
+                rec = logging.makeLogRecord(kwds)
+                if self.filter_by_level and rec.levelno < self.logger.getEffectiveLevel():
+                    continue
+                self.logger.handle(rec)
+            except Exception:
+                # one bad message (or handler) must not end logging for all other senders
+                if logging.raiseExceptions:
+                    traceback.print_exc()
         self.socket.close()
-- 
2.43.0


From 7e941d54bd2d9cfe6fcb947a55974fe64a74cef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:36 +0000
Subject: [PATCH 39/64] fix: RPCLogHandler does not lose or mix up records at
 exit

---
 teleprox/log/handler.py | 33 ++++++++++++++++++---------------
 1 file changed, 18 insertions(+), 15 deletions(-)

diff --git a/teleprox/log/handler.py b/teleprox/log/handler.py
index b3d8fa9..00cbf89 100644
--- a/teleprox/log/handler.py
+++ b/teleprox/log/handler.py
@@ -60,6 +60,8 @@ class RPCLogHandler(logging.StreamHandler):
         # by creation time.
         self.delay = 0.2
         self.record_lock = threading.Lock()
+        # held while records are written, to keep them in order
+        self.output_lock = threading.RLock()
         self.records = []
         self.thread = threading.Thread(target=self.poll_records, daemon=True)
         self.thread.start()
@@ -78,18 +80,18 @@ class RPCLogHandler(logging.StreamHandler):
 
     def poll_records(self):
         while True:
-            # collect all records more than 0.5 sec old
-            limit = time.time() - self.delay
-            recs = []
-            with self.record_lock:
-                while len(self.records) > 0 and self.records[0].created < limit:
-                    recs.append(self.records.pop(0))
-                    
-            # emit records or sleep
-            if len(recs) > 0:
+            with self.output_lock:
+                # collect all records more than 0.5 sec old
+                limit = time.time() - self.delay
+                recs = []
+                with self.record_lock:
+                    while len(self.records) > 0 and self.records[0].created < limit:
+                        recs.append(self.records.pop(0))
+
                 for rec in recs:
                     logging.StreamHandler.emit(self, rec)
-            else:
+
+            if len(recs) == 0:
                 time.sleep(0.2)
 
     def format(self, record):
@@ -117,11 +119,12 @@ class RPCLogHandler(logging.StreamHandler):
         return header
 
     def flush_records(self):
-        with self.record_lock:
-            recs = self.records[:]
-            self.records = []
-        for rec in recs:
-            logging.StreamHandler.emit(self, rec)
+        with self.output_lock:
+            with self.record_lock:
+                recs = self.records[:]
+                self.records = []
+            for rec in recs:
+                logging.StreamHandler.emit(self, rec)
 
 
 _sys_excepthook = None
-- 
2.43.0


From 7d7ae29ad9567d91c0e166fd3653f274f480d90a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:36 +0000
Subject: [PATCH 40/64] fix: RPCLogHandler shows the state of arguments at the
 time of logging

---
 teleprox/log/handler.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/teleprox/log/handler.py b/teleprox/log/handler.py
index 00cbf89..a00f922 100644
--- a/teleprox/log/handler.py
+++ b/teleprox/log/handler.py
@@ -2,6 +2,7 @@
 # Copyright (c) 2016, French National Center for Scientific Research (CNRS)
 # Distributed under the (new) BSD License. See LICENSE for more info.
 
+import copy
 import logging
 import sys
 import threading
@@ -73,6 +74,16 @@ class RPCLogHandler(logging.StreamHandler):
         return isatty and isatty()
 
     def emit(self, record):
+        try:
+            # the arguments might be modified before this record is written
+            message = record.getMessage()
+        except Exception:
+            self.handleError(record)
+            return
+        record = copy.copy(record)
+        record.msg = message
+        record.args = None
+
         # send record to sorting thread
         with self.record_lock:
             self.records.append(record)
-- 
2.43.0


From 0e3414f740ccf99f276f5d9d077888cb77c4f90c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:36 +0000
Subject: [PATCH 41/64] fix: RPCLogHandler does not hold back records from a
 clock that is ahead

---
 teleprox/log/handler.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/teleprox/log/handler.py b/teleprox/log/handler.py
index a00f922..1343604 100644
--- a/teleprox/log/handler.py
+++ b/teleprox/log/handler.py
@@ -83,6 +83,7 @@ class RPCLogHandler(logging.StreamHandler):
         record = copy.copy(record)
         record.msg = message
         record.args = None
+        record.received = time.perf_counter()
 
         # send record to sorting thread
         with self.record_lock:
@@ -93,11 +94,16 @@ class RPCLogHandler(logging.StreamHandler):
         while True:
             with self.output_lock:
                 # collect all records more than 0.5 sec old
+                late = time.perf_counter() - self.delay
                 limit = time.time() - self.delay
                 recs = []
                 with self.record_lock:
                     while len(self.records) > 0 and self.records[0].created < limit:
                         recs.append(self.records.pop(0))
+                    # don't hold back records from a host with a clock ahead of ours
+                    for rec in [rec for rec in self.records if rec.received < late]:
+                        self.records.remove(rec)
+                        recs.append(rec)
 
                 for rec in recs:
                     logging.StreamHandler.emit(self, rec)
-- 
2.43.0


From 1f7c4b1172d2119822735a0cb187028000ea28e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:21 +0000
Subject: [PATCH 42/64] fix: RPCLogHandler names the thread that created a
 record, not one that reuses its ID

---
 teleprox/log/handler.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/teleprox/log/handler.py b/teleprox/log/handler.py
index 1343604..4a1ebab 100644
--- a/teleprox/log/handler.py
+++ b/teleprox/log/handler.py
@@ -83,6 +83,9 @@ class RPCLogHandler(logging.StreamHandler):
         record = copy.copy(record)
         record.msg = message
         record.args = None
+        # ..and the thread might have ended, and its ID reused
+        if not hasattr(record, 'thread_name'):
+            record.thread_name = get_thread_name(record.thread)
         record.received = time.perf_counter()
 
         # send record to sorting thread
-- 
2.43.0


From 5ea5e95931c0a4fb443d8c8f8f06ad37b22546a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:24 +0000
Subject: [PATCH 43/64] fix: datetimes keep their time zone, and years before
 1000, in transit

---
 teleprox/serializer.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/teleprox/serializer.py b/teleprox/serializer.py
index 623498f..2641f1e 100644
--- a/teleprox/serializer.py
+++ b/teleprox/serializer.py
@@ -126,10 +126,10 @@ class Serializer:
             return ser
         elif isinstance(obj, datetime.datetime):
             return {encode_key: 'datetime',
-                    'data': obj.strftime('%Y-%m-%dT%H:%M:%S.%f')}
+                    'data': obj.isoformat(timespec='microseconds')}
         elif isinstance(obj, datetime.date):
             return {encode_key: 'date',
-                    'data': obj.strftime('%Y-%m-%d')}
+                    'data': obj.isoformat()}
         elif isinstance(obj, tuple):
             return {encode_key: 'tuple', 'data': list(obj)}
         elif obj is None:
@@ -182,9 +182,9 @@ class Serializer:
             elif type_name == 'np_number':
                 return dct['dtype'].type(dct['value'])
             elif type_name == 'datetime':
-                return datetime.datetime.strptime(dct['data'], '%Y-%m-%dT%H:%M:%S.%f')
+                return datetime.datetime.fromisoformat(dct['data'])
             elif type_name == 'date':
-                return datetime.datetime.strptime(dct['data'], '%Y-%m-%d').date()
+                return datetime.date.fromisoformat(dct['data'])
             elif type_name == 'tuple':
                 return tuple(dct['data'])
             elif type_name == 'none':
-- 
2.43.0


From a2cd4c8967927d0a79c3252617c05477d9e5af1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:13 +0000
Subject: [PATCH 44/64] fix: structured arrays and arrays of datetimes survive
 JSON, arrays with padded dtype survive both serializers

---
 teleprox/serializer.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/teleprox/serializer.py b/teleprox/serializer.py
index 2641f1e..e5af38d 100644
--- a/teleprox/serializer.py
+++ b/teleprox/serializer.py
@@ -171,8 +171,8 @@ class Serializer:
                 if not HAVE_NUMPY:
                     raise ImportError("numpy is required to deserialize ndarray.")
                 dt = dct['dtype']
-                if dt.startswith('['):
-                    #small hack to have a list
+                if dt.startswith(('[', '{')):
+                    #small hack to have a list (or dict)
                     d = {}
                     exec('dtype='+dt, None, d)
                     dt = d['dtype']
@@ -310,7 +310,7 @@ class JsonSerializer(Serializer):
                 obj = np.ascontiguousarray(obj)
             assert(obj.flags['C_CONTIGUOUS'])
             return {encode_key: 'ndarray',
-                    'data': base64.b64encode(obj.data).decode(),
+                    'data': base64.b64encode(obj.tobytes()).decode(),
                     'dtype': str(obj.dtype),
                     'shape': obj.shape}
         elif isinstance(obj, bytes):
@@ -327,8 +327,8 @@ class JsonSerializer(Serializer):
             if type_name == 'ndarray':
                 if not HAVE_NUMPY:
                     raise ImportError("numpy is required to deserialize ndarray.")
-                data = base64.b64decode(dct['data'])
-                return np.frombuffer(data, dct['dtype']).reshape(dct['shape'])
+                # (the rest is handled below)
+                dct['data'] = base64.b64decode(dct['data'])
             elif type_name == 'bytes':
                 return base64.b64decode(dct['data'])
             
-- 
2.43.0


From 5c7465a64325330846f7533e4c94ce9f77f9e787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:45 +0000
Subject: [PATCH 45/64] fix: unsupported operators of proxies return
 NotImplemented

Operators returned a (truthy) proxy to the remote NotImplemented, so that proxies of different
objects seemed to be equal and unsupported operations did not raise TypeError.
---
 teleprox/proxy.py | 114 +++++++++++++++++++++++++++-------------------
 1 file changed, 66 insertions(+), 48 deletions(-)

diff --git a/teleprox/proxy.py b/teleprox/proxy.py
index 86e3929..3d10dc5 100644
--- a/teleprox/proxy.py
+++ b/teleprox/proxy.py
@@ -359,6 +359,17 @@ class ObjectProxy(object):
             self.__dict__['_hash'] = hash((self._rpc_addr, self._obj_id, self._attributes))
         return self._hash
     
+    def _operator(self, name, *args):
+        """Call a remote operator method.
+
+        If the remote object does not support this operation, then return NotImplemented
+        (rather than a proxy to it) so that Python can handle this as usual.
+        """
+        result = self._deferred_attr(name)(*args)
+        if isinstance(result, ObjectProxy) and result._type_str == str(type(NotImplemented)):
+            return NotImplemented
+        return result
+
     # Explicitly proxy special methods. Is there a better way to do this??
     
     def __getitem__(self, *args):
@@ -380,140 +391,147 @@ class ObjectProxy(object):
         return self._deferred_attr('__len__')(*args)
     
     def __add__(self, *args):
-        return self._deferred_attr('__add__')(*args)
+        return self._operator('__add__', *args)
     
     def __sub__(self, *args):
-        return self._deferred_attr('__sub__')(*args)
+        return self._operator('__sub__', *args)
         
     def __div__(self, *args):
-        return self._deferred_attr('__div__')(*args)
+        return self._operator('__div__', *args)
         
     def __truediv__(self, *args):
-        return self._deferred_attr('__truediv__')(*args)
+        return self._operator('__truediv__', *args)
         
     def __floordiv__(self, *args):
-        return self._deferred_attr('__floordiv__')(*args)
+        return self._operator('__floordiv__', *args)
         
     def __mul__(self, *args):
-        return self._deferred_attr('__mul__')(*args)
+        return self._operator('__mul__', *args)
         
     def __pow__(self, *args):
-        return self._deferred_attr('__pow__')(*args)
+        return self._operator('__pow__', *args)
         
     def __iadd__(self, *args):
-        return self._deferred_attr('__iadd__')(*args)
+        return self._operator('__iadd__', *args)
     
     def __isub__(self, *args):
-        return self._deferred_attr('__isub__')(*args)
+        return self._operator('__isub__', *args)
         
     def __idiv__(self, *args):
-        return self._deferred_attr('__idiv__')(*args)
+        return self._operator('__idiv__', *args)
         
     def __itruediv__(self, *args):
-        return self._deferred_attr('__itruediv__')(*args)
+        return self._operator('__itruediv__', *args)
         
     def __ifloordiv__(self, *args):
-        return self._deferred_attr('__ifloordiv__')(*args)
+        return self._operator('__ifloordiv__', *args)
         
     def __imul__(self, *args):
-        return self._deferred_attr('__imul__')(*args)
+        return self._operator('__imul__', *args)
         
     def __ipow__(self, *args):
-        return self._deferred_attr('__ipow__')(*args)
+        return self._operator('__ipow__', *args)
         
     def __rshift__(self, *args):
-        return self._deferred_attr('__rshift__')(*args)
+        return self._operator('__rshift__', *args)
         
     def __lshift__(self, *args):
-        return self._deferred_attr('__lshift__')(*args)
+        return self._operator('__lshift__', *args)
         
     def __irshift__(self, *args):
-        return self._deferred_attr('__irshift__')(*args)
+        return self._operator('__irshift__', *args)
         
     def __ilshift__(self, *args):
-        return self._deferred_attr('__ilshift__')(*args)
+        return self._operator('__ilshift__', *args)
         
     def __eq__(self, *args):
         # If checking equality between two proxies to the same object, then
         # we can immediately return True.
-        if (isinstance(args[0], ObjectProxy) and 
-            args[0]._rpc_addr == self._rpc_addr and
-            args[0]._obj_id == self._obj_id and
-            args[0]._attributes == self._attributes):
+        if self._is_same(args[0]):
             return True
-        return self._deferred_attr('__eq__')(*args)
+        return self._operator('__eq__', *args)
     
     def __ne__(self, *args):
-        return self._deferred_attr('__ne__')(*args)
+        result = self._operator('__ne__', *args)
+        if result is NotImplemented and self._is_same(args[0]):
+            return False
+        return result
+        
+    def _is_same(self, other):
+        # Return True if other is a proxy to the same object.
+        return (isinstance(other, ObjectProxy) and 
+            other._rpc_addr == self._rpc_addr and
+            other._obj_id == self._obj_id and
+            other._attributes == self._attributes)
         
     def __lt__(self, *args):
-        return self._deferred_attr('__lt__')(*args)
+        return self._operator('__lt__', *args)
     
     def __gt__(self, *args):
-        return self._deferred_attr('__gt__')(*args)
+        return self._operator('__gt__', *args)
         
     def __le__(self, *args):
-        return self._deferred_attr('__le__')(*args)
+        return self._operator('__le__', *args)
     
     def __ge__(self, *args):
-        return self._deferred_attr('__ge__')(*args)
+        return self._operator('__ge__', *args)
         
     def __and__(self, *args):
-        return self._deferred_attr('__and__')(*args)
+        return self._operator('__and__', *args)
         
     def __or__(self, *args):
-        return self._deferred_attr('__or__')(*args)
+        return self._operator('__or__', *args)
         
     def __xor__(self, *args):
-        return self._deferred_attr('__xor__')(*args)
+        return self._operator('__xor__', *args)
         
     def __iand__(self, *args):
-        return self._deferred_attr('__iand__')(*args)
+        return self._operator('__iand__', *args)
         
     def __ior__(self, *args):
-        return self._deferred_attr('__ior__')(*args)
+        return self._operator('__ior__', *args)
         
     def __ixor__(self, *args):
-        return self._deferred_attr('__ixor__')(*args)
+        return self._operator('__ixor__', *args)
         
     def __mod__(self, *args):
-        return self._deferred_attr('__mod__')(*args)
+        return self._operator('__mod__', *args)
         
     def __radd__(self, *args):
-        return self._deferred_attr('__radd__')(*args)
+        return self._operator('__radd__', *args)
     
     def __rsub__(self, *args):
-        return self._deferred_attr('__rsub__')(*args)
+        return self._operator('__rsub__', *args)
         
     def __rdiv__(self, *args):
-        return self._deferred_attr('__rdiv__')(*args)
+        return self._operator('__rdiv__', *args)
         
     def __rfloordiv__(self, *args):
-        return self._deferred_attr('__rfloordiv__')(*args)
+        return self._operator('__rfloordiv__', *args)
         
     def __rtruediv__(self, *args):
-        return self._deferred_attr('__rtruediv__')(*args)
+        return self._operator('__rtruediv__', *args)
         
     def __rmul__(self, *args):
-        return self._deferred_attr('__rmul__')(*args)
+        return self._operator('__rmul__', *args)
         
     def __rpow__(self, *args):
-        return self._deferred_attr('__rpow__')(*args)
+        return self._operator('__rpow__', *args)
         
     def __rrshift__(self, *args):
-        return self._deferred_attr('__rrshift__')(*args)
+        return self._operator('__rrshift__', *args)
         
     def __rlshift__(self, *args):
-        return self._deferred_attr('__rlshift__')(*args)
+        return self._operator('__rlshift__', *args)
         
     def __rand__(self, *args):
-        return self._deferred_attr('__rand__')(*args)
+        return self._operator('__rand__', *args)
         
     def __ror__(self, *args):
-        return self._deferred_attr('__ror__')(*args)
+        return self._operator('__ror__', *args)
         
     def __rxor__(self, *args):
-        return self._deferred_attr('__rxor__')(*args)
+        return self._operator('__rxor__', *args)
         
     def __rmod__(self, *args):
-        return self._deferred_attr('__rmod__')(*args)
+        return self._operator('__rmod__', *args)
-- 
2.43.0


From 6845454d93aa5771bd6b14b0e5ac82ec91910582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:20 +0000
Subject: [PATCH 46/64] fix: find_procs skips the header line of ps

---
 teleprox/util.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/teleprox/util.py b/teleprox/util.py
index 84cd2d5..29f995c 100644
--- a/teleprox/util.py
+++ b/teleprox/util.py
@@ -45,9 +45,9 @@ def find_procs(search):
     """
     if sys.platform == 'linux':
         import subprocess
-        processes = subprocess.check_output(['ps', '-e', '-o', 'pid,command']).decode('utf-8').split('\n')
+        processes = subprocess.check_output(['ps', '-e', '-o', 'pid,command']).decode('utf-8').rstrip('\n').split('\n')
         found_procs = []
-        for line in processes:
+        for line in processes[1:]:  # (the first line is a header)
             pid, _, cmd = line.lstrip().partition(' ')
             if search in cmd:
                 found_procs.append((int(pid), line))
-- 
2.43.0


From 392d5483a808d77d5f025035085c24ca2a1d79d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:20 +0000
Subject: [PATCH 47/64] fix: netstat on linux

---
 teleprox/util.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/teleprox/util.py b/teleprox/util.py
index 29f995c..36d639c 100644
--- a/teleprox/util.py
+++ b/teleprox/util.py
@@ -193,7 +193,8 @@ def netstat():
             proto = parts[0]
             local_addr, local_port = parts[3].rsplit(':', 1)
             state = parts[5]
-            pid = int(parts[6].lsplit('/', 1)[0])
+            pid = parts[6].split('/', 1)[0]
+            pid = int(pid) if pid.isdigit() else None  # ('-' if the owner may not be seen)
             ports.append(Port(proto, local_addr, int(local_port), state, pid))
     else:
         raise NotImplementedError(f"netstat not implemented for platform {sys.platform}")
-- 
2.43.0


From c8278af93129fb97b8f91688c244a611ee75d9c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:09 +0000
Subject: [PATCH 48/64] fix: shared arrays without dimensions or elements, and
 zeros of any dtype

---
 teleprox/shmem.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/teleprox/shmem.py b/teleprox/shmem.py
index d495760..1c11995 100644
--- a/teleprox/shmem.py
+++ b/teleprox/shmem.py
@@ -49,17 +49,19 @@ class SharedNDArray:
     @classmethod
     def zeros(cls, shape, dtype, close=True):
         """Create a SharedNDArray filled with zeros."""
-        shmem = mp_shm.SharedMemory(create=True, size=np.prod(shape) * np.dtype(dtype).itemsize)
+        # (there is no empty shared memory)
+        size = max(1, int(np.prod(shape)) * np.dtype(dtype).itemsize)
+        shmem = mp_shm.SharedMemory(create=True, size=size)
         data = np.ndarray(shape, dtype=dtype, buffer=shmem.buf)
-        data.fill(0)
+        data[...] = np.zeros((), dtype)
         return cls(shmem, data, close)
     
     @classmethod
     def copy(cls, arr, close=True):
         """Create a SharedNDArray containing a copy of the given array."""
-        shmem = mp_shm.SharedMemory(create=True, size=arr.nbytes)
+        shmem = mp_shm.SharedMemory(create=True, size=max(1, arr.nbytes))
         data = np.ndarray(arr.shape, dtype=arr.dtype, buffer=shmem.buf)
-        data[:] = arr[:]
+        data[...] = arr
         return cls(shmem, data, close)
         
     def __reduce__(self):
-- 
2.43.0


From 5d7c21badc10ea23b2b9e0a970ef5a2eab656b01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:45 +0000
Subject: [PATCH 49/64] fix: views of shared arrays refer to the same elements
 in other processes

---
 teleprox/shmem.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/teleprox/shmem.py b/teleprox/shmem.py
index 1c11995..5f92f56 100644
--- a/teleprox/shmem.py
+++ b/teleprox/shmem.py
@@ -43,6 +43,8 @@ class SharedNDArray:
         self.shmem = shmem
         self.data = data
         self.close = close
+        # address of the buffer; data may be a view of some part of it
+        self._start = np.ndarray((), dtype='u1', buffer=shmem.buf).__array_interface__['data'][0]
         if close:
             all_shmem.append(shmem)
 
@@ -65,11 +67,16 @@ class SharedNDArray:
         return cls(shmem, data, close)
         
     def __reduce__(self):
-        return SharedNDArray.__reload__, (self.shmem, self.data.shape, self.data.dtype, self.data.strides)
+        strides = self.data.strides
+        offset = self.data.__array_interface__['data'][0] - self._start
+        if self.data.size == 0:
+            # (the data of an empty view are nowhere)
+            strides, offset = None, 0
+        return SharedNDArray.__reload__, (self.shmem, self.data.shape, self.data.dtype, strides, offset)
     
     @classmethod
-    def __reload__(cls, shmem, shape, dtype, strides):
-        arr = np.ndarray(shape, dtype=dtype, buffer=shmem.buf, strides=strides)
+    def __reload__(cls, shmem, shape, dtype, strides, offset=0):
+        arr = np.ndarray(shape, dtype=dtype, buffer=shmem.buf, strides=strides, offset=offset)
         return SharedNDArray(shmem, arr)
 
 
-- 
2.43.0


From 9b72e0a58d02c32f027c390762678fbf8a4b80ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:45 +0000
Subject: [PATCH 50/64] fix: a shared array that is still in use does not keep
 the others from being removed

---
 teleprox/shmem.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/teleprox/shmem.py b/teleprox/shmem.py
index 5f92f56..7c417a4 100644
--- a/teleprox/shmem.py
+++ b/teleprox/shmem.py
@@ -83,7 +83,11 @@ class SharedNDArray:
 def close_all():
     global all_shmem
     for shmem in all_shmem:
-        shmem.close()
+        try:
+            shmem.close()
+        except BufferError:
+            # some view of the memory is still in use
+            pass
         try:
             shmem.unlink()
         except FileNotFoundError:
-- 
2.43.0


From 08eeba3e71c7a38ccb4477f8b61f63c2f32ec646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:45 +0000
Subject: [PATCH 51/64] fix: shared memory stays mapped as long as its data is
 in use

---
 teleprox/shmem.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/teleprox/shmem.py b/teleprox/shmem.py
index 7c417a4..8b5f7ab 100644
--- a/teleprox/shmem.py
+++ b/teleprox/shmem.py
@@ -1,5 +1,6 @@
 import multiprocessing.shared_memory as mp_shm
 import atexit
+import weakref
 try:
     import numpy as np
     have_numpy = True
@@ -45,6 +46,8 @@ class SharedNDArray:
         self.close = close
         # address of the buffer; data may be a view of some part of it
         self._start = np.ndarray((), dtype='u1', buffer=shmem.buf).__array_interface__['data'][0]
+        # data must not outlive the mapping of the memory
+        weakref.finalize(data, _release, shmem).atexit = False
         if close:
             all_shmem.append(shmem)
 
@@ -80,6 +83,10 @@ class SharedNDArray:
         return SharedNDArray(shmem, arr)
 
 
+def _release(shmem):
+    """Called when nothing refers to the data any more."""
+
+
 def close_all():
     global all_shmem
     for shmem in all_shmem:
-- 
2.43.0


From c36ea5595bae997bab41c7084842cc08a56eb4f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:04 +0000
Subject: [PATCH 52/64] fix: Qt server waits until its last messages are sent,
 not for a fixed time

---
 teleprox/qt_server.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/teleprox/qt_server.py b/teleprox/qt_server.py
index 80125cb..c29eab5 100644
--- a/teleprox/qt_server.py
+++ b/teleprox/qt_server.py
@@ -1,4 +1,4 @@
-import logging, time
+import logging
 from .server import RPCServer
 from . import log
 
@@ -85,4 +85,4 @@ class QtRPCServer(RPCServer):
         # Block for a moment to allow the poller thread to flush any pending
         # messages. Ideally, we could let the poller thread keep the process
         # alive until it is done, but then we can end up with zombie processes..
-        time.sleep(0.1)
+        self.poll_thread.wait(1000)
-- 
2.43.0


From 95939b324d9a6321240b0d7ccc3c7e0368b6e1c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:22 +0000
Subject: [PATCH 53/64] fix: a new thread does not take over the clients of a
 thread that ended

Thread IDs are reused: RPCClient(address) failed with KeyError in a new thread that has the
ID of one that was connected to the same server before.
---
 teleprox/client.py  | 18 +++++++++++++-----
 teleprox/process.py |  2 +-
 2 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/teleprox/client.py b/teleprox/client.py
index 458501c..fbbe320 100644
--- a/teleprox/client.py
+++ b/teleprox/client.py
@@ -80,14 +80,21 @@ class RPCClient(object):
         """
         if isinstance(address, str):
             address = address.encode()
-        key = (threading.current_thread().ident, address)
         
         # Return an existing client if there is one
         with RPCClient.clients_by_thread_lock:
-            if key in RPCClient.clients_by_thread:
-                return RPCClient.clients_by_thread[key]
+            client = RPCClient._registered_client(address)
+        if client is not None:
+            return client
         
         return RPCClient(address)
+
+    @staticmethod
+    def _registered_client(address):
+        thread = threading.current_thread()
+        client = RPCClient.clients_by_thread.get((thread.ident, address))
+        # (thread IDs are reused; clients of threads that ended are not ours)
+        return client if client is not None and client._thread is thread else None
     
     @staticmethod
     def forget_client(client):
@@ -119,11 +126,12 @@ class RPCClient(object):
             self._local_server = None
 
         # this client may only be used from the current thread
-        self._thread_id = threading.current_thread().ident
+        self._thread = threading.current_thread()
+        self._thread_id = self._thread.ident
 
         key = (threading.current_thread().ident, address)
         with RPCClient.clients_by_thread_lock:
-            if key in RPCClient.clients_by_thread:
+            if RPCClient._registered_client(address) is not None:
                 raise KeyError("An RPCClient instance already exists for this address."
                     " Use RPCClient.get_client(address) instead.")
             RPCClient.clients_by_thread[key] = self
diff --git a/teleprox/process.py b/teleprox/process.py
index 32332e0..40951e4 100644
--- a/teleprox/process.py
+++ b/teleprox/process.py
@@ -257,7 +257,7 @@ def start_process(name=None, address="tcp://127.0.0.1:*", qt=False, log_addr=Non
         address = status['address']
         # If this thread still has a client for this address, then that was connected to
         # another process that died without notice.
-        stale_client = RPCClient.clients_by_thread.get((threading.current_thread().ident, address.encode()))
+        stale_client = RPCClient._registered_client(address.encode())
         if stale_client is not None:
             stale_client.close()
         #: An RPCClient instance that is connected to the RPCServer in the remote process
-- 
2.43.0


From e8a4bc7cb788071d76e68cc97f2ac72547702500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:22 +0000
Subject: [PATCH 54/64] fix: servers of threads that ended

A server that is registered to a thread that ended belongs to no other thread that has
the same ID, and can be closed (eg, at exit) although nobody would answer the request.
---
 teleprox/server.py | 26 +++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/teleprox/server.py b/teleprox/server.py
index 717a025..bda6cfb 100644
--- a/teleprox/server.py
+++ b/teleprox/server.py
@@ -97,7 +97,14 @@ class RPCServer(object):
         """Return the server running in this thread, or None if there is no server.
         """
         with RPCServer.servers_by_thread_lock:
-            return RPCServer.servers_by_thread.get(threading.current_thread().ident, None)
+            return RPCServer._registered_server()
+
+    @staticmethod
+    def _registered_server():
+        thread = threading.current_thread()
+        srv = RPCServer.servers_by_thread.get(thread.ident, None)
+        # (thread IDs are reused; servers of threads that ended are not ours)
+        return srv if srv is not None and srv._owner is thread else None
     
     @staticmethod
     def register_server(srv):
@@ -107,12 +114,13 @@ class RPCServer(object):
         this thread.
         """
         key = threading.current_thread().ident
-        if srv._thread == key:
+        if srv._thread == key and srv._owner is threading.current_thread():
             return
         assert srv._thread is None, "Server has already been registered."
         with RPCServer.servers_by_thread_lock:
-            if key in RPCServer.servers_by_thread:
+            if RPCServer._registered_server() is not None:
                 raise KeyError("An RPCServer is already running in this thread.")
+            srv._owner = threading.current_thread()
             RPCServer.servers_by_thread[key] = srv
         srv._thread = key
 
@@ -122,8 +130,9 @@ class RPCServer(object):
         """
         key = srv._thread
         with RPCServer.servers_by_thread_lock:
-            assert RPCServer.servers_by_thread[key] is srv
-            RPCServer.servers_by_thread.pop(key)
+            # (another thread may have taken over the ID of ours)
+            if RPCServer.servers_by_thread.get(key) is srv:
+                RPCServer.servers_by_thread.pop(key)
 
     @staticmethod
     def local_client():
@@ -169,6 +178,7 @@ class RPCServer(object):
         
         # Id of thread that this server is registered to
         self._thread = None
+        self._owner = None
         self._run_thread = None
         
         # Objects that may be retrieved by name using client['obj_name']
@@ -471,6 +481,12 @@ class RPCServer(object):
             self._final_close()
             return
 
+        if self._owner is not threading.current_thread() and not self._owner.is_alive():
+            # the thread has ended, so nobody would answer a request
+            self.process_action('close', None, None, None)
+            self._final_close()
+            return
+
         from .client import RPCClient
         cli = RPCClient.get_client(self.address)
         if cli is None:
-- 
2.43.0


From 5b5ac3bd97b036e63b77fb6ef4ece4737ddf58a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:34 +0000
Subject: [PATCH 55/64] fix: the name of a thread that ended is not given to
 others with its identifier

Thread identifiers are reused: records of a thread that was never given a name
carried the name assigned to an earlier thread which had ended since.
---
 teleprox/log/remote.py | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/teleprox/log/remote.py b/teleprox/log/remote.py
index e910ae1..a6e7c7f 100644
--- a/teleprox/log/remote.py
+++ b/teleprox/log/remote.py
@@ -11,6 +11,7 @@ import logging
 import atexit
 import json
 import traceback
+import weakref
 
 logger = logging.getLogger(__name__)
 
@@ -21,6 +22,7 @@ logger = logging.getLogger(__name__)
 host_name = socket.gethostname()
 process_name = "process-%d" % os.getpid()
 thread_names = {}
+_named_threads = {}  # {thread ID: weak reference to the thread that was given a name}
 
 
 def set_host_name(name):
@@ -55,6 +57,8 @@ def set_thread_name(name, tid=None):
     global thread_names
     if tid is None:
         tid = threading.current_thread().ident
+    thread = _find_thread(tid)
+    _named_threads[tid] = None if thread is None else weakref.ref(thread)
     thread_names[tid] = name
 
 def get_thread_name(tid=None):
@@ -64,7 +68,22 @@ def get_thread_name(tid=None):
     """
     if tid is None:
         tid = threading.current_thread().ident
-    return thread_names.get(tid, 'thread-%x'%tid)
+    return _get_assigned_name(tid, 'thread-%x'%tid)
+
+def _get_assigned_name(tid, default):
+    # Return the name assigned to a thread with set_thread_name(), if any.
+    # (thread IDs are reused; names of threads that ended are not for others)
+    owner = _named_threads.get(tid)
+    thread = None if owner is None else _find_thread(tid)
+    if thread is not None and owner() is not thread:
+        return default
+    return thread_names.get(tid, default)
+
+def _find_thread(tid):
+    thread = threading.current_thread()
+    if thread.ident != tid:
+        thread = next((t for t in threading.enumerate() if t.ident == tid), None)
+    return thread
     
 
 
@@ -187,7 +206,7 @@ class LogSender(logging.Handler):
         self._set_socket(None)
 
     def _encode(self, record):
-        global host_name, process_name, thread_names
+        global host_name, process_name
         rec = record.__dict__.copy()
         rec.pop('args')
         rec['msg'] = record.getMessage()
@@ -196,7 +215,7 @@ class LogSender(logging.Handler):
         rec['exc_info'] = None
         if process_name is not None:
             rec['process_name'] = process_name
-        rec['thread_name'] = thread_names.get(rec['thread'], rec['threadName'])
+        rec['thread_name'] = _get_assigned_name(rec['thread'], rec['threadName'])
         rec['host_name'] = host_name
         return json.dumps(rec, default=str, skipkeys=True).encode('utf-8')
 
-- 
2.43.0


From a9fc5ab3d291bcbe71ab56bd7d6807128e11d7be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:33 +0000
Subject: [PATCH 56/64] fix: start_process() accepts a default logger address
 given as str

---
 teleprox/process.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/teleprox/process.py b/teleprox/process.py
index 40951e4..83be7f2 100644
--- a/teleprox/process.py
+++ b/teleprox/process.py
@@ -121,7 +121,7 @@ def start_process(name=None, address="tcp://127.0.0.1:*", qt=False, log_addr=Non
     assert log_addr is None or isinstance(log_addr, (str, bytes)), f"log_addr must be str or None; got {repr(log_addr)}"
     if log_addr is None and not daemon:
         log_addr = get_logger_address()
-    elif isinstance(log_addr, str):
+    if isinstance(log_addr, str):
         log_addr = log_addr.encode()
     assert log_level is None or isinstance(log_level, (int, str)), f"log_level must be int, str, or None; got {repr(log_level)}"
     if log_level is None:
-- 
2.43.0


From 7d90374751b806cf53849a02e6b3fc44fe3d7309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:33 +0000
Subject: [PATCH 57/64] fix: start_process(shell=True) quotes names and paths
 for the shell

---
 teleprox/process.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/teleprox/process.py b/teleprox/process.py
index 83be7f2..708917d 100644
--- a/teleprox/process.py
+++ b/teleprox/process.py
@@ -4,6 +4,7 @@
 
 import sys
 import json
+import shlex
 import subprocess
 import atexit
 from teleprox.log.remote import get_process_name, set_thread_name
@@ -188,7 +189,8 @@ def start_process(name=None, address="tcp://127.0.0.1:*", qt=False, log_addr=Non
         cmd = ('conda', 'run', '--no-capture-output', '-n', conda_env) + cmd
     
     if shell is True:
-        cmd = ' '.join(cmd)
+        # (names and paths may contain characters that are special to the shell)
+        cmd = subprocess.list2cmdline(cmd) if sys.platform == 'win32' else shlex.join(cmd)
 
     popen_kwargs = {
         'stdin': stdin or subprocess.DEVNULL,
-- 
2.43.0


From f30a28cf0e826120e9c954d0be2b8eb9c202de63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:33 +0000
Subject: [PATCH 58/64] fix: kill() of a process started via a shell or conda
 ends that process too

---
 teleprox/process.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/teleprox/process.py b/teleprox/process.py
index 708917d..6cc9e7d 100644
--- a/teleprox/process.py
+++ b/teleprox/process.py
@@ -285,7 +285,7 @@ def start_process(name=None, address="tcp://127.0.0.1:*", qt=False, log_addr=Non
     if daemon is True:
         return DaemonProcess(client, name, qt, status['pid'])
     else:
-        return ChildProcess(proc, client, name, qt, stdio_logger)
+        return ChildProcess(proc, client, name, qt, stdio_logger, pid=status['pid'])
 
 
 class DaemonProcess:
@@ -312,9 +312,10 @@ class DaemonProcess:
 
 
 class ChildProcess:
-    def __init__(self, proc, client, name, qt, stdio_logger=None):
+    def __init__(self, proc, client, name, qt, stdio_logger=None, pid=None):
         self.proc = proc
-        self.pid = proc.pid
+        # differs from proc.pid if the process was started by a shell or by conda
+        self.pid = proc.pid if pid is None else pid
         self.client = client
         self.name = name
         self.qt = qt
@@ -362,8 +363,14 @@ class ChildProcess:
         """
         if self.proc.poll() is not None:
             return
-        logger.info("Kill child process: %d", self.proc.pid)
+        logger.info("Kill child process: %d", self.pid)
         self.proc.kill()
+        if self.pid != self.proc.pid:
+            # killing a shell does not end the process that it runs
+            try:
+                kill_pid(self.pid)
+            except OSError:
+                pass
 
         return self.wait()
 
-- 
2.43.0


From eb782603309b3855d2e56512e7271cb5be5b03be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:33 +0000
Subject: [PATCH 59/64] fix: log records relayed by a process keep their origin

---
 teleprox/log/remote.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/teleprox/log/remote.py b/teleprox/log/remote.py
index a6e7c7f..8d3e655 100644
--- a/teleprox/log/remote.py
+++ b/teleprox/log/remote.py
@@ -213,10 +213,11 @@ class LogSender(logging.Handler):
         if rec['exc_info'] and not rec['exc_text']:
             rec['exc_text'] = logging.Formatter().formatException(rec['exc_info'])
         rec['exc_info'] = None
+        # (records that were received from another process keep their origin)
         if process_name is not None:
-            rec['process_name'] = process_name
-        rec['thread_name'] = _get_assigned_name(rec['thread'], rec['threadName'])
-        rec['host_name'] = host_name
+            rec.setdefault('process_name', process_name)
+        rec.setdefault('thread_name', _get_assigned_name(rec['thread'], rec['threadName']))
+        rec.setdefault('host_name', host_name)
         return json.dumps(rec, default=str, skipkeys=True).encode('utf-8')
 
     def _send(self, data):
-- 
2.43.0


From f5d3be2725534a9d564018053ae15bdb1fc4fc03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:33 +0000
Subject: [PATCH 60/64] fix: log viewer shows records as they were when logged,
 honours handler filters

---
 teleprox/log/logviewer.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/teleprox/log/logviewer.py b/teleprox/log/logviewer.py
index dc11f30..151ddde 100644
--- a/teleprox/log/logviewer.py
+++ b/teleprox/log/logviewer.py
@@ -2,6 +2,7 @@
 # Copyright (c) 2016, French National Center for Scientific Research (CNRS)
 # Distributed under the (new) BSD License. See LICENSE for more info.
 
+import copy
 import logging
 from teleprox import qt
 
@@ -55,4 +56,16 @@ class QtLogHandler(logging.Handler, qt.QObject):
         qt.QObject.__init__(self)
         
     def handle(self, record):
-        self.new_record.emit(record)
\ No newline at end of file
+        if not self.filter(record):
+            return False
+        try:
+            # the arguments might be modified before this record is displayed
+            message = record.getMessage()
+        except Exception:
+            self.handleError(record)
+            return True
+        record = copy.copy(record)
+        record.msg = message
+        record.args = None
+        self.new_record.emit(record)
+        return True
\ No newline at end of file
-- 
2.43.0


From 35457982e463eac27beee5e4382f2be13ceacb85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:51 +0000
Subject: [PATCH 61/64] fix: start_process() applies log_level without a log
 address

---
 teleprox/process.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/teleprox/process.py b/teleprox/process.py
index 6cc9e7d..2ea9b38 100644
--- a/teleprox/process.py
+++ b/teleprox/process.py
@@ -125,6 +125,7 @@ def start_process(name=None, address="tcp://127.0.0.1:*", qt=False, log_addr=Non
     if isinstance(log_addr, str):
         log_addr = log_addr.encode()
     assert log_level is None or isinstance(log_level, (int, str)), f"log_level must be int, str, or None; got {repr(log_level)}"
+    set_log_level = log_level is not None or log_addr is not None
     if log_level is None:
         log_level = logger.getEffectiveLevel()
     elif isinstance(log_level, str):
@@ -161,10 +162,9 @@ def start_process(name=None, address="tcp://127.0.0.1:*", qt=False, log_addr=Non
     if daemon is True:
         bootstrap_args.append('--daemon')
     if log_addr is not None:
-        bootstrap_args.extend([
-            f'--logaddr={log_addr.decode()}',
-            f'--loglevel={log_level}',
-        ])
+        bootstrap_args.append(f'--logaddr={log_addr.decode()}')
+    if set_log_level:
+        bootstrap_args.append(f'--loglevel={log_level}')
     bootstrap_args.extend([
         f'--listen_addr={address}',
         f'--bootstrap_addr={bootstrap_addr.decode()}',
-- 
2.43.0


From 3ce74c9b58b39185c554a1e2892d9c2120dd619c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:51 +0000
Subject: [PATCH 62/64] fix: all numpy scalars can be sent, whatever
 serialize_types contains

---
 teleprox/serializer.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/teleprox/serializer.py b/teleprox/serializer.py
index e5af38d..1c2ebcd 100644
--- a/teleprox/serializer.py
+++ b/teleprox/serializer.py
@@ -134,19 +134,19 @@ class Serializer:
             return {encode_key: 'tuple', 'data': list(obj)}
         elif obj is None:
             return {encode_key: 'none'}
-        elif HAVE_NUMPY and isinstance(obj, (np.number, np.bool_)):
+        elif (HAVE_NUMPY and isinstance(obj, (np.bool_, np.integer, np.floating))
+              and not isinstance(obj, (np.timedelta64, np.longdouble))):
+            # (other numpy scalars cannot be represented by a python number)
             if isinstance(obj, np.bool_):
                 val = bool(obj)
             elif isinstance(obj, np.integer):
                 val = int(obj)
-            elif isinstance(obj, np.floating):
-                val = float(obj)
             else:
-                raise TypeError("Unhandled numpy scalar type: %s" % type(obj))
+                val = float(obj)
 
             return {
                 encode_key: 'np_number',
-                'dtype': obj.dtype,
+                'dtype': obj.dtype.str,
                 'value': val
             }
         else:
@@ -180,7 +180,7 @@ class Serializer:
             elif type_name == 'pickle':
                 return pickle.loads(dct['pickle_str'])
             elif type_name == 'np_number':
-                return dct['dtype'].type(dct['value'])
+                return np.dtype(dct['dtype']).type(dct['value'])
             elif type_name == 'datetime':
                 return datetime.datetime.fromisoformat(dct['data'])
             elif type_name == 'date':
-- 
2.43.0


From aa82fddc50d11d67b7b1fa5a3664fec7949e0e1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:51 +0000
Subject: [PATCH 63/64] fix: json serializer sends arrays by proxy if
 serialize_types excludes them

---
 teleprox/serializer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/teleprox/serializer.py b/teleprox/serializer.py
index 1c2ebcd..d82ff38 100644
--- a/teleprox/serializer.py
+++ b/teleprox/serializer.py
@@ -304,7 +304,8 @@ class JsonSerializer(Serializer):
         return json.loads(msg.decode())
 
     def encode(self, obj):
-        if HAVE_NUMPY and isinstance(obj, np.ndarray) and not obj.dtype.hasobject:
+        if (HAVE_NUMPY and isinstance(obj, np.ndarray) and not obj.dtype.hasobject
+                and isinstance(obj, self._serialize_types)):
             # JSON doesn't support bytes, so we use base64 encoding instead:
             if not obj.flags['C_CONTIGUOUS']:
                 obj = np.ascontiguousarray(obj)
-- 
2.43.0


From 63af9c64602fba6113710cd448d3638d423ea07b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:17 +0000
Subject: [PATCH 64/64] fix: records above level CRITICAL are written even if
 colorama is installed

---
 teleprox/log/handler.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/teleprox/log/handler.py b/teleprox/log/handler.py
index 4a1ebab..9daef83 100644
--- a/teleprox/log/handler.py
+++ b/teleprox/log/handler.py
@@ -120,6 +120,7 @@ class RPCLogHandler(logging.StreamHandler):
         message = logging.StreamHandler.format(self, record)
         if HAVE_COLORAMA:
             ind = record.levelno // 10 * 10  # decrease to multiple of 10
+            ind = min(max(ind, 0), logging.CRITICAL)  # levels may be anything
             message = _level_color_map[ind] + message + colorama.Style.RESET_ALL
             
         return header + ' ' + message
-- 
2.43.0

