From 3f7037c105340e8578b4d2ec1cad302d1c60f109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:07 +0000
Subject: [PATCH 01/58] fix: log messages with non-UTF-8 arguments without
 killing the read loop

Formatting a received message with str() raises UnicodeDecodeError on
Python 3 when an argument is not valid UTF-8. In the server's and client's
read loops this happened again in the exception handler, ending the loop
and leaving the connection open but never served again.
---
 katcp/client.py |  6 +++---
 katcp/server.py | 10 +++++-----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/katcp/client.py b/katcp/client.py
index a34191e..01e55ad 100644
--- a/katcp/client.py
+++ b/katcp/client.py
@@ -438,7 +438,7 @@ class DeviceClient(with_metaclass(DeviceMetaclass, object)):
             return self._stream.write(data)
         except Exception:
             self._logger.warn('Could not send message {0!r} to {1!r}'
-                              .format(str(msg), self._bindaddr), exc_info=True)
+                              .format(bytes(msg), self._bindaddr), exc_info=True)
             self._disconnect(exc_info=True)
 
     @gen.coroutine
@@ -545,7 +545,7 @@ class DeviceClient(with_metaclass(DeviceMetaclass, object)):
         if self._logger.isEnabledFor(logging.DEBUG):
             self._logger.debug(
                 "received from {}: {}"
-                .format(self.bind_address_string, repr(str(msg))))
+                .format(self.bind_address_string, repr(bytes(msg))))
 
         if msg.mtype == Message.INFORM:
             return self.handle_inform(msg)
@@ -760,7 +760,7 @@ class DeviceClient(with_metaclass(DeviceMetaclass, object)):
                 except Exception:
                     self._logger.exception(
                         'Unhandled exception in handle_message() from {0} for '
-                        'message {1!r}'.format(self.bind_address_string, str(msg)))
+                        'message {1!r}'.format(self.bind_address_string, bytes(msg)))
 
         self._disconnect()
 
diff --git a/katcp/server.py b/katcp/server.py
index f9190e2..478eda3 100644
--- a/katcp/server.py
+++ b/katcp/server.py
@@ -554,8 +554,8 @@ class KATCPServer(object):
                     if msg:  # Ignore empty messages (i.e empty lines)
                         yield self._device.on_message(client_conn, msg)
                 except Exception:
-                    self._logger.error('Error handling message {0!s}'
-                                       .format(msg), exc_info=True)
+                    self._logger.error('Error handling message {0!r}'
+                                       .format(bytes(msg)), exc_info=True)
                 # Allow the ioloop to run since we may be starving it if
                 # there is buffered data in the stream, resulting in yield
                 # stream.read_until_regex('\n|\r') never actually yielding
@@ -648,7 +648,7 @@ class KATCPServer(object):
         except Exception:
             addr = self.get_address(stream)
             self._logger.warn('Could not send message {0!r} to {1}'
-                              .format(str(msg), addr), exc_info=True)
+                              .format(bytes(msg), addr), exc_info=True)
             stream.close(exc_info=True)
 
     def flush_on_close(self, stream):
@@ -858,7 +858,7 @@ class MessageHandlerThread(object):
                             ready_future.set_result(res)
                     except Exception as e:
                         err_msg = ('Error calling message '
-                                   'handler for msg:\n {0!s}'.format(msg))
+                                   'handler for msg:\n {0!r}'.format(bytes(msg)))
                         self._logger.error(err_msg, exc_info=True)
                         client_conn.inform(self.log_inform_formatter(
                             'error', 'See device logs:\n' + err_msg, 'root'))
@@ -1024,7 +1024,7 @@ class DeviceServerBase(with_metaclass(DeviceServerMetaclass, object)):
 
         """
         # log messages received so that no one else has to
-        self._logger.debug('received: {0!s}'.format(msg))
+        self._logger.debug('received: {0!r}'.format(bytes(msg)))
 
         if msg.mtype == msg.REQUEST:
             return self.handle_request(client_conn, msg)
-- 
2.43.0


From 2407ec775006a28fac8bb1e899f38950be24bf52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:37 +0000
Subject: [PATCH 02/58] fix: do not run the previous request again when a read
 from a client fails

---
 katcp/server.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/katcp/server.py b/katcp/server.py
index 478eda3..3a6f3ce 100644
--- a/katcp/server.py
+++ b/katcp/server.py
@@ -534,9 +534,13 @@ class KATCPServer(object):
                     # Assume that _stream_closed_callback() will handle this
                     break
                 except Exception:
-                        self._logger.warn('Unhandled Exception '
-                                          'while reading from client {0}:'
-                                          .format(client_address), exc_info=True)
+                    # E.g. more than MAX_MSG_SIZE bytes without a terminator.
+                    # There is no new line, so there is nothing to handle.
+                    self._logger.warn('Unhandled Exception '
+                                      'while reading from client {0}:'
+                                      .format(client_address), exc_info=True)
+                    stream.close(exc_info=True)
+                    break
                 try:
                     line = line.replace(b"\r", b"\n").split(b"\n")[0]
                     msg = self._parser.parse(line) if line else None
-- 
2.43.0


From 8117fd0ca1c76f1bcbb7c397108d9496102e2af2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:52 +0000
Subject: [PATCH 03/58] fix: do not disconnect clients that pipeline long
 messages within the size limit

---
 katcp/server.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/katcp/server.py b/katcp/server.py
index 3a6f3ce..773e95a 100644
--- a/katcp/server.py
+++ b/katcp/server.py
@@ -386,10 +386,13 @@ class KATCPServer(object):
         # Make sure we have an ioloop
         self.ioloop = self._ioloop_manager.get_ioloop()
         self._ioloop_manager.start()
-        # Set max_buffer_size to ensure streams are closed
-        # if too-large messages are received
+        # Streams are closed if too-large messages are received, see the max_bytes
+        # parameter in _line_read_loop(). The read buffer may also hold part of the
+        # messages that follow (up to a read chunk, and tornado only looks for the
+        # terminator each time the buffered data doubles), so it needs to be larger
+        # or pipelined messages within the limit would close the stream.
         self._tcp_server = tornado.tcpserver.TCPServer(
-            self.ioloop, max_buffer_size=self.MAX_MSG_SIZE)
+            self.ioloop, max_buffer_size=4*self.MAX_MSG_SIZE)
         self._tcp_server.handle_stream = self._handle_stream
         self._server_sock = self._bind_socket(self._bindaddr)
         self._bindaddr = self._server_sock.getsockname()
@@ -529,7 +532,8 @@ class KATCPServer(object):
                         # resulting in message handlers being called with a
                         # closed connection. Exit early instead.
                         break
-                    line = yield stream.read_until_regex(b'\n|\r')
+                    line = yield stream.read_until_regex(
+                        b'\n|\r', max_bytes=self.MAX_MSG_SIZE)
                 except iostream.StreamClosedError:
                     # Assume that _stream_closed_callback() will handle this
                     break
-- 
2.43.0


From a1bc221dec67a35b9137af188eb0ec6f328ff4cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:46 +0000
Subject: [PATCH 04/58] fix: let a client's disconnect notice be flushed when
 it is disconnected for two reasons at once

---
 katcp/server.py | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/katcp/server.py b/katcp/server.py
index 773e95a..e0bd026 100644
--- a/katcp/server.py
+++ b/katcp/server.py
@@ -119,6 +119,8 @@ class ClientConnection(object):
         self._server = server
         self._conn_key = conn_id
         self._disconnect_called = False
+        # Resolves when the disconnect handler is done and the connection is closed
+        self.disconnected = tornado_Future()
         self._get_address = partial(server.get_address, conn_id)
         self._send_message = partial(server.send_message, conn_id)
         self._mass_send_message = server.mass_send_message
@@ -594,21 +596,26 @@ class KATCPServer(object):
         assert get_thread_ident() == self.ioloop_thread_id
         stream_open = not stream.closed()
         address = self.get_address(stream)
+        if conn.client_disconnect_called:
+            # Already being disconnected for another reason. Closing the stream now
+            # could drop what is still being flushed, so wait for that to complete.
+            yield conn.disconnected
+            return
         try:
-            if not conn.client_disconnect_called:
-                try:
-                    conn.on_client_disconnect_was_called()
-                    f = gen.maybe_future(self._device.on_client_disconnect(
-                        conn, reason, stream_open))
-                    yield with_relative_timeout(self.DISCONNECT_TIMEOUT, f)
-                except Exception:
-                    self._logger.error('Error while calling '
-                                       'on_client_disconnect for client {0}'
-                                       .format(address), exc_info=True)
+            try:
+                conn.on_client_disconnect_was_called()
+                f = gen.maybe_future(self._device.on_client_disconnect(
+                    conn, reason, stream_open))
+                yield with_relative_timeout(self.DISCONNECT_TIMEOUT, f)
+            except Exception:
+                self._logger.error('Error while calling '
+                                   'on_client_disconnect for client {0}'
+                                   .format(address), exc_info=True)
 
         finally:
             # Make sure stream is closed.
             stream.close()
+            conn.disconnected.set_result(None)
 
     def get_address(self, stream):
         """Text representation of the network address of a connection stream.
-- 
2.43.0


From f7254b3fe3e4d8859fe9752d83a8dc2cfec16d27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:31 +0000
Subject: [PATCH 05/58] fix: a late message to a client being disconnected no
 longer drops its disconnect notice

---
 katcp/server.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/katcp/server.py b/katcp/server.py
index e0bd026..27a2c18 100644
--- a/katcp/server.py
+++ b/katcp/server.py
@@ -664,7 +664,9 @@ class KATCPServer(object):
             addr = self.get_address(stream)
             self._logger.warn('Could not send message {0!r} to {1}'
                               .format(bytes(msg), addr), exc_info=True)
-            stream.close(exc_info=True)
+            if not stream.KATCPServer_closing:
+                stream.close(exc_info=True)
+            # else: whoever called flush_on_close() closes the stream once flushed
 
     def flush_on_close(self, stream):
         """Flush tornado iostream write buffer and prevent further writes.
-- 
2.43.0


From 453e56157427670442c13e6656432242a02b7e09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:42 +0000
Subject: [PATCH 06/58] fix: stopping an IOLoopManager again while or after its
 loop ends neither raises nor hangs

---
 katcp/ioloop_manager.py | 34 ++++++++++++++++++++++++++--------
 1 file changed, 26 insertions(+), 8 deletions(-)

diff --git a/katcp/ioloop_manager.py b/katcp/ioloop_manager.py
index 8f87cdc..912c2c2 100644
--- a/katcp/ioloop_manager.py
+++ b/katcp/ioloop_manager.py
@@ -46,6 +46,9 @@ class IOLoopManager(object):
         # Event that indicates that the ioloop is running.
         self._running = threading.Event()
         self._start_lock = threading.Lock()
+        # Futures of stop() calls that were handed to the current managed ioloop
+        self._stop_futures = []
+        self._stop_lock = threading.Lock()
         self._daemonize = False
 
     @property
@@ -81,9 +84,15 @@ class IOLoopManager(object):
                 self._logger.error('Error running tornado IOloop: ',
                                    exc_info=True)
             finally:
-                ioloop = self._ioloop
-                self._ioloop = None
+                with self._stop_lock:
+                    ioloop = self._ioloop
+                    self._ioloop = None
+                    stop_futures, self._stop_futures = self._stop_futures, []
                 self._running.clear()
+                # The ioloop is gone, so stop() calls it did not get to are done too
+                for f in stop_futures:
+                    if not f.done():
+                        f.set_result(None)
                 self._logger.info('Managed tornado IOloop {0} stopped'
                                   .format(ioloop))
 
@@ -161,12 +170,21 @@ class IOLoopManager(object):
                 self._ioloop.stop()
             self._running.clear()
 
-        try:
-            self._ioloop.add_callback(
-                lambda: gen.chain_future(_stop(), stopped_future))
-        except AttributeError:
-            # Probably we have been shut-down already
-            pass
+        with self._stop_lock:
+            if self._ioloop is None:
+                # Not started or already shut down
+                stopped_future.set_result(None)
+                return stopped_future
+            if self._ioloop_managed:
+                self._stop_futures.append(stopped_future)
+            try:
+                self._ioloop.add_callback(
+                    lambda: gen.chain_future(_stop(), stopped_future))
+            except Exception:
+                # A managed ioloop was closed just now, its thread resolves
+                # stopped_future
+                if not self._ioloop_managed:
+                    raise
 
         return stopped_future
 
-- 
2.43.0


From 0949769adbaeb1e2cdec3b0e3ea8e0128e76d090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:41 +0000
Subject: [PATCH 07/58] fix: accept the documented 'all' level in the log-level
 request

---
 katcp/server.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/katcp/server.py b/katcp/server.py
index 27a2c18..8c9d9f3 100644
--- a/katcp/server.py
+++ b/katcp/server.py
@@ -2553,6 +2553,7 @@ class DeviceLogger(object):
 
     ## @brief Map of Python logging level to corresponding to KATCP levels
     PYTHON_LEVEL = {
+        ALL: 0,
         TRACE: 0,
         DEBUG: logging.DEBUG,
         INFO: logging.INFO,
-- 
2.43.0


From e929acfb6684721c7249aca0b356404826118f44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:38 +0000
Subject: [PATCH 08/58] fix: the event sampling strategy loses no updates while
 the clock is behind

---
 katcp/sampling.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/katcp/sampling.py b/katcp/sampling.py
index 14fed93..0d4a7bf 100644
--- a/katcp/sampling.py
+++ b/katcp/sampling.py
@@ -470,7 +470,7 @@ class SampleEventRate(SampleStrategy):
             # Ignore update if sensor value/status is unchanged
             return
         now = self.ioloop.time()
-        if now < self._not_before:
+        if self._shortest_period and now < self._not_before:
             # Too soon to send an update again
             if not self._short_timeout_handle:
                 # Make sure we schedule a callback to send the sensor value as
-- 
2.43.0


From 2ce996f9fbf02b3d33013ffeeeb8590e85d12b4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:38 +0000
Subject: [PATCH 09/58] fix: attach a sampling strategy before its initial
 update so that none is lost

---
 katcp/sampling.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/katcp/sampling.py b/katcp/sampling.py
index 0d4a7bf..543d424 100644
--- a/katcp/sampling.py
+++ b/katcp/sampling.py
@@ -230,8 +230,10 @@ class SampleStrategy(object):
     def attach(self):
         """Attach strategy to its sensor and send initial update."""
         s = self._sensor
+        # Attach first, so that no update made by another thread in between
+        # can be missed
+        s.attach(self)
         self.update(s, s.read())
-        self._sensor.attach(self)
 
     def detach(self):
         """Detach strategy from its sensor."""
-- 
2.43.0


From 71d15bddb45054afe111b0fe6ac3fbec9c7d3a81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:12 +0000
Subject: [PATCH 10/58] fix: refuse NaN sampling parameters and non-positive
 differential-rate differences

---
 katcp/sampling.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/katcp/sampling.py b/katcp/sampling.py
index 543d424..37c03f8 100644
--- a/katcp/sampling.py
+++ b/katcp/sampling.py
@@ -333,7 +333,7 @@ class SampleDifferential(SampleStrategy):
                 raise ValueError("The diff amount must be a positive integer.")
         elif sensor._sensor_type == Sensor.FLOAT:
             self._threshold = float(params[0])
-            if self._threshold <= 0:
+            if not self._threshold > 0:
                 raise ValueError("The diff amount must be a positive float.")
         else:
             # _sensor_type must be Sensor.TIMESTAMP
@@ -342,7 +342,7 @@ class SampleDifferential(SampleStrategy):
             # the timestamp sensor type should be in milliseconds. For now, just
             # ignore this eventuality, and fix if anyone actually needs this
             self._threshold = float(params[0])
-            if self._threshold <= 0:
+            if not self._threshold > 0:
                 raise ValueError("The diff amount must be a positive number "
                                  "of seconds.")
         self._lastStatus = None
@@ -371,7 +371,7 @@ class SamplePeriod(SampleStrategy):
                              "Parameters passed: %r, in pid : %s"
                              % (params, os.getpid()))
         period = float(params[0])
-        if period <= 0:
+        if not period > 0:
             raise ValueError("The period must be a positive float in seconds. "
                              "Parameters passed: %r, in pid : %s"
                              % (params, os.getpid()))
@@ -544,6 +544,8 @@ class SampleDifferentialRate(SampleEventRate):
         else:
             raise ValueError('The differential-rate strategy can only be '
                              'defined for integer or float sensors')
+        if not difference > 0:
+            raise ValueError('The difference must be a positive number')
         self.difference = difference
         # Initial value that should not cause errors in _sensor_changed(),
         # but should let it return True
-- 
2.43.0


From 514660a5794013906ab572feae91d9dd7e67c599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:12 +0000
Subject: [PATCH 11/58] fix: rate-limited sampling does not drop a change that
 arrives just before its timer

---
 katcp/sampling.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/katcp/sampling.py b/katcp/sampling.py
index 37c03f8..3cdc532 100644
--- a/katcp/sampling.py
+++ b/katcp/sampling.py
@@ -457,8 +457,9 @@ class SampleEventRate(SampleStrategy):
 
     def _short_timeout_handler(self):
         self._short_timeout_handle = None
-        if (self.ioloop.time() >= self._not_before):
-            self.inform(self._sensor.read())
+        # Sends a change that is still pending, or waits again if an update has
+        # been sent since this timeout was scheduled
+        self.update(self._sensor, self._sensor.read())
 
     def _sensor_changed(self, reading):
         _, status, value = reading
-- 
2.43.0


From 72d5a7aa6541c8e00b924a6b8fd9f1c7750a3ec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:11 +0000
Subject: [PATCH 12/58] fix: a cancelled sampling strategy neither attaches to
 its sensor nor sends queued updates

---
 katcp/sampling.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/katcp/sampling.py b/katcp/sampling.py
index 3cdc532..61613b3 100644
--- a/katcp/sampling.py
+++ b/katcp/sampling.py
@@ -109,6 +109,7 @@ class SampleStrategy(object):
         self._inform_callback = inform_callback
         self._sensor = sensor
         self._params = params
+        self._cancelled = False
 
     @classmethod
     def get_strategy(cls, strategyName, inform_callback, sensor,
@@ -241,6 +242,7 @@ class SampleStrategy(object):
 
     def cancel(self):
         """Detach strategy from its sensor and cancel ioloop callbacks."""
+        self._cancelled = True
         if self.OBSERVE_UPDATES:
             self.detach()
         self.ioloop.add_callback(self.cancel_timeouts)
@@ -254,14 +256,20 @@ class SampleStrategy(object):
         :attr:`_ioloop_thread_id` using `thread.get_ident()`.
 
         """
+        self._cancelled = False
+
         def first_run():
             self._ioloop_thread_id = get_thread_ident()
-            if self.OBSERVE_UPDATES:
+            # The strategy may have been cancelled before it got to run
+            if self.OBSERVE_UPDATES and not self._cancelled:
                 self.attach()
         self.ioloop.add_callback(first_run)
 
     def inform(self, reading):
         """Inform strategy creator of the sensor status."""
+        if self._cancelled:
+            # E.g. an update from another thread that was still queued
+            return
         try:
             self._inform_callback(self._sensor, reading)
         except Exception:
@@ -422,6 +430,7 @@ class SampleEventRate(SampleStrategy):
         shortest_period = float(params[0])
         longest_period = float(params[1])
         self._next_periodic = 1e99
+        self._periodic_timeout_handle = None
 
         if not 0 <= shortest_period <= longest_period:
             raise ValueError("The shortest and longest periods must "
@@ -445,6 +454,8 @@ class SampleEventRate(SampleStrategy):
         self.ioloop.add_callback(self._periodic_sampling)
 
     def _periodic_sampling(self):
+        if self._cancelled:
+            return
         if self._not_after >= AGE_OF_UNIVERSE:
             # Ignore stupidly long periods
             self._periodic_timeout_handle = None
-- 
2.43.0


From be9c7d64778a5478961f3f7b457b32becc42a8dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:52 +0000
Subject: [PATCH 13/58] fix: a request that cannot be sent fails with a reply
 message

callback_request() and future_request() completed a request that could not be
sent with a message of type REQUEST instead of REPLY.
---
 katcp/client.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/katcp/client.py b/katcp/client.py
index 01e55ad..33fea1a 100644
--- a/katcp/client.py
+++ b/katcp/client.py
@@ -1285,8 +1285,7 @@ class AsyncClient(DeviceClient):
         try:
             self.send_request(msg)
         except KatcpClientError as e:
-            error_reply = Message.request(msg.name, "fail", str(e))
-            error_reply.mid = mid
+            error_reply = Message.reply(msg.name, "fail", str(e), mid=mid)
             self.handle_reply(error_reply)
 
     def future_request(self, msg, timeout=None, use_mid=None):
-- 
2.43.0


From 230009627ba86fe793319d64707318b5c13e58fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:04 +0000
Subject: [PATCH 14/58] fix: answers without message id go to the request sent
 without one

A reply or inform without a message id was matched to the oldest request of
that name even if that one had been sent with an id. It was then discarded, so
the request it belonged to timed out, and the timeout of the request it was
wrongly matched to was cancelled, so that one could wait forever.
---
 katcp/client.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/katcp/client.py b/katcp/client.py
index 33fea1a..30f61b4 100644
--- a/katcp/client.py
+++ b/katcp/client.py
@@ -1236,11 +1236,16 @@ class AsyncClient(DeviceClient):
     def _msg_id_for_name(self, msg_name):
         """Find the msg_id for a given request name.
 
+        Only considers requests that were sent without a message id; an answer
+        without an id cannot belong to any other request.
+
         Return None if no message id exists.
 
         """
-        if msg_name in self._async_id_stack and self._async_id_stack[msg_name]:
-            return self._async_id_stack[msg_name][0]
+        for msg_id in self._async_id_stack.get(msg_name, ()):
+            request = self._async_queue.get(msg_id, (None,))[0]
+            if request is not None and request.mid is None:
+                return msg_id
 
     @make_threadsafe
     def callback_request(self, msg, reply_cb=None, inform_cb=None,
-- 
2.43.0


From 57dee4c280c02cf2dad071aa2e803ccdba309af7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:03 +0000
Subject: [PATCH 15/58] fix: a client stopped while connecting does not keep
 the connection

When stop() was called while the TCP connection was being established, the
client still became connected once that completed, and the connection was left
open after the client had reported that it had stopped.
---
 katcp/client.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/katcp/client.py b/katcp/client.py
index 30f61b4..bd68fb8 100644
--- a/katcp/client.py
+++ b/katcp/client.py
@@ -454,8 +454,13 @@ class DeviceClient(with_metaclass(DeviceMetaclass, object)):
         stream = None
         try:
             host, port = self._bindaddr
-            stream = self._stream = yield self._tcp_client.connect(
+            stream = yield self._tcp_client.connect(
                 host, port, max_buffer_size=self.MAX_MSG_SIZE)
+            if not self.running():
+                # Stopped while the connection was being established
+                stream.close()
+                return
+            self._stream = stream
             stream.set_close_callback(partial(self._stream_closed_callback,
                                               stream))
             # our message packets are small, don't delay sending them.
-- 
2.43.0


From 23f1ec719747c4ceae25f61b3c3cc91b52694cce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:45 +0000
Subject: [PATCH 16/58] fix: no disconnect notification without a connect
 notification

If the server closed the connection while it was still being set up, the client
called notify_connected(False) although notify_connected(True) had not been
called for that connection.
---
 katcp/client.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/katcp/client.py b/katcp/client.py
index bd68fb8..235de86 100644
--- a/katcp/client.py
+++ b/katcp/client.py
@@ -521,6 +521,7 @@ class DeviceClient(with_metaclass(DeviceMetaclass, object)):
         try:
             assert stream is self._stream
             self._stream = None
+            was_connected = self._connected.isSet()
             self._connected.clear()
             self._disconnected.set()
             error_repr = '{0!r}'.format(stream.error) if stream.error else ''
@@ -528,6 +529,9 @@ class DeviceClient(with_metaclass(DeviceMetaclass, object)):
                 self._logger.warn('Client stream for server '
                                   '{0} closed with error {1}'
                                   .format(self.bind_address_string, error_repr))
+            if not was_connected:
+                # Lost again before notify_connected(True) was called
+                return
             try:
                 self.notify_connected(False)
             except Exception:
-- 
2.43.0


From 193607a63becf0d0a33f20c6258493cb8e3ba29a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:10 +0000
Subject: [PATCH 17/58] fix: stopping a client with a managed ioloop twice does
 not raise

The second stop() raised RuntimeError once the managed ioloop was closed.
---
 katcp/client.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/katcp/client.py b/katcp/client.py
index 235de86..c2277cb 100644
--- a/katcp/client.py
+++ b/katcp/client.py
@@ -1543,8 +1543,13 @@ class AsyncClient(DeviceClient):
                                (msg.name, reason))
 
     def stop(self, *args, **kwargs):
-        self.ioloop.add_callback(self._fail_waiting_requests,
-                                 'Client stopped before reply was received')
+        try:
+            self.ioloop.add_callback(self._fail_waiting_requests,
+                                     'Client stopped before reply was received')
+        except RuntimeError:
+            if not self._ioloop_manager.managed:
+                raise
+            # The managed ioloop was stopped before, so no request is waiting
         super(AsyncClient, self).stop(*args, **kwargs)
 
     def _fail_waiting_requests(self, reason):
-- 
2.43.0


From ae3f48052fcc61dadd44ab4e1052566fcac92a66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:10 +0000
Subject: [PATCH 18/58] fix: a client stopped right after start() reports
 stopped only when it is

until_stopped() resolved at once if stop() was called before the client's main
coroutine had begun, which then still connected to the server.
---
 katcp/client.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/katcp/client.py b/katcp/client.py
index c2277cb..6f3befc 100644
--- a/katcp/client.py
+++ b/katcp/client.py
@@ -879,6 +879,7 @@ class DeviceClient(with_metaclass(DeviceMetaclass, object)):
         self._ioloop_manager.start(timeout)
         # update state variables before starting `_install()`
         self._init_state_per_run(ioloop=self.ioloop)
+        self._stopped.clear()
         self.ioloop.add_callback(self._install)
         if timeout:
             remaining_timeout = timeout - (self.ioloop.time() - t0)
-- 
2.43.0


From d53de7089e14522ac93e84b79631bba501cb7341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:20 +0000
Subject: [PATCH 19/58] fix: replies resolved by another thread do not overtake
 the informs sent before them

---
 katcp/server.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/katcp/server.py b/katcp/server.py
index 8c9d9f3..5610151 100644
--- a/katcp/server.py
+++ b/katcp/server.py
@@ -1115,7 +1115,15 @@ class DeviceServerBase(with_metaclass(DeviceServerMetaclass, object)):
                     # have to always fall back to adding a callback, or wrapping
                     # a thread-safe future. Supporting sync-with-thread and
                     # async futures is turning out to be a pain in the ass ;)
-                    self.ioloop.add_callback(reply.add_done_callback, async_reply)
+                    if isinstance(reply, Future):
+                        # A thread-safe future may resolve at any time in any
+                        # thread. Reply by way of the ioloop from there so that
+                        # the reply cannot overtake informs sent before it.
+                        reply.add_done_callback(partial(
+                            self.ioloop.add_callback, async_reply))
+                    else:
+                        self.ioloop.add_callback(
+                            reply.add_done_callback, async_reply)
                     # reply.add_done_callback(async_reply)
 
                     if concurrent:
-- 
2.43.0


From dbfc93cb0bb6d3ecb2e5ddac7b810374e5eb3e4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:20 +0000
Subject: [PATCH 20/58] fix: a restarted server does not execute requests its
 previous run left in the handler thread's queue

---
 katcp/server.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/katcp/server.py b/katcp/server.py
index 5610151..5347215 100644
--- a/katcp/server.py
+++ b/katcp/server.py
@@ -855,6 +855,10 @@ class MessageHandlerThread(object):
         self._wake.set()
         return ready_future
 
+    def discard_messages(self):
+        """Forget messages that were queued but not handled (while stopped)."""
+        self._msg_queue.clear()
+
     def run(self):
         self._running.set()
         # Set the default ioloop for anything using IOLoop.current()
@@ -1353,6 +1357,9 @@ class DeviceServerBase(with_metaclass(DeviceServerMetaclass, object)):
 
         if self._handler_thread and self._handler_thread.isAlive():
             raise RuntimeError('Message handler thread already started')
+        if self._handler_thread:
+            # What a previous run left behind is not for this one
+            self._handler_thread.discard_messages()
         self._server.start(timeout)
         self.ioloop = self._server.ioloop
         if self._handler_thread:
-- 
2.43.0


From 91a287538e26a805bac76aafe81b0cb98d432205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:36 +0000
Subject: [PATCH 21/58] fix: the client-list request survives clients
 connecting or leaving while it runs

---
 katcp/server.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/katcp/server.py b/katcp/server.py
index 5347215..bde807f 100644
--- a/katcp/server.py
+++ b/katcp/server.py
@@ -2034,7 +2034,8 @@ class DeviceServer(DeviceServerBase):
         """
         # TODO Get list of ClientConnection* instances and implement a standard
         # 'address-print' method in the ClientConnection class
-        clients = self._client_conns
+        # Clients may come and go in the ioloop thread while we are busy
+        clients = list(self._client_conns)
         num_clients = len(clients)
         for conn in clients:
             addr = conn.address
-- 
2.43.0


From 01a6bb2271e1a5463e79d63f0985ff706277f931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:39 +0000
Subject: [PATCH 22/58] fix: a handler thread that is stopped before it runs
 does end

---
 katcp/server.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/katcp/server.py b/katcp/server.py
index bde807f..5978d09 100644
--- a/katcp/server.py
+++ b/katcp/server.py
@@ -823,6 +823,8 @@ class MessageHandlerThread(object):
         self._msg_queue = deque()
         self._logger = logger
         self._running = threading.Event()
+        # Set from stop() until the next start()
+        self._stop_called = threading.Event()
         self._thread = None
         self.ioloop = None
         super(MessageHandlerThread, self).__init__()
@@ -865,7 +867,7 @@ class MessageHandlerThread(object):
         # in this thread gets self.ioloop
         self.ioloop.make_current()
         try:
-            while self._running.isSet():
+            while not self._stop_called.isSet():
                 if not self._msg_queue:
                     self._wake.wait()
                 while self._msg_queue:
@@ -900,6 +902,7 @@ class MessageHandlerThread(object):
         else:
             if self._thread and self._thread.is_alive():
                 raise RuntimeError('Cannot start since thread is already running')
+        self._stop_called.clear()
         self._thread = threading.Thread(target=self.run, name=self.name)
         self._thread.start()
         if timeout:
@@ -916,6 +919,7 @@ class MessageHandlerThread(object):
         """
         if timeout:
             self._running.wait(timeout)
+        self._stop_called.set()
         self._running.clear()
         # Make sure to wake the run thread.
         self._wake.set()
-- 
2.43.0


From 025a1ca36f81ba6e4ef1c43357457f35510fb665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:42 +0000
Subject: [PATCH 23/58] fix: a server with a handler thread does not drop
 requests when more than 300 clients wait

---
 katcp/server.py | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/katcp/server.py b/katcp/server.py
index 5978d09..deb7bdb 100644
--- a/katcp/server.py
+++ b/katcp/server.py
@@ -845,13 +845,8 @@ class MessageHandlerThread(object):
         *on_message* should not be called again until *ready* has resolved.
 
         """
-        MAX_QUEUE_SIZE = 300
-        if len(self._msg_queue) >= MAX_QUEUE_SIZE:
-            # This should never happen if callers to handle_message wait
-            # for its futures to resolve before sending another message.
-            # NM 2014-10-06: Except when there are multiple clients. Oops.
-            raise RuntimeError('MessageHandlerThread unhandled '
-                               'message queue full, not handling message')
+        # The queue holds at most one message per client, since callers wait for
+        # the future to resolve before passing on the client's next message.
         ready_future = Future()
         self._msg_queue.append((ready_future, client_conn, msg))
         self._wake.set()
-- 
2.43.0


From e9d0807b0755a0bb6e02b0470010d31bfe6ee38b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:51 +0000
Subject: [PATCH 24/58] fix: every waiter on the same state is woken when one
 of them uses until_any

---
 katcp/core.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/katcp/core.py b/katcp/core.py
index c34423c..ccf51cf 100644
--- a/katcp/core.py
+++ b/katcp/core.py
@@ -1909,11 +1909,10 @@ def until_any(*futures, **kwargs):
             # used together with AsyncState.until_state(). Also addresses Jira issue
             # CM-593
             for f in futures:
+                # Replace the list rather than changing it in place, since done_future is
+                # iterating over it while it calls us, and would skip the next callback.
                 if f._callbacks:
-                    try:
-                        f._callbacks.remove(handle_done)
-                    except ValueError:
-                        pass
+                    f._callbacks = [cb for cb in f._callbacks if cb is not handle_done]
 
     for f in futures:
         f.add_done_callback(handle_done)
-- 
2.43.0


From d1cde02b9012d38084f54204ee7b5abae177ddcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:51 +0000
Subject: [PATCH 25/58] fix: a zero timeout times out instead of meaning no
 timeout

---
 katcp/client.py            |  4 ++--
 katcp/core.py              | 10 +++++-----
 katcp/inspecting_client.py |  2 +-
 katcp/resource.py          |  2 +-
 4 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/katcp/client.py b/katcp/client.py
index 6f3befc..ec5f43e 100644
--- a/katcp/client.py
+++ b/katcp/client.py
@@ -1024,7 +1024,7 @@ class DeviceClient(with_metaclass(DeviceMetaclass, object)):
         t0 = self.ioloop.time()
         yield self.until_running(timeout=timeout)
         t1 = self.ioloop.time()
-        if timeout:
+        if timeout is not None:
             timedelta = timeout - (t1 - t0)
         else:
             timedelta = None
@@ -1082,7 +1082,7 @@ class DeviceClient(with_metaclass(DeviceMetaclass, object)):
         t0 = self.ioloop.time()
         yield self.until_running(timeout=timeout)
         t1 = self.ioloop.time()
-        if timeout:
+        if timeout is not None:
             timedelta = timeout - (t1 - t0)
         else:
             timedelta = None
diff --git a/katcp/core.py b/katcp/core.py
index ccf51cf..109bbf4 100644
--- a/katcp/core.py
+++ b/katcp/core.py
@@ -1652,7 +1652,7 @@ class AsyncEvent(object):
 
     def until_set(self, timeout=None):
         if not self._flag:
-            if timeout:
+            if timeout is not None:
                 return with_timeout(self._ioloop.time() + timeout,
                                     self._waiting_future,
                                     self._ioloop)
@@ -1776,7 +1776,7 @@ class AsyncState(object):
             raise ValueError('State must be one of {0}, not {1}'
                              .format(self._valid_states, state))
         if state != self._state:
-            if timeout:
+            if timeout is not None:
                 return with_timeout(self._ioloop.time() + timeout,
                                     self._waiting_futures[state],
                                     self._ioloop)
@@ -1919,7 +1919,7 @@ def until_any(*futures, **kwargs):
         if any_future.done():
             break
 
-    if timeout:
+    if timeout is not None:
         return with_timeout(ioloop.time() + timeout, any_future, ioloop)
     else:
         return any_future
@@ -1966,11 +1966,11 @@ def future_timeout_manager(timeout=None, ioloop=None):
     t0 = ioloop.time()
 
     def _remaining():
-        return timeout - (ioloop.time() - t0) if timeout else None
+        return timeout - (ioloop.time() - t0) if timeout is not None else None
 
     def maybe_timeout(f):
         """Applies timeout if timeout is not None"""
-        if not timeout:
+        if timeout is None:
             return f
         else:
             remaining = _remaining()
diff --git a/katcp/inspecting_client.py b/katcp/inspecting_client.py
index 4de6faa..22d048a 100644
--- a/katcp/inspecting_client.py
+++ b/katcp/inspecting_client.py
@@ -381,7 +381,7 @@ class InspectingClientAsync(object):
             self.katcp_client.stop()
             raise
 
-        if timeout:
+        if timeout is not None:
             yield maybe_timeout(self.katcp_client.until_connected())
         self._logger.debug('Katcp client connected')
 
diff --git a/katcp/resource.py b/katcp/resource.py
index 1a2ee2c..644ce09 100644
--- a/katcp/resource.py
+++ b/katcp/resource.py
@@ -959,7 +959,7 @@ class KATCPSensor(with_metaclass(abc.ABCMeta, object)):
         # Handle case where sensor is already at the desired value
         ioloop.add_callback(handle_update, self, self._reading)
 
-        if timeout:
+        if timeout is not None:
             to = ioloop.time() + timeout
             timeout_f = with_timeout(to, f)
             # Make sure we stop listening if the wait times out to prevent a
-- 
2.43.0


From 35c4ab7d2ecff5388f24836324bbc5004aba9b5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:10 +0000
Subject: [PATCH 26/58] fix: calls made from other threads while a client
 starts or stops are run or refused, not lost

---
 katcp/client.py         | 10 ++++++----
 katcp/ioloop_manager.py | 33 ++++++++++++++++++++++++++++++---
 2 files changed, 36 insertions(+), 7 deletions(-)

diff --git a/katcp/client.py b/katcp/client.py
index ec5f43e..a6ed177 100644
--- a/katcp/client.py
+++ b/katcp/client.py
@@ -834,7 +834,7 @@ class DeviceClient(with_metaclass(DeviceMetaclass, object)):
             if get_thread_ident() == self.ioloop_thread_id:
                 return meth(*args, **kwargs)
             else:
-                self.ioloop.add_callback(meth, *args, **kwargs)
+                self._ioloop_manager.add_callback(meth, *args, **kwargs)
         return wrapped
 
     def _make_threadsafe_blocking(self, meth):
@@ -854,7 +854,7 @@ class DeviceClient(with_metaclass(DeviceMetaclass, object)):
                     finally:
                         gen.chain_future(tf, f)
 
-                self.ioloop.add_callback(cb)
+                self._ioloop_manager.add_callback(cb)
                 return f.result(timeout)
         return wrapped
 
@@ -876,11 +876,13 @@ class DeviceClient(with_metaclass(DeviceMetaclass, object)):
         self._ioloop = self._ioloop_manager.get_ioloop()
         if timeout:
             t0 = self.ioloop.time()
-        self._ioloop_manager.start(timeout)
         # update state variables before starting `_install()`
         self._init_state_per_run(ioloop=self.ioloop)
         self._stopped.clear()
+        # Before the ioloop is started, so that it also runs before any calls that
+        # other threads make as soon as the ioloop is there.
         self.ioloop.add_callback(self._install)
+        self._ioloop_manager.start(timeout)
         if timeout:
             remaining_timeout = timeout - (self.ioloop.time() - t0)
             self.wait_running(remaining_timeout)
@@ -1384,7 +1386,7 @@ class AsyncClient(DeviceClient):
                 frf.set_exc_info(sys.exc_info())
             gen.chain_future(frf, f)
 
-        self.ioloop.add_callback(blocking_request_callback)
+        self._ioloop_manager.add_callback(blocking_request_callback)
 
         # We wait on the future result that should be set by the reply
         # handler callback. If this does not occur within the
diff --git a/katcp/ioloop_manager.py b/katcp/ioloop_manager.py
index 912c2c2..e433537 100644
--- a/katcp/ioloop_manager.py
+++ b/katcp/ioloop_manager.py
@@ -49,6 +49,8 @@ class IOLoopManager(object):
         # Futures of stop() calls that were handed to the current managed ioloop
         self._stop_futures = []
         self._stop_lock = threading.Lock()
+        # True from start() until a managed ioloop has been stopped
+        self._accepting = False
         self._daemonize = False
 
     @property
@@ -75,18 +77,25 @@ class IOLoopManager(object):
 
     def _run_managed_ioloop(self):
         assert self._ioloop_managed
+        ioloop = self._ioloop
 
         def run_ioloop():
             try:
-                self._ioloop.start()
-                self._ioloop.close(all_fds=True)
+                ioloop.start()
+                # From here on add_callback() refuses, so what is run now includes
+                # everything that was handed over by other threads before.
+                with self._stop_lock:
+                    self._accepting = False
+                ioloop.add_callback(ioloop.stop)
+                ioloop.start()
+                ioloop.close(all_fds=True)
             except Exception:
                 self._logger.error('Error running tornado IOloop: ',
                                    exc_info=True)
             finally:
                 with self._stop_lock:
-                    ioloop = self._ioloop
                     self._ioloop = None
+                    self._accepting = False
                     stop_futures, self._stop_futures = self._stop_futures, []
                 self._running.clear()
                 # The ioloop is gone, so stop() calls it did not get to are done too
@@ -127,6 +136,8 @@ class IOLoopManager(object):
             raise RuntimeError('Call get_ioloop() or set_ioloop() first')
 
         self._ioloop.add_callback(self._running.set)
+        with self._stop_lock:
+            self._accepting = True
 
         if self._ioloop_managed:
             self._run_managed_ioloop()
@@ -136,6 +147,22 @@ class IOLoopManager(object):
         if timeout:
             return self._running.wait(timeout)
 
+    def add_callback(self, callback, *args, **kwargs):
+        """Call `callback` in the ioloop, may be used from any thread.
+
+        Unlike calling the ioloop directly this never loses a callback that is added
+        while a managed ioloop is being stopped: either it runs or the call is refused.
+
+        Raises
+        ------
+        :class:`RuntimeError` if start() was not called or the ioloop has been stopped.
+
+        """
+        with self._stop_lock:
+            if self._ioloop is None or not self._accepting:
+                raise RuntimeError('IOLoop is closing or not started')
+            self._ioloop.add_callback(callback, *args, **kwargs)
+
     def stop(self, timeout=None, callback=None):
         """Stop ioloop (if managed) and call callback in ioloop before close.
 
-- 
2.43.0


From 32eb6bc4b8d541279197e83886b62959a42ca407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:56 +0000
Subject: [PATCH 27/58] fix: a zero timeout of a call into the ioloop is not
 taken for the default timeout

---
 katcp/ioloop_manager.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/katcp/ioloop_manager.py b/katcp/ioloop_manager.py
index e433537..5d252c4 100644
--- a/katcp/ioloop_manager.py
+++ b/katcp/ioloop_manager.py
@@ -234,7 +234,8 @@ class IOLoopThreadWrapper(object):
         ioloop.add_callback(self._install)
 
     def call_in_ioloop(self, fn, args, kwargs, timeout=None):
-        timeout = timeout or self.default_timeout
+        if timeout is None:
+            timeout = self.default_timeout
         if get_thread_ident() == self._thread_id:
             raise RuntimeError("Cannot call a thread-wrapped object from the ioloop")
         future, tornado_future = Future(), tornado_Future()
-- 
2.43.0


From f8b3d56ebb69b5efaf29c83c1e80ba349fa6cb72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:31 +0000
Subject: [PATCH 28/58] fix: a call from the ioloop through a wrapper made just
 before is refused instead of deadlocking

---
 katcp/ioloop_manager.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/katcp/ioloop_manager.py b/katcp/ioloop_manager.py
index 5d252c4..e6dac26 100644
--- a/katcp/ioloop_manager.py
+++ b/katcp/ioloop_manager.py
@@ -21,6 +21,8 @@ from tornado import gen
 from tornado.concurrent import Future as tornado_Future
 
 if sys.version_info[0] == 3:
+    import asyncio
+
     from tornado.platform.asyncio import AsyncIOLoop
 
 from katcp.object_proxies import ObjectWrapper
@@ -236,7 +238,7 @@ class IOLoopThreadWrapper(object):
     def call_in_ioloop(self, fn, args, kwargs, timeout=None):
         if timeout is None:
             timeout = self.default_timeout
-        if get_thread_ident() == self._thread_id:
+        if self._in_ioloop_thread():
             raise RuntimeError("Cannot call a thread-wrapped object from the ioloop")
         future, tornado_future = Future(), tornado_Future()
         self.ioloop.add_callback(
@@ -276,6 +278,15 @@ Original Callable Docstring
 
         return decorated
 
+    def _in_ioloop_thread(self):
+        if self._thread_id is not None:
+            return get_thread_ident() == self._thread_id
+        # _install() has not run yet, but the ioloop may be running us right now
+        asyncio_loop = getattr(self.ioloop, 'asyncio_loop', None)
+        if asyncio_loop is not None:
+            return asyncio._get_running_loop() is asyncio_loop
+        return get_thread_ident() == getattr(self.ioloop, '_thread_ident', None)
+
     def _install(self):
         self._thread_id = get_thread_ident()
 
-- 
2.43.0


From db85649abae96772d61f43fe1704062a15904edb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:10 +0000
Subject: [PATCH 29/58] fix: deregistering a sensor makes every rule that uses
 it wait for it again

---
 katcp/sensortree.py | 33 ++++++++++++++++-----------------
 1 file changed, 16 insertions(+), 17 deletions(-)

diff --git a/katcp/sensortree.py b/katcp/sensortree.py
index aa08f4f..787330a 100644
--- a/katcp/sensortree.py
+++ b/katcp/sensortree.py
@@ -450,24 +450,23 @@ class AggregateSensorTree(GenericSensorTree):
                              " tree" % child_name)
         child = self._registered_sensors[child_name]
         del self._registered_sensors[child_name]
-        try:
-            parents = self.parents(child)
-            for parent in parents:
-                if parent in self._incomplete_aggregates:
-                    (rule, names, sensors) = self._incomplete_aggregates[parent]
-                    names.add(child_name)
-                else:
-                    (rule, sensors) = self._aggregates[parent]
-                    names = set()
-                    names.add(child_name)
+        # Rules that are still waiting for other sensors wait for this one again
+        for _rule, names, sensors in self._incomplete_aggregates.values():
+            if child in sensors:
                 sensors.discard(child)
-                self._incomplete_aggregates[parent] = (rule, names, sensors)
-                self.remove_links(parent, [child])
-                self.remove(parent)
-                if parent.stype == 'bool':
-                    parent.set_value(False)
-        except ValueError:
-            pass
+                names.add(child_name)
+        # Active rules become incomplete
+        parents = self.parents(child) if child in self else set()
+        for parent in parents:
+            (rule, sensors) = self._aggregates[parent]
+            sensors = set(sensors)
+            sensors.discard(child)
+            self._aggregates[parent] = (rule, sensors)
+            self.remove(parent)
+            self._incomplete_aggregates[parent] = (rule, set([child_name]),
+                                                   sensors)
+            if parent.stype == 'bool':
+                parent.set_value(False)
 
     def _child_from_reference(self, reference):
         """Returns the child sensor from its reference.
-- 
2.43.0


From 47972ce8cf2f73754c68700140220091d03d6856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:10 +0000
Subject: [PATCH 30/58] fix: a sensor tree is not upset by links removed by
 another observer of the same update

---
 katcp/sensortree.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/katcp/sensortree.py b/katcp/sensortree.py
index 787330a..39da93e 100644
--- a/katcp/sensortree.py
+++ b/katcp/sensortree.py
@@ -56,9 +56,11 @@ class GenericSensorTree(object):
             Sensor reading as would be returned by sensor.read()
 
         """
-        parents = list(self._child_to_parents[sensor])
+        parents = list(self._child_to_parents.get(sensor, ()))
         for parent in parents:
-            self.recalculate(parent, (sensor,))
+            # Another observer of the update may have removed the link
+            if parent in self._child_to_parents.get(sensor, ()):
+                self.recalculate(parent, (sensor,))
 
     def recalculate(self, parent, updates):
         """Re-calculate the value of parent sensor.
-- 
2.43.0


From 5eb0e0cf736b8ef225ec6a4492c63e432eee5cd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:51 +0000
Subject: [PATCH 31/58] fix: a change of a request seen by a failed inspection
 is reported by the next one

---
 katcp/inspecting_client.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/katcp/inspecting_client.py b/katcp/inspecting_client.py
index 22d048a..2d9d876 100644
--- a/katcp/inspecting_client.py
+++ b/katcp/inspecting_client.py
@@ -597,8 +597,11 @@ class InspectingClientAsync(object):
 
         """
         timeout_manager = future_timeout_manager(self.sync_timeout)
-        sensor_index_before = copy.copy(self._sensors_index)
-        request_index_before = copy.copy(self._requests_index)
+        # Copy the entries too, since they are updated in place
+        sensor_index_before = {
+            name: copy.copy(data) for name, data in self._sensors_index.items()}
+        request_index_before = {
+            name: copy.copy(data) for name, data in self._requests_index.items()}
         try:
             request_changes = yield self.inspect_requests(
                 timeout=timeout_manager.remaining())
-- 
2.43.0


From a6954aedd100d9520ce9f957d33cd6db54965a90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:51 +0000
Subject: [PATCH 32/58] fix: a changed sensor or request gets a new object,
 described by its new definition

---
 katcp/inspecting_client.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/katcp/inspecting_client.py b/katcp/inspecting_client.py
index 2d9d876..a2a84cd 100644
--- a/katcp/inspecting_client.py
+++ b/katcp/inspecting_client.py
@@ -557,6 +557,8 @@ class InspectingClientAsync(object):
                 if orig_data.get(key) != value:
                     orig_data[key] = value
                     orig_data['_changed'] = True
+                    # The object describes the old definition
+                    orig_data.pop('obj', None)
 
     def handle_sensor_value(self):
         """Handle #sensor-value informs just like #sensor-status informs"""
@@ -953,7 +955,10 @@ class InspectingClientAsync(object):
             request_info = self._requests_index[name]
             obj = request_info.get('obj')
             if obj is None:
-                obj = self.request_factory(**request_info)
+                obj = self.request_factory(
+                    name=request_info['name'],
+                    description=request_info['description'],
+                    timeout_hint=request_info['timeout_hint'])
                 self._requests_index[name]['obj'] = obj
 
         raise tornado.gen.Return(obj)
-- 
2.43.0


From 51e32337d2ef87ac9e24df965a57530dbb25eef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:51 +0000
Subject: [PATCH 33/58] fix: looking up an unknown request of a device with
 timeout hints returns None

---
 katcp/inspecting_client.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/katcp/inspecting_client.py b/katcp/inspecting_client.py
index a2a84cd..542ad15 100644
--- a/katcp/inspecting_client.py
+++ b/katcp/inspecting_client.py
@@ -672,6 +672,7 @@ class InspectingClientAsync(object):
         # Get recommended timeouts hints for slow requests if the server
         # provides them
         timeout_hints_available = (
+            reply.reply_ok() and
             self.katcp_client.protocol_flags.request_timeout_hints)
         if timeout_hints_available:
             timeout_hints = yield self._get_request_timeout_hints(
-- 
2.43.0


From cf90447ef0043d4987b6cbcfb25330d860acdac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:51 +0000
Subject: [PATCH 34/58] fix: requests and sensors found by a lookup are
 reported as added by the next inspection

---
 katcp/inspecting_client.py | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/katcp/inspecting_client.py b/katcp/inspecting_client.py
index 542ad15..6cb472c 100644
--- a/katcp/inspecting_client.py
+++ b/katcp/inspecting_client.py
@@ -221,6 +221,9 @@ class InspectingClientAsync(object):
         self._requests_index = {}
         self._sensors_index = {}
         self._sensor_object_cache = {}
+        # Names found by looking them up, that inspect() has not reported yet
+        self._unreported_requests = set()
+        self._unreported_sensors = set()
         self._connected = katcp.core.AsyncEvent()
         self._disconnected = katcp.core.AsyncEvent()
         self._interface_changed = katcp.core.AsyncEvent()
@@ -616,6 +619,11 @@ class InspectingClientAsync(object):
             self._requests_index = request_index_before
             raise
 
+        request_changes = self._report_looked_up(
+            request_changes, self._unreported_requests, self._requests_index)
+        sensor_changes = self._report_looked_up(
+            sensor_changes, self._unreported_sensors, self._sensors_index)
+
         model_changes = AttrDict()
         if request_changes:
             model_changes.requests = request_changes
@@ -624,6 +632,17 @@ class InspectingClientAsync(object):
         if model_changes:
             raise Return(model_changes)
 
+    def _report_looked_up(self, changes, unreported, item_index):
+        """Add looked-up items that were not reported before to `changes`."""
+        added = set(changes.added) if changes else set()
+        removed = set(changes.removed) if changes else set()
+        for name in unreported:
+            if name in item_index:
+                added.add(name)
+        unreported.clear()
+        if added or removed:
+            return AttrDict(added=added, removed=removed)
+
     @tornado.gen.coroutine
     def inspect_requests(self, name=None, timeout=None):
         """Inspect all or one requests on the device. Update requests index.
@@ -692,6 +711,8 @@ class InspectingClientAsync(object):
 
         added, removed = self._difference(
             requests_old, requests_updated, name, self._requests_index)
+        if name is not None:
+            self._unreported_requests.update(added)
         if added or removed:
             raise Return(AttrDict(added=added, removed=removed))
 
@@ -802,6 +823,8 @@ class InspectingClientAsync(object):
 
         added, removed = self._difference(
             sensors_old, sensors_updated, name, self._sensors_index)
+        if name is not None:
+            self._unreported_sensors.update(added)
 
         for sensor_name in removed:
             if sensor_name in self._sensor_object_cache:
-- 
2.43.0


From f87ff806ab625dec3ccafb8d970e3ab4b1350170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:51 +0000
Subject: [PATCH 35/58] fix: a failing state callback does not end the
 inspecting client's state loop

---
 katcp/inspecting_client.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/katcp/inspecting_client.py b/katcp/inspecting_client.py
index 6cb472c..4762da5 100644
--- a/katcp/inspecting_client.py
+++ b/katcp/inspecting_client.py
@@ -402,11 +402,11 @@ class InspectingClientAsync(object):
         is_connected = self.katcp_client.is_connected
         last_sync_failed = False
         while self._running:
-            self._logger.debug('{}: Sending initial state'
-                               .format(self.bind_address_string))
-            yield self._send_state(connected=is_connected(), synced=False,
-                                   model_changed=False, data_synced=False)
             try:
+                self._logger.debug('{}: Sending initial state'
+                                   .format(self.bind_address_string))
+                yield self._send_state(connected=is_connected(), synced=False,
+                                       model_changed=False, data_synced=False)
                 yield self.katcp_client.until_connected()
                 self._logger.debug('{}: Sending post-connected state'
                                    .format(self.bind_address_string))
-- 
2.43.0


From 7b302541b6c1176dd60c3aa4f735348105bd419d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:51 +0000
Subject: [PATCH 36/58] fix: the resync delay starts afresh once the client
 synced

---
 katcp/inspecting_client.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/katcp/inspecting_client.py b/katcp/inspecting_client.py
index 4762da5..38e99db 100644
--- a/katcp/inspecting_client.py
+++ b/katcp/inspecting_client.py
@@ -450,6 +450,7 @@ class InspectingClientAsync(object):
                         'Succesfully resynced with {} after failure'
                         .format(self.bind_address_string))
                     last_sync_failed = False
+                self.resync_delay.success()
                 yield until_any(self._interface_changed.until_set(),
                                 self._disconnected.until_set())
                 self._logger.debug('in _state_loop: interface_changed=%s,'
@@ -483,8 +484,6 @@ class InspectingClientAsync(object):
                 self.katcp_client.disconnect()
                 yield katcp.core.until_later(retry_wait_time)
                 continue
-            else:
-                self.resync_delay.success()
         try:
             self._logger.debug('{}: Sending final state - loop ended'
                                .format(self.bind_address_string))
-- 
2.43.0


From a645715694b865969aa3f0555262bdb85f78c390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:51 +0000
Subject: [PATCH 37/58] fix: synced is only reported for the connection that
 was inspected

---
 katcp/inspecting_client.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/katcp/inspecting_client.py b/katcp/inspecting_client.py
index 38e99db..3532f6f 100644
--- a/katcp/inspecting_client.py
+++ b/katcp/inspecting_client.py
@@ -226,6 +226,8 @@ class InspectingClientAsync(object):
         self._unreported_sensors = set()
         self._connected = katcp.core.AsyncEvent()
         self._disconnected = katcp.core.AsyncEvent()
+        # Number of connections made so far, tells one connection from the next
+        self._connection_count = 0
         self._interface_changed = katcp.core.AsyncEvent()
         # Set the default behaviour for update.
         self._update_on_lookup = True
@@ -408,6 +410,7 @@ class InspectingClientAsync(object):
                 yield self._send_state(connected=is_connected(), synced=False,
                                        model_changed=False, data_synced=False)
                 yield self.katcp_client.until_connected()
+                connection = self._connection_count
                 self._logger.debug('{}: Sending post-connected state'
                                    .format(self.bind_address_string))
                 yield self._send_state(connected=is_connected(), synced=False,
@@ -430,7 +433,8 @@ class InspectingClientAsync(object):
                         model_changes=model_changes)
                 else:
                     self.initial_inspection = True
-                if not is_connected():
+                if not is_connected() or self._connection_count != connection:
+                    # Connection lost, perhaps there already is a new one
                     continue
 
                 # TODO NM 2017-07-21 for CB-1466 (async dev handler) we need to
@@ -451,8 +455,9 @@ class InspectingClientAsync(object):
                         .format(self.bind_address_string))
                     last_sync_failed = False
                 self.resync_delay.success()
-                yield until_any(self._interface_changed.until_set(),
-                                self._disconnected.until_set())
+                if self._connection_count == connection:
+                    yield until_any(self._interface_changed.until_set(),
+                                    self._disconnected.until_set())
                 self._logger.debug('in _state_loop: interface_changed=%s,'
                         ' is_connected=%s', self._interface_changed.is_set(),
                         self._disconnected.is_set())
@@ -1006,6 +1011,7 @@ class InspectingClientAsync(object):
 
     def _cb_connection_state(self, connected):
         if connected:
+            self._connection_count += 1
             self._disconnected.clear()
             self._connected.set()
         else:
-- 
2.43.0


From 6861e21e5e9afcdd2541926e13a174389b98d1dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:15 +0000
Subject: [PATCH 38/58] fix: a resource only reports a sampling strategy as set
 if the device accepted it

---
 katcp/resource_client.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/katcp/resource_client.py b/katcp/resource_client.py
index 7c046ec..7dbe0a9 100644
--- a/katcp/resource_client.py
+++ b/katcp/resource_client.py
@@ -479,8 +479,9 @@ class KATCPClientResource(resource.KATCPResource):
             # Set the strategy on each sensor
             try:
                 sensor_name = sens.object.normalised_name
-                yield self.set_sampling_strategy(sensor_name, strategy_and_parms)
-                sensor_dict[sensor_name] = strategy_and_parms
+                result = yield self.set_sampling_strategy(
+                    sensor_name, strategy_and_parms)
+                sensor_dict[sensor_name] = result.get(sensor_name)
             except Exception as exc:
                 self._logger.exception(
                     'Unhandled exception trying to set sensor strategies {!r} for {} ({})'
@@ -517,8 +518,9 @@ class KATCPClientResource(resource.KATCPResource):
             # The sensor exists, so set the strategy and continue. Log errors,
             # but don't raise anything
             try:
-                yield sensor_obj.set_sampling_strategy(strategy_and_parms)
-                sensor_dict[sensor_name] = strategy_and_parms
+                success, info = yield sensor_obj.set_sampling_strategy(
+                    strategy_and_parms)
+                sensor_dict[sensor_name] = strategy_and_parms if success else info
             except Exception as exc:
                 self._logger.exception(
                     'Unhandled exception trying to set sensor strategy {!r} for sensor {} ({})'
-- 
2.43.0


From 9083889420a79857e56f139268d6807d16dd2754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:15 +0000
Subject: [PATCH 39/58] fix: preset sensor listeners hear the first update of a
 sensor

---
 katcp/resource_client.py | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/katcp/resource_client.py b/katcp/resource_client.py
index 7dbe0a9..78f997f 100644
--- a/katcp/resource_client.py
+++ b/katcp/resource_client.py
@@ -420,7 +420,7 @@ class KATCPClientResource(resource.KATCPResource):
         self._sensor_manager = KATCPClientResourceSensorsManager(
             ic, self.name, logger=self._logger)
         ic.handle_sensor_value()
-        ic.sensor_factory = self._sensor_manager.sensor_factory
+        ic.sensor_factory = self._sensor_factory
 
         # Steal some methods from _sensor_manager
         self.reapply_sampling_strategies = self._sensor_manager.reapply_sampling_strategies
@@ -589,6 +589,16 @@ class KATCPClientResource(resource.KATCPResource):
         return KATCPClientResourceRequest(
             request_description, self._inspecting_client, self.is_active)
 
+    def _sensor_factory(self, **sensor_description):
+        sensor = self._sensor_manager.sensor_factory(**sensor_description)
+        # Must be done before the first update can reach the sensor
+        self._register_preset_listeners(sensor)
+        return sensor
+
+    def _register_preset_listeners(self, sensor):
+        for listener in self._sensor_listener_cache.get(sensor.normalised_name, ()):
+            sensor.register_listener(listener, reading=True)
+
     @tornado.gen.coroutine
     def _inspecting_client_state_callback(self, state, model_changes):
         self._logger.debug('{}: Received {}, {}'
@@ -704,6 +714,8 @@ class KATCPClientResource(resource.KATCPResource):
         for s_name, s_obj in list(sensor_instances.items()):
             s_name_escaped = resource.escape_name(s_name)
             self._sensor[s_name_escaped] = s_obj
+            # Listeners that were set since the sensor object was created
+            self._register_preset_listeners(s_obj)
             preset_strategy = self._sensor_strategy_cache.get(s_name_escaped)
             if preset_strategy:
                 self._logger.debug('Setting preset strategy for sensor {} to {!r}'
@@ -714,16 +726,6 @@ class KATCPClientResource(resource.KATCPResource):
                     self._logger.exception(
                         'Exception trying to pre-set sensor strategy for sensor {}'
                         .format(s_name))
-            preset_listeners = self._sensor_listener_cache.get(s_name_escaped)
-            if preset_listeners:
-                try:
-                    for listener in preset_listeners:
-                        s_obj.register_listener(listener, reading=True)
-                except Exception:
-                    self._logger.exception(
-                        'Exception trying to pre-set sensor listeners for sensor {}'
-                        .format(s_name))
-
             added_names.append(s_name_escaped)
 
         if self.parent:
-- 
2.43.0


From 2b930ee86e56de9a4a863255901b82ed7379f53f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:15 +0000
Subject: [PATCH 40/58] fix: a sampling strategy can be dropped before the
 resource is started

---
 katcp/resource_client.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/katcp/resource_client.py b/katcp/resource_client.py
index 78f997f..225d59f 100644
--- a/katcp/resource_client.py
+++ b/katcp/resource_client.py
@@ -340,6 +340,7 @@ class KATCPClientResource(resource.KATCPResource):
         self.auto_reconnect_delay = resource_spec.get('auto_reconnect_delay', 0.5)
         self._sensor_strategy_cache = {}
         self._sensor_listener_cache = collections.defaultdict(list)
+        self._sensor_manager = None
         self._logger = logger
         self._parent = parent
         self._ioloop_set_to = None
@@ -547,7 +548,8 @@ class KATCPClientResource(resource.KATCPResource):
         sensor_name = resource.escape_name(sensor_name)
         # drop from both the internal cache, and the sensor manager's cache
         self._sensor_strategy_cache.pop(sensor_name, None)
-        self._sensor_manager.drop_sampling_strategy(sensor_name)
+        if self._sensor_manager is not None:
+            self._sensor_manager.drop_sampling_strategy(sensor_name)
 
     @tornado.gen.coroutine
     def set_sensor_listener(self, sensor_name, listener):
-- 
2.43.0


From 06f459a0b9d8d57842b363bc1072f0e3b50d0119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:15 +0000
Subject: [PATCH 41/58] fix: reapplying sampling strategies does not undo newer
 ones

---
 katcp/resource_client.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/katcp/resource_client.py b/katcp/resource_client.py
index 225d59f..e9ec6f6 100644
--- a/katcp/resource_client.py
+++ b/katcp/resource_client.py
@@ -906,9 +906,13 @@ class KATCPClientResourceSensorsManager(object):
     def reapply_sampling_strategies(self):
         """Reapply all sensor strategies using cached values"""
         check_sensor = self._inspecting_client.future_check_sensor
-        for sensor_name, strategy in list(self._strategy_cache.items()):
+        for sensor_name in list(self._strategy_cache):
             try:
                 sensor_exists = yield check_sensor(sensor_name)
+                strategy = self._strategy_cache.get(sensor_name)
+                if not strategy:
+                    # Dropped in the meantime
+                    continue
                 if not sensor_exists:
                     self._logger.warn('Did not set strategy for non-existing sensor {}'
                                       .format(sensor_name))
-- 
2.43.0


From 6b47325dee95cb5eaa5bb894eae3bd163269953d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:15 +0000
Subject: [PATCH 42/58] fix: the last sampling strategy set or dropped counts,
 also when the sensor reappears

---
 katcp/resource_client.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/katcp/resource_client.py b/katcp/resource_client.py
index e9ec6f6..c576ed9 100644
--- a/katcp/resource_client.py
+++ b/katcp/resource_client.py
@@ -419,7 +419,8 @@ class KATCPClientResource(resource.KATCPResource):
         ic.set_state_callback(self._inspecting_client_state_callback)
         ic.request_factory = self._request_factory
         self._sensor_manager = KATCPClientResourceSensorsManager(
-            ic, self.name, logger=self._logger)
+            ic, self.name, logger=self._logger,
+            preset_strategies=self._sensor_strategy_cache)
         ic.handle_sensor_value()
         ic.sensor_factory = self._sensor_factory
 
@@ -510,6 +511,9 @@ class KATCPClientResource(resource.KATCPResource):
         """
         sensor_name = resource.escape_name(sensor_name)
         sensor_obj = dict.get(self._sensor, sensor_name)
+        if not sensor_obj:
+            # The manager may still remember an older strategy
+            self.drop_sampling_strategy(sensor_name)
         self._sensor_strategy_cache[sensor_name] = strategy_and_parms
         sensor_dict = {}
         self._logger.debug(
@@ -770,10 +774,14 @@ class KATCPClientResourceSensorsManager(object):
     Assumes that all methods are called from the same ioloop context
     """
 
-    def __init__(self, inspecting_client, resource_name, logger=log):
+    def __init__(self, inspecting_client, resource_name, logger=log,
+                 preset_strategies=None):
         self._inspecting_client = inspecting_client
         self.time = inspecting_client.ioloop.time
         self._strategy_cache = {}
+        # The strategies the resource applies when a sensor appears, by escaped name.
+        # Kept up to date so that they do not override newer ones set via the sensor.
+        self._preset_strategies = {} if preset_strategies is None else preset_strategies
         self._resource_name = resource_name
         self._logger = logger
 
@@ -871,6 +879,9 @@ class KATCPClientResourceSensorsManager(object):
             strategy_and_params = resource.normalize_strategy_parameters(
                 strategy_and_params)
             self._strategy_cache[sensor_name] = strategy_and_params
+            escaped_name = resource.escape_name(sensor_name)
+            if escaped_name in self._preset_strategies:
+                self._preset_strategies[escaped_name] = strategy_and_params
             reply = yield self._inspecting_client.wrapped_request(
                 'sensor-sampling', sensor_name, *strategy_and_params)
             if not reply.succeeded:
@@ -901,6 +912,7 @@ class KATCPClientResourceSensorsManager(object):
         """
         cache_key = self._get_strategy_cache_key(sensor_name)
         self._strategy_cache.pop(cache_key, None)
+        self._preset_strategies.pop(resource.escape_name(sensor_name), None)
 
     @tornado.gen.coroutine
     def reapply_sampling_strategies(self):
-- 
2.43.0


From 1171eb8fcef2a6505024115074b77c77affb45bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:25 +0000
Subject: [PATCH 43/58] fix: looking at the requests of a container does not
 leave its sensors outdated, and vice versa

---
 katcp/resource_client.py | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/katcp/resource_client.py b/katcp/resource_client.py
index c576ed9..66a5e16 100644
--- a/katcp/resource_client.py
+++ b/katcp/resource_client.py
@@ -1293,17 +1293,17 @@ class KATCPClientResourceContainer(resource.KATCPResource):
     """
     @property
     def req(self):
-        if self._children_dirty:
+        if self._req_dirty:
             self._req = self._create_attrdict_from_children('req')
-            self._children_dirty = False
+            self._req_dirty = False
 
         return self._req
 
     @property
     def sensor(self):
-        if self._children_dirty:
+        if self._sensor_dirty:
             self._sensor = self._create_attrdict_from_children('sensor')
-            self._children_dirty = False
+            self._sensor_dirty = False
 
         return self._sensor
 
@@ -1362,7 +1362,9 @@ class KATCPClientResourceContainer(resource.KATCPResource):
         self._logger = logger
         self._name = resources_spec['name']
         self._description = resources_spec.get('description', '')
-        self._children_dirty = True   # Are we out of sync with the children?
+        # Are we out of sync with the requests / sensors of the children?
+        self._req_dirty = True
+        self._sensor_dirty = True
         self._init_resources()
         self._init_groups()
         self.set_ioloop()
@@ -1541,7 +1543,8 @@ class KATCPClientResourceContainer(resource.KATCPResource):
         res = self.client_resource_factory(
                 res_spec, parent=self, logger=self._logger)
         self.children[resource.escape_name(res_name)] = res;
-        self._children_dirty = True
+        self._req_dirty = True
+        self._sensor_dirty = True
         res.set_ioloop(self.ioloop)
         res.start()
         return res
@@ -1587,21 +1590,21 @@ class KATCPClientResourceContainer(resource.KATCPResource):
 
     def _child_add_requests(self, child, sensor_keys):
         assert resource.escape_name(child.name) in self.children
-        self._children_dirty = True
+        self._req_dirty = True
         self._dirty_groups(child)
 
     def _child_remove_requests(self, child, sensor_keys):
         assert resource.escape_name(child.name) in self.children
-        self._children_dirty = True
+        self._req_dirty = True
         self._dirty_groups(child)
 
     def _child_add_sensors(self, child, sensor_keys):
         assert resource.escape_name(child.name) in self.children
-        self._children_dirty = True
+        self._sensor_dirty = True
 
     def _child_remove_sensors(self, child, sensor_keys):
         assert resource.escape_name(child.name) in self.children
-        self._children_dirty = True
+        self._sensor_dirty = True
 
     def _dirty_groups(self, child):
         groups_spec = self._resources_spec.get('groups', {})
-- 
2.43.0


From 8e89073ae62af3a90eca66d20349372f3c7c1387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:25 +0000
Subject: [PATCH 44/58] fix: a container has the sensors of its children as
 soon as they do

---
 katcp/resource_client.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/katcp/resource_client.py b/katcp/resource_client.py
index 66a5e16..2cf2967 100644
--- a/katcp/resource_client.py
+++ b/katcp/resource_client.py
@@ -722,6 +722,13 @@ class KATCPClientResource(resource.KATCPResource):
             self._sensor[s_name_escaped] = s_obj
             # Listeners that were set since the sensor object was created
             self._register_preset_listeners(s_obj)
+            added_names.append(s_name_escaped)
+
+        if self.parent:
+            self.parent._child_add_sensors(self, added_names)
+
+        for s_name, s_obj in list(sensor_instances.items()):
+            s_name_escaped = resource.escape_name(s_name)
             preset_strategy = self._sensor_strategy_cache.get(s_name_escaped)
             if preset_strategy:
                 self._logger.debug('Setting preset strategy for sensor {} to {!r}'
@@ -732,10 +739,6 @@ class KATCPClientResource(resource.KATCPResource):
                     self._logger.exception(
                         'Exception trying to pre-set sensor strategy for sensor {}'
                         .format(s_name))
-            added_names.append(s_name_escaped)
-
-        if self.parent:
-            self.parent._child_add_sensors(self, added_names)
 
     @tornado.gen.coroutine
     def _remove_sensors(self, sensor_keys):
-- 
2.43.0


From 523bd835dfaf14639b698b88ce6a5c41e6cc12c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:25 +0000
Subject: [PATCH 45/58] fix: groups follow their members whatever their names,
 also after another group was added

---
 katcp/resource_client.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/katcp/resource_client.py b/katcp/resource_client.py
index 2cf2967..46dce38 100644
--- a/katcp/resource_client.py
+++ b/katcp/resource_client.py
@@ -1397,13 +1397,16 @@ class KATCPClientResourceContainer(resource.KATCPResource):
         group_configs = self._resources_spec.get('groups', {})
         groups = AttrDict()
         for group_name, group_client_names in list(group_configs.items()):
-            group_clients = tuple(self.children[resource.escape_name(cn)]
-                                  for cn in group_client_names)
-            group = ClientGroup(group_name, group_clients)
-            groups[resource.escape_name(group_name)] = group
+            groups[resource.escape_name(group_name)] = self._create_group(
+                group_name, group_client_names)
 
         self._groups = groups
 
+    def _create_group(self, group_name, group_client_names):
+        group_clients = tuple(self.children[resource.escape_name(cn)]
+                              for cn in group_client_names)
+        return ClientGroup(group_name, group_clients)
+
     def add_group(self, group_name, group_client_names):
         """Add a new :class:`ClientGroup` to container groups member.
 
@@ -1414,7 +1417,9 @@ class KATCPClientResourceContainer(resource.KATCPResource):
         group_configs = self._resources_spec.get('groups', {})
         group_configs[group_name] = group_client_names
         self._resources_spec['groups'] = group_configs
-        self._init_groups()
+        # Leave the other groups alone, they may be in use
+        self._groups[resource.escape_name(group_name)] = self._create_group(
+            group_name, group_client_names)
 
     def set_ioloop(self, ioloop=None):
         """Set the tornado ioloop to use
@@ -1610,9 +1615,8 @@ class KATCPClientResourceContainer(resource.KATCPResource):
         self._sensor_dirty = True
 
     def _dirty_groups(self, child):
-        groups_spec = self._resources_spec.get('groups', {})
-        for group_name, group in dict.items(self.groups):
-            if child.name in groups_spec[group_name]:
+        for group in dict.values(self.groups):
+            if child in group.clients:
                 group.client_updated(child)
 
     def __repr__(self):
-- 
2.43.0


From 81a2e8412591e7759c8ea1acc83a3d7744cc1032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:25 +0000
Subject: [PATCH 46/58] fix: a group request does not call dict methods of
 members that lack the request

---
 katcp/resource_client.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/katcp/resource_client.py b/katcp/resource_client.py
index 46dce38..485ffdb 100644
--- a/katcp/resource_client.py
+++ b/katcp/resource_client.py
@@ -1057,7 +1057,10 @@ class GroupRequest(object):
         none_future = Future()
         none_future.set_result(None)
         for client in self.group.clients:
-            request_method = getattr(client.req, self.name, None)
+            # Not getattr(), since that would also find dict methods
+            request_method = None
+            if self.name in client.req or client.dummy_unknown_requests:
+                request_method = client.req[self.name]
             if request_method:
                 result_futures[client.name] = request_method(*args, **kwargs)
             else:
-- 
2.43.0


From 8edda6af6ce9c8c54dc98aa93e526d63b3058c15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:25 +0000
Subject: [PATCH 47/58] fix: a group wait ends within its timeout, also if that
 is 0 or the grace period unlimited

---
 katcp/resource_client.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/katcp/resource_client.py b/katcp/resource_client.py
index 485ffdb..0ad3456 100644
--- a/katcp/resource_client.py
+++ b/katcp/resource_client.py
@@ -1253,9 +1253,11 @@ class ClientGroup(object):
                                 'if outside range [0, 1]' % (quorum,))
         elif isinstance(quorum, float):
             quorum = int(math.ceil(quorum * len(self.clients)))
-        if timeout and max_grace_period:
+        if timeout is not None:
             # Avoid having a grace period longer than or equal to timeout
-            grace_period = min(max_grace_period, timeout / 2.)
+            grace_period = timeout / 2.
+            if max_grace_period is not None:
+                grace_period = min(max_grace_period, grace_period)
             initial_timeout = timeout - grace_period
         else:
             grace_period = max_grace_period
-- 
2.43.0


From 3f2b2fb3a612719753591f9f15b409fec2b11f79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:25 +0000
Subject: [PATCH 48/58] fix: strategies and listeners set through a container
 reach children whatever their names, and failures are reported

---
 katcp/resource_client.py | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/katcp/resource_client.py b/katcp/resource_client.py
index 0ad3456..71aa900 100644
--- a/katcp/resource_client.py
+++ b/katcp/resource_client.py
@@ -1488,12 +1488,13 @@ class KATCPClientResourceContainer(resource.KATCPResource):
             if resource_name not in sensor_dict:
                 sensor_dict[resource_name] = {}
             try:
-                resource_obj = self.children[resource_name]
-                yield resource_obj.set_sampling_strategy(sensor_name, strategy_and_parms)
-                sensor_dict[resource_name][sensor_name] = strategy_and_parms
+                resource_obj = self.children[resource.escape_name(resource_name)]
+                result = yield resource_obj.set_sampling_strategy(
+                    sensor_name, strategy_and_parms)
+                sensor_dict[resource_name][sensor_name] = result.get(sensor_name)
                 self._logger.debug(
-                    'Set sampling strategy on resource %s for %s'
-                    % (resource_name, sensor_name))
+                    'Set sampling strategy on resource %s for %s: %s'
+                    % (resource_name, sensor_name, result))
             except Exception as exc:
                 self._logger.error(
                     'Cannot set sampling strategy on resource %s for %s (%s)'
@@ -1512,12 +1513,13 @@ class KATCPClientResourceContainer(resource.KATCPResource):
             if resource_name not in sensor_dict:
                 sensor_dict[resource_name] = {}
             try:
-                resource_obj = self.children[resource_name]
-                yield resource_obj.set_sampling_strategy(sensor_name, strategy_and_parms)
-                sensor_dict[resource_name][sensor_name] = strategy_and_parms
+                resource_obj = self.children[resource.escape_name(resource_name)]
+                result = yield resource_obj.set_sampling_strategy(
+                    sensor_name, strategy_and_parms)
+                sensor_dict[resource_name][sensor_name] = result.get(sensor_name)
                 self._logger.debug(
-                    'Set sampling strategy on resource %s for %s'
-                    % (resource_name, sensor_name))
+                    'Set sampling strategy on resource %s for %s: %s'
+                    % (resource_name, sensor_name, result))
             except Exception as exc:
                 self._logger.error(
                     'Cannot set sampling strategy on resource %s for %s (%s)'
@@ -1536,7 +1538,7 @@ class KATCPClientResourceContainer(resource.KATCPResource):
             if resource_name not in sensor_dict:
                 sensor_dict[resource_name] = {}
             try:
-                resource_obj = self.children[resource_name]
+                resource_obj = self.children[resource.escape_name(resource_name)]
                 yield resource_obj.set_sensor_listener(sensor_name, listener)
                 sensor_dict[resource_name][sensor_name] = listener
                 self._logger.debug(
-- 
2.43.0


From babf56ed57079326c20fc10cf03dc01874e4b71e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:09 +0000
Subject: [PATCH 49/58] fix: a client added to a container before it is started
 is only started once

---
 katcp/resource_client.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/katcp/resource_client.py b/katcp/resource_client.py
index 71aa900..016d756 100644
--- a/katcp/resource_client.py
+++ b/katcp/resource_client.py
@@ -1373,6 +1373,8 @@ class KATCPClientResourceContainer(resource.KATCPResource):
         # Are we out of sync with the requests / sensors of the children?
         self._req_dirty = True
         self._sensor_dirty = True
+        # Clients that were added and started since the last start() or stop()
+        self._added_clients = []
         self._init_resources()
         self._init_groups()
         self.set_ioloop()
@@ -1443,8 +1445,12 @@ class KATCPClientResourceContainer(resource.KATCPResource):
 
     def start(self):
         """Start and connect all the subordinate clients"""
+        added_clients = self._added_clients
+        self._added_clients = []
         for res in dict.values(self.children):
-            res.start()
+            # Those that were added on the fly are started already
+            if res not in added_clients:
+                res.start()
 
     @tornado.gen.coroutine
     def until_synced(self, timeout=None):
@@ -1562,6 +1568,7 @@ class KATCPClientResourceContainer(resource.KATCPResource):
         self._sensor_dirty = True
         res.set_ioloop(self.ioloop)
         res.start()
+        self._added_clients.append(res)
         return res
 
     def _create_attrdict_from_children(self, attr):
@@ -1579,6 +1586,7 @@ class KATCPClientResourceContainer(resource.KATCPResource):
 
     def stop(self):
         """Stop all child resources"""
+        self._added_clients = []
         for child_name, child in dict.items(self.children):
             # Catch child exceptions when stopping so we make sure to stop all children
             # that want to listen.
-- 
2.43.0


From 22219a10877ac60ca438885c2de71ba99d64836b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:17 +0000
Subject: [PATCH 50/58] fix: a katcp v4 device reports the period that was set,
 not a millisecond less

---
 katcp/server.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/katcp/server.py b/katcp/server.py
index deb7bdb..f5c4762 100644
--- a/katcp/server.py
+++ b/katcp/server.py
@@ -2401,7 +2401,7 @@ class DeviceServer(DeviceServerBase):
         if katcp_version < SEC_TS_KATCP_MAJOR and strategy == b'period':
             # Another slightly nasty hack, but since period is the only
             # v4 strategy involving timestamps it's not _too_ nasty :)
-            params = [int(float(params[0]) * SEC_TO_MS_FAC)] + params[1:]
+            params = [int(round(float(params[0]) * SEC_TO_MS_FAC))] + params[1:]
 
         # Let the ioloop run so that the #sensor-status inform is sent before
         # the reply. Not strictly necessary, but a number of tests depend on
-- 
2.43.0


From 2a0e8769f3dfeb9be98f066881f1fdfcf7c27027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:29 +0000
Subject: [PATCH 51/58] fix: nothing is sent to a client after #disconnect if
 its connect hook fails late

Send the error like other messages, so that it is not written to a stream that is
being flushed for closing, and do not cut that flush short.
---
 katcp/server.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/katcp/server.py b/katcp/server.py
index f5c4762..e7b3c88 100644
--- a/katcp/server.py
+++ b/katcp/server.py
@@ -512,9 +512,10 @@ class KATCPServer(object):
                     e_type, e_value, trace, self._tb_limit))
                 log_msg = 'Device error initialising connection {0}'.format(reason)
                 self._logger.error(log_msg)
-                data = bytes(Message.inform('log', log_msg)) + b"\n"
-                stream.write(data)
-                stream.close(exc_info=True)
+                if not stream.KATCPServer_closing:
+                    self.send_message(stream, Message.inform('log', log_msg))
+                    stream.close(exc_info=True)
+                # else: already told about the disconnect, closed once flushed
             else:
                 self._line_read_loop(stream, client_conn)
         except Exception:
-- 
2.43.0


From e7e4e78daeff3838fbf4131b7a1eba9fece57e65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:34 +0000
Subject: [PATCH 52/58] fix: KATCPResource.wait() raises the documented
 KATCPSensorError for a sensor that is not present

---
 katcp/resource.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/katcp/resource.py b/katcp/resource.py
index 644ce09..7f83d8e 100644
--- a/katcp/resource.py
+++ b/katcp/resource.py
@@ -220,7 +220,11 @@ class KATCPResource(with_metaclass(abc.ABCMeta, object)):
 
         """
         sensor_name = escape_name(sensor_name)
-        sensor = self.sensor[sensor_name]
+        sensor = self.sensor.get(sensor_name)
+        if sensor is None:
+            raise KATCPSensorError(
+                'Cannot wait on sensor {!r}, it is not present'
+                .format(sensor_name))
         try:
             yield sensor.wait(condition_or_value, timeout)
         except tornado.gen.TimeoutError:
-- 
2.43.0


From b803f1113dbf3089cff4f869458c58180ec08b9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:03 +0000
Subject: [PATCH 53/58] fix: a request is not replied to again when its
 handler, having replied to it, fails or returns a reply

---
 katcp/server.py | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/katcp/server.py b/katcp/server.py
index e7b3c88..2d53d80 100644
--- a/katcp/server.py
+++ b/katcp/server.py
@@ -774,6 +774,8 @@ class ClientRequestConnection(object):
         assert(req_msg.mtype == Message.REQUEST)
         self.msg = req_msg
         self.mass_inform = client_connection.mass_inform
+        # Whether the request was replied to through this object
+        self.replied = False
 
     def inform(self, *args):
         inf_msg = Message.reply_inform(self.msg, *args)
@@ -795,6 +797,7 @@ class ClientRequestConnection(object):
 
     def _post_reply(self):
         # Future calls to reply_*() and inform() should error out.
+        self.replied = True
         self.reply = self.reply_again
         self.reply_with_message = self.reply_again
         self.inform = self.inform_after_reply
@@ -1076,6 +1079,7 @@ class DeviceServerBase(with_metaclass(DeviceServerMetaclass, object)):
 
         """
         send_reply = True
+        req_conn = None
         # TODO Should check presence of Message-ids against protocol flags and
         # raise an error as needed.
         if msg.name in self._request_handlers:
@@ -1092,9 +1096,15 @@ class DeviceServerBase(with_metaclass(DeviceServerMetaclass, object)):
                     concurrent_str = ' CONCURRENT' if concurrent else ''
 
                     done_future = Future()
+                    def send_async_reply(reply):
+                        if req_conn.replied is True:
+                            self._log_already_replied(msg)
+                        else:
+                            connection.reply(reply, msg)
+
                     def async_reply(f):
                         try:
-                            connection.reply(f.result(), msg)
+                            send_async_reply(f.result())
                             self._logger.debug("%s FUTURE%s replied",
                                                msg.name, concurrent_str)
                         except FailReply as e:
@@ -1102,14 +1112,14 @@ class DeviceServerBase(with_metaclass(DeviceServerMetaclass, object)):
                             self._logger.error("Request %s FUTURE%s FAIL: %s",
                                                msg.name, concurrent_str, reason)
                             reply = Message.reply(msg.name, "fail", reason)
-                            connection.reply(reply, msg)
+                            send_async_reply(reply)
                         except AsyncReply:
                             self._logger.debug("%s FUTURE ASYNC OK"
                                                % (msg.name,))
                         except Exception:
                             error_reply = self.create_exception_reply_and_log(
                                 msg, sys.exc_info())
-                            connection.reply(error_reply, msg)
+                            send_async_reply(error_reply)
                         finally:
                             done_future.set_result(None)
 
@@ -1155,7 +1165,14 @@ class DeviceServerBase(with_metaclass(DeviceServerMetaclass, object)):
             reply = Message.reply(msg.name, "invalid", "Unknown request.")
 
         if send_reply:
-            connection.reply(reply, msg)
+            if req_conn is not None and req_conn.replied is True:
+                self._log_already_replied(msg)
+            else:
+                connection.reply(reply, msg)
+
+    def _log_already_replied(self, req_msg):
+        self._logger.error("Request %s was already replied to by its handler, "
+                           "not replying again" % (req_msg.name,))
 
     def create_exception_reply_and_log(self, req_msg, exc_info):
         e_type, e_value, trace = exc_info
-- 
2.43.0


From d8c7ec4f7427bcd5f8384a84fd7b8d5891bdc595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:03 +0000
Subject: [PATCH 54/58] fix: DeviceLogger logs texts with a '%' that is not a
 valid format instead of raising ValueError

---
 katcp/server.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/katcp/server.py b/katcp/server.py
index 2d53d80..07f936a 100644
--- a/katcp/server.py
+++ b/katcp/server.py
@@ -2706,8 +2706,9 @@ class DeviceLogger(object):
                 name = self._root_logger_name
             try:
                 inform_msg = msg % args
-            except TypeError:
-                # Catch the "not enough arguments for format string" exception.
+            except (TypeError, ValueError):
+                # Catch the "not enough arguments for format string" exception
+                # and those for e.g. a text without arguments that ends in '%'.
                 inform_msg = "{} {}".format(
                     msg,
                     args if args else '').strip()
-- 
2.43.0


From b6b1ec9c6c72e0235344036c30050fadbe5c5142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:26 +0000
Subject: [PATCH 55/58] fix: the thread-safe resource wrappers build combined
 views in the ioloop, not in the caller's thread

---
 katcp/ioloop_manager.py  |  6 ++++++
 katcp/resource_client.py | 11 ++++++-----
 2 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/katcp/ioloop_manager.py b/katcp/ioloop_manager.py
index e6dac26..7533249 100644
--- a/katcp/ioloop_manager.py
+++ b/katcp/ioloop_manager.py
@@ -317,3 +317,9 @@ class ThreadSafeMethodAttrWrapper(ObjectWrapper):
     def _getattr(self, attr):
         return self._ioloop_wrapper.call_in_ioloop(getattr, (self.__subject__,
             attr), {})
+
+    def _getattr_in_ioloop(self, attr):
+        # As _getattr(), but can also be used in the ioloop thread itself
+        if self._ioloop_wrapper._in_ioloop_thread():
+            return getattr(self.__subject__, attr)
+        return self._getattr(attr)
diff --git a/katcp/resource_client.py b/katcp/resource_client.py
index 016d756..848992f 100644
--- a/katcp/resource_client.py
+++ b/katcp/resource_client.py
@@ -1142,7 +1142,8 @@ class ClientGroup(object):
                 self._req = AttrDict()
 
             for client in self.clients:
-                for name, request in dict.items(client.req):
+                # A copy, since a lookup by another thread can add a dummy request
+                for name, request in list(dict.items(client.req)):
                     if name not in self._req:
                         self._req[name] = GroupRequest(self, name,
                                                        request.description)
@@ -1575,7 +1576,7 @@ class KATCPClientResourceContainer(resource.KATCPResource):
         attrdict = AttrDict()
         for child_name, child_resource in dict.items(self.children):
             prefix = resource.escape_name(child_name) + '_'
-            for item_name, item in dict.items(getattr(child_resource, attr)):
+            for item_name, item in list(dict.items(getattr(child_resource, attr))):
                 # Do not prefix aggregate sensors with "parent_name_"
                 if item_name.startswith("agg_"):
                     full_item_name = item_name
@@ -1705,7 +1706,7 @@ class ThreadSafeKATCPClientGroupWrapper(ThreadSafeMethodAttrWrapper):
 
     @property
     def req(self):
-        return AttrMappingProxy(self.__subject__.req, self.RequestWrapper)
+        return AttrMappingProxy(self._getattr_in_ioloop('req'), self.RequestWrapper)
 
     @property
     def clients(self):
@@ -1743,7 +1744,7 @@ class ThreadSafeKATCPClientResourceWrapper(ThreadSafeMethodAttrWrapper):
 
     @property
     def sensor(self):
-        return AttrMappingProxy(self.__subject__.sensor, self.SensorWrapper)
+        return AttrMappingProxy(self._getattr_in_ioloop('sensor'), self.SensorWrapper)
 
     @property
     def sensors(self):
@@ -1751,7 +1752,7 @@ class ThreadSafeKATCPClientResourceWrapper(ThreadSafeMethodAttrWrapper):
 
     @property
     def req(self):
-        return AttrMappingProxy(self.__subject__.req, self.RequestWrapper)
+        return AttrMappingProxy(self._getattr_in_ioloop('req'), self.RequestWrapper)
 
     @property
     def groups(self):
-- 
2.43.0


From 213ed3c61ce7c4e70d9922545da0696614b587e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:47:36 +0000
Subject: [PATCH 56/58] fix: starting a client or managed ioloop that was
 already started is refused (again), also before it runs

IOLoopManager relied on Thread.isAlive(), which Python 3.9 removed, and took the
AttributeError to mean that there is no thread: a second start() then ran the same
ioloop in two threads. A client that was started again before its first start had
got to run installed itself twice and kept two connections.
---
 katcp/client.py         |  7 ++++++-
 katcp/ioloop_manager.py | 15 +++++++++------
 2 files changed, 15 insertions(+), 7 deletions(-)

diff --git a/katcp/client.py b/katcp/client.py
index a6ed177..b78ad73 100644
--- a/katcp/client.py
+++ b/katcp/client.py
@@ -168,6 +168,8 @@ class DeviceClient(with_metaclass(DeviceMetaclass, object)):
         self._threadsafe = False
         # Last time a connection was made in seconds since Unix Epoch
         self.last_connect_time = None
+        # True between start() and _install()
+        self._starting = False
         self._init_state_per_run(ioloop=None)
 
     def _init_state_per_run(self, ioloop):
@@ -686,6 +688,7 @@ class DeviceClient(with_metaclass(DeviceMetaclass, object)):
             self.ioloop_thread_id = get_thread_ident()
             self._tcp_client = tornado.tcpclient.TCPClient()
             self._running.set()
+            self._starting = False
             yield self._connect()
             if self._stream is None and not self._auto_reconnect:
                 raise KatcpClientError("Failed to connect to {0!r}"
@@ -870,8 +873,10 @@ class DeviceClient(with_metaclass(DeviceMetaclass, object)):
             progressing.
 
         """
-        if self._running.isSet():
+        if self._running.isSet() or self._starting:
             raise RuntimeError("Device client already started.")
+        self._ioloop_manager.check_not_started()
+        self._starting = True
         # Make sure we have an ioloop
         self._ioloop = self._ioloop_manager.get_ioloop()
         if timeout:
diff --git a/katcp/ioloop_manager.py b/katcp/ioloop_manager.py
index 7533249..3202396 100644
--- a/katcp/ioloop_manager.py
+++ b/katcp/ioloop_manager.py
@@ -110,12 +110,7 @@ class IOLoopManager(object):
         with self._start_lock:
             t = threading.Thread(target=run_ioloop)
             t.setDaemon(self._daemonize)
-            try:
-                if self._ioloop_thread.isAlive():
-                    raise RuntimeError('Seems that managed ioloop has already been '
-                                       'started, can only restart after stop()')
-            except AttributeError:
-                pass
+            self.check_not_started()
             self._ioloop_thread = t
             self._ioloop_thread.start()
 
@@ -127,6 +122,14 @@ class IOLoopManager(object):
         """
         self._daemonize = bool(daemonic)
 
+    def check_not_started(self):
+        """Raise RuntimeError if a managed ioloop thread is (still) alive."""
+        if not self._ioloop_managed:
+            return
+        if self._ioloop_thread is not None and self._ioloop_thread.is_alive():
+            raise RuntimeError('Seems that managed ioloop has already been '
+                               'started, can only restart after stop()')
+
     def start(self, timeout=None):
         """Start managed ioloop thread, or do nothing if not managed.
 
-- 
2.43.0


From c116dc5198b7d63906a23239bf5ea369aed525d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:47:36 +0000
Subject: [PATCH 57/58] fix: a server that cannot open its port leaves no
 ioloop thread or socket behind

start() started the ioloop thread before binding the socket, so that a failure left
a running thread and an open socket, and the server could not be started again. It
now opens the socket first, and refuses a second start() before the first has run.
---
 katcp/server.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/katcp/server.py b/katcp/server.py
index 07f936a..db684c9 100644
--- a/katcp/server.py
+++ b/katcp/server.py
@@ -335,6 +335,8 @@ class KATCPServer(object):
         self._parser = MessageParser()
         # Indicate that server is running and ready to accept connections
         self._running = threading.Event()
+        # True between start() and _install()
+        self._starting = False
         # Indicate that we are stopped, i.e. join() can return
         self._stopped = threading.Event()
         self.ioloop = None
@@ -382,8 +384,13 @@ class KATCPServer(object):
             Time in seconds to wait for server thread to start.
 
         """
-        if self._running.isSet():
+        if self._running.isSet() or self._starting:
             raise RuntimeError('Server already started')
+        self._ioloop_manager.check_not_started()
+        # Before anything is started, so that nothing is left running if it fails
+        self._server_sock = self._bind_socket(self._bindaddr)
+        self._bindaddr = self._server_sock.getsockname()
+        self._starting = True
         self._stopped.clear()
         # Make sure we have an ioloop
         self.ioloop = self._ioloop_manager.get_ioloop()
@@ -396,8 +403,6 @@ class KATCPServer(object):
         self._tcp_server = tornado.tcpserver.TCPServer(
             self.ioloop, max_buffer_size=4*self.MAX_MSG_SIZE)
         self._tcp_server.handle_stream = self._handle_stream
-        self._server_sock = self._bind_socket(self._bindaddr)
-        self._bindaddr = self._server_sock.getsockname()
 
         self.ioloop.add_callback(self._install)
         if timeout:
@@ -455,10 +460,11 @@ class KATCPServer(object):
         sock.setblocking(0)
         try:
             sock.bind(bindaddr)
+            sock.listen(self.BACKLOG)
         except Exception:
             self._logger.exception("Unable to bind to %s" % str(bindaddr))
+            sock.close()
             raise
-        sock.listen(self.BACKLOG)
         return sock
 
     def _install(self):
@@ -466,6 +472,7 @@ class KATCPServer(object):
         self.ioloop_thread_id = get_thread_ident()
         self._tcp_server.add_socket(self._server_sock)
         self._running.set()
+        self._starting = False
 
     @gen.coroutine
     def _uninstall(self):
-- 
2.43.0


From f746f7e81c5e0a72610bbb92e3b2214f0a3141ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:55:04 +0000
Subject: [PATCH 58/58] fix: join() of a server on an unmanaged ioloop waits
 also without a timeout

As documented it blocks until the port is closed, but only did so with a timeout.
---
 katcp/server.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/katcp/server.py b/katcp/server.py
index db684c9..20c4c0e 100644
--- a/katcp/server.py
+++ b/katcp/server.py
@@ -444,6 +444,9 @@ class KATCPServer(object):
         self._ioloop_manager.join(timeout=timeout)
         if timeout:
             self._stopped.wait(timeout - (time.time() - t0))
+        elif (timeout is None and not self._ioloop_manager.managed and
+              not self.in_ioloop_thread()):
+            self._stopped.wait()
 
     def running(self):
         """Whether the handler thread is running."""
-- 
2.43.0

