#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so the text is reviewable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, hook=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
         "observe_at": observe, "hook_needed": hook}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})

p("C01", "Server acts on the request lines sent, however TCP cuts them up",
  "For any byte stream a client sends, the device server executes exactly the requests given by the complete, well-formed lines (terminated by CR or LF) in that stream, once each, in order and with byte-exact arguments and message id, no matter how the network splits, delays or coalesces the bytes. Empty lines do nothing, a malformed line runs nothing and is reported to that client with an error-level #log inform, and neither affects the lines after it. A last line that never gets its terminator before the connection ends is never executed.",
  ["inputs", "schedules", "fault_sequences"],
  "All byte streams of well-formed, blank, malformed and unterminated lines with arbitrary (escaped) argument bytes; all segmentations, delays and truncation points; several clients at once.",
  "Tests send whole lines over loopback, one or two at a time; they never sample where the kernel cuts a stream, a cut inside an escape or a CRLF pair, or a connection dying between a line and its terminator.",
  ["katcp/server.py", "katcp/core.py"],
  [("line read loop", "katcp/server.py KATCPServer._line_read_loop"), ("message parser and escape handling", "katcp/core.py MessageParser")],
  ["calls of request handlers on the device server (message name, mid, arguments)", "lines received by the client socket"])

p("C02", "Every request gets exactly one reply, on its own connection, id echoed",
  "Every request a device server reads from a connection that stays open is answered by exactly one reply carrying the request's name and message id (none if the request had none), sent only on the connection the request came from. Every inform a handler sends through its request object carries the same name and id, arrives on that connection only, in the order sent and before the reply. This holds whichever way the handler answers: returning a reply, an asynchronous future, replying later through the request object, or raising.",
  ["schedules", "inputs", "histories", "fault_sequences"],
  "All mixes of handler kinds and completion times, all interleavings of pipelined requests from several clients, with other clients' connections failing at any point.",
  "Tests issue one request at a time and wait for it; they do not interleave slow, asynchronous and failing handlers from several clients, nor lose some connections while replies are outstanding.",
  ["katcp/server.py", "katcp/kattypes.py", "katcp/core.py"],
  [("request dispatch and async reply", "katcp/server.py DeviceServerBase.handle_request"), ("request-bound connection", "katcp/server.py ClientRequestConnection"), ("reply decorators", "katcp/kattypes.py return_reply, async_make_reply")],
  ["lines received on every client socket"])

p("C03", "Requests of a connection run in order, without blocking other clients",
  "A device server handles the requests of one connection strictly in order: a request is not started before the previous one on that connection has been answered, unless that previous one was declared to reply concurrently (or answers for itself later), so replies come back in request order. With asynchronous handlers, a request that takes long or never finishes delays only its own connection: requests from other connections, sensor sampling and mass informs proceed meanwhile. A request declared concurrent never delays later requests of its own connection.",
  ["schedules", "histories"],
  "All interleavings of handler completions on any number of pipelining connections, including handlers that never complete.",
  "The tests have one concurrent-reply case with one client; ordering across pipelined requests and independence across clients depend on the schedule of completions.",
  ["katcp/server.py", "katcp/kattypes.py"],
  [("read loop awaits the handler", "katcp/server.py KATCPServer._line_read_loop"), ("done future / concurrent_reply", "katcp/server.py DeviceServerBase.handle_request")],
  ["start and end of request handlers", "order of lines on client sockets"])

p("C04", "A failing handler yields a fail reply and harms nothing else",
  "Whatever a request handler does wrong - raise any ordinary exception at once or asynchronously, raise a deliberate failure, return something that is not a valid reply to the request, or reject its arguments - the client gets exactly one 'fail' reply to that request, whose text is the deliberate failure's message or describes the error; an unknown request gets one 'invalid' reply. Exceptions in handlers of informs or replies that clients send never produce a reply. After any of these the same connection and all other connections continue to be served normally.",
  ["histories", "inputs", "schedules"],
  "All sequences of failing and succeeding requests of every failure kind, sync or async, on several connections.",
  "Tests exercise single failures of a few kinds in isolation; they do not check what later requests on the same or other connections see after arbitrary failure histories.",
  ["katcp/server.py", "katcp/kattypes.py"],
  [("exception to fail reply", "katcp/server.py DeviceServerBase.handle_request, create_exception_reply_and_log"), ("unhandled exceptions in the read loop", "katcp/server.py KATCPServer._line_read_loop")],
  ["lines received on client sockets after the failure"])

p("C05", "Connect and disconnect are accounted exactly once per connection",
  "For every client connection accepted by a device server the connect hook runs exactly once before any message of that connection is handled, and the disconnect hook runs exactly once after it ends - by client close, reset, server-side disconnect, send failure or server stop - however these coincide. The first thing every client receives is the version announcement. The client-list request names exactly the connections that have been announced and have not been disconnected, with a count that matches its informs.",
  ["schedules", "fault_sequences", "histories"],
  "All orders of connects, closes, resets, half-open peers, server-initiated disconnects and server stop, with requests in flight.",
  "Tests connect and cleanly disconnect one or two clients; coincident disconnect causes and resets during handlers are timing dependent.",
  ["katcp/server.py"],
  [("stream close callback and disconnect bookkeeping", "katcp/server.py KATCPServer._stream_closed_callback, _disconnect_client"), ("client connection set", "katcp/server.py DeviceServer.on_client_connect, on_client_disconnect")],
  ["connect/disconnect hook calls", "#client-list informs and reply", "first lines on each client socket"])

p("C06", "Oversized lines and slow readers are cut off without collateral damage",
  "A client that sends more than the maximum message size without a line terminator, or that stops reading until more than the maximum write buffer is outstanding, loses its connection and nothing else happens: no request is run again or invented, and memory held for it stays bounded by those limits. Clients whose lines and unread output stay within the limits are never disconnected for it. Other clients keep being served throughout.",
  ["fault_sequences", "inputs", "schedules"],
  "All line lengths around the limits, all segmentations, all durations of a stalled reader, mixed with normal clients.",
  "Only single oversized messages are tested; interaction with earlier requests in the same stream, exact limits, and stalled readers under continuing output are not.",
  ["katcp/server.py"],
  [("stream buffer limits", "katcp/server.py KATCPServer.start, _handle_stream"), ("send failure closes the stream", "katcp/server.py KATCPServer.send_message"), ("read errors", "katcp/server.py KATCPServer._line_read_loop")],
  ["handler calls", "state of client sockets", "bytes buffered per stream"])

p("C07", "Stopping a server is bounded, tells its clients, and frees the port",
  "Stopping a device server, at any moment and with any requests in flight, completes within a bounded time (at most the disconnect timeout per connection plus a small constant): every connected client that is reading is sent #disconnect and then sees the connection close, every client's disconnect hook has run, nothing more is sent after the disconnect notice, and new connections are refused. The same port can then be bound again and the same or a new server started there behaves as a fresh one. The stop is acknowledged exactly once to the caller.",
  ["schedules", "crash_points", "histories"],
  "All stop times relative to connects, requests, sampling and stalled or dead clients; repeated start/stop cycles; stop through ?halt.",
  "Tests stop idle servers; stopping amid in-flight asynchronous handlers, half-open clients and pending accepts is not reached.",
  ["katcp/server.py", "katcp/ioloop_manager.py"],
  [("uninstall", "katcp/server.py KATCPServer._uninstall, _disconnect_client"), ("disconnect notice and flush", "katcp/server.py DeviceServer.on_client_disconnect"), ("stop orchestration", "katcp/ioloop_manager.py IOLoopManager.stop")],
  ["stop future", "lines and close events on client sockets", "connect attempts after stop"])

p("C08", "Mass informs and device logs reach every connected client once, in order",
  "Every mass inform is delivered exactly once, in issue order, to every client connected when it is issued and still connected and reading afterwards, and to no other connection. Device log messages are sent to clients as #log informs if and only if their level is at or above the current log level, with their level, logger name, text and timestamp intact; the log-level request reports and changes that threshold. A failing or stalled client never prevents delivery to the others.",
  ["schedules", "fault_sequences", "histories"],
  "All interleavings of issuing (from the loop or other threads), connects, disconnects, send failures and level changes.",
  "Tests use one well-behaved client; clients failing during the broadcast, joins/leaves between broadcasts and cross-thread issue order are not sampled.",
  ["katcp/server.py"],
  [("mass send", "katcp/server.py KATCPServer.mass_send_message(_from_thread)"), ("device logger", "katcp/server.py DeviceLogger.log")],
  ["lines on every client socket"])

p("C09", "Auto and event sampling deliver the right updates, in order, none lost",
  "After a client's sensor-sampling request with strategy auto is accepted it receives the sensor's current reading and then one #sensor-status per update of the sensor, in update order, with that update's exact timestamp, status and value. With strategy event it receives the current reading and then exactly those updates whose status or value differs from the last one it was sent. This holds for all clients and sensors independently, for updates made in the server's loop or from any other thread, until the strategy is changed (updates made by another thread while the subscription is being set up may be repeated).",
  ["schedules", "histories", "fault_sequences"],
  "All update histories and their interleaving with subscription, other clients' subscriptions and disconnects; updates from a second thread at any point.",
  "Tests use mock clocks with a handful of updates; lost or duplicated updates at the subscription boundary and from other threads depend on interleaving.",
  ["katcp/sampling.py", "katcp/core.py", "katcp/server.py"],
  [("observer attach and initial update", "katcp/sampling.py SampleStrategy.start/attach"), ("thread hand-off", "katcp/sampling.py update_in_ioloop"), ("sensor notify", "katcp/core.py Sensor.notify")],
  ["#sensor-status lines on client sockets against the recorded updates"])

p("C10", "Periodic sampling sends the current reading every period, without drift",
  "After a period strategy is accepted the client receives the sensor's reading at once and then once per period: the k-th inform leaves k periods after the first (never early, never twice, never drifting) while the server is responsive, and carries the reading the sensor had when it was sent. If the server was stalled for longer than a period it sends a single catch-up inform and continues at most one period later; it does not send a burst. Every client and sensor is timed independently.",
  ["schedules", "histories", "inputs"],
  "All periods, phases, update histories and loop stalls, any number of concurrent periodic subscriptions.",
  "Tests check a few ticks of one strategy with a fake clock; drift, stalls and many concurrent timers need simulated time.",
  ["katcp/sampling.py"],
  [("self-rescheduling timer with catch-up", "katcp/sampling.py SamplePeriod._run_once")],
  ["times and contents of #sensor-status lines"])

p("C11", "Rate-limited and differential sampling honour limits yet end up current",
  "With event-rate (and differential-rate) a subscribed client never receives two updates closer together than the shortest period, receives one at least every longest period while the server is responsive, and a change (a status change or, for the differential forms, a value change above the threshold) relative to what was last sent is reported as soon as the shortest period allows, so the last reported reading always catches up with the sensor. With differential, exactly those updates are sent whose status differs from, or whose value differs by more than the threshold from, the last one sent, after an initial one. Invalid thresholds or periods are refused and leave the previous strategy in force.",
  ["schedules", "histories", "inputs"],
  "All update histories and times, parameters (including zero shortest and equal shortest/longest), and loop stalls.",
  "Tests replay short fixed scripts of updates at chosen times; the pending-timer and threshold logic depends on the whole update history.",
  ["katcp/sampling.py"],
  [("short and long timers", "katcp/sampling.py SampleEventRate"), ("change tests", "katcp/sampling.py SampleDifferential, SampleDifferentialRate")],
  ["times and contents of #sensor-status lines against a reference model"])

p("C12", "Sampling subscriptions live and die with request, sensor and connection",
  "Each client has at most one strategy per sensor; the query form of the sensor-sampling request always reports the strategy and parameters last accepted for that client and sensor ('none' if never set, cleared, or the sensor was removed and re-added), and a refused request changes nothing, even partially when it names several sensors. Once the reply to setting 'none', to clearing, or to setting another strategy has been sent, no further update produced by the old strategy is sent. After a client disconnects or a sensor is removed, nothing the server still holds for that subscription observes the sensor or fires timers.",
  ["schedules", "histories", "fault_sequences"],
  "All sequences of set, replace, query, clear, bulk set, sensor removal/re-adding, disconnects and resets, at any point relative to each other and to sensor updates from any thread.",
  "Tests set and clear single strategies in quiet conditions; a disconnect or removal in the same loop turn as a subscription is only reached by chance.",
  ["katcp/server.py", "katcp/sampling.py", "katcp/core.py"],
  [("strategy bookkeeping", "katcp/server.py DeviceServer._handle_sensor_sampling, clear_strategies, remove_sensor"), ("cancel", "katcp/sampling.py SampleStrategy.cancel")],
  ["#sensor-status lines after the cancelling reply", "sensor-sampling query replies", "observers called when the sensor is set after disconnection"])

p("C13", "Sensor readings are atomic and observers see updates in order",
  "A sensor reading obtained by any reader at any time - in process, through sensor-value, sensor-list or sampling - is a timestamp, status and value that were set together by one update, never a mixture. The reading returned after an update has completed is that update or a newer one, and every attached observer is called exactly once per update, in update order when updates come from one writer, with that update's reading, at which time the sensor itself reads as that update or a newer one. Attaching or detaching an observer, even from within an observer, affects only later updates and never makes others miss theirs.",
  ["schedules", "histories"],
  "All interleavings of a writer thread, reader threads, the server loop, and observers attaching and detaching.",
  "Atomicity against preemption at any instruction cannot be sampled by the single-threaded tests.",
  ["katcp/core.py", "katcp/server.py"],
  [("single assignment of the reading and notify over a snapshot", "katcp/core.py Sensor.set, notify, attach, detach")],
  ["Sensor.read() results, observer calls, #sensor-value lines"])

p("C14", "A client request completes exactly once, with its own answer or a failure",
  "Every request made through the asynchronous client completes exactly once: with the reply and, in order, all and only the informs the server sent for that request, or with a failure reply of the same name if it could not be sent, timed out, or the connection or the client was stopped first. No completion is ever delivered twice, to the wrong request, or not at all, under any loss, delay, reset, reconnect or server crash. Late or unsolicited replies never complete another request when message ids are in use.",
  ["schedules", "fault_sequences", "histories"],
  "All interleavings of concurrent requests with the same and different names, answers in any order, with connection loss, timeouts, reconnects and client stop at any point.",
  "Tests cover one timeout and one disconnect with a cooperative server; exactly-once completion is a property of all interleavings of reply, timeout, disconnect and stop.",
  ["katcp/client.py"],
  [("pending request table", "katcp/client.py AsyncClient.callback_request, handle_reply, handle_inform"), ("failing waiting requests", "katcp/client.py AsyncClient._fail_waiting_requests, _handle_timeout")],
  ["completion callbacks/futures against what the simulated server sent"])

p("C15", "Request timeouts fire on time, and only when no reply came",
  "A request with a timeout for which no reply is processed completes with a failure reply no earlier than the timeout and, while the client's loop is responsive, no later than a scheduling delay after it; one for which a reply is processed before its timeout never reports a timeout. The default timeout applies when none is given. A timed-out request leaves the connection and every other request unaffected, and its late reply and informs are not attributed to any other request using message ids.",
  ["schedules", "inputs", "histories"],
  "All reply delays around the timeout, any number of overlapping requests, loop stalls, and late answers.",
  "Tests use one generous and one tiny timeout on the wall clock; races between reply and expiry need controlled time.",
  ["katcp/client.py"],
  [("per-request timer", "katcp/client.py AsyncClient._handle_timeout, handle_reply")],
  ["completion time and content of requests"])

p("C16", "Incoming informs and replies are routed to the right consumer, in order",
  "Every message the server sends while the client is connected is delivered exactly once and in arrival order to exactly one consumer: informs and replies that carry a pending request's id (or, without ids, its name) go to that request, all others to the handler registered for their name or the fallback handler. An exception raised by any such consumer, or a malformed line from the server, affects only that message: later messages on the same connection are still delivered. Message ids assigned by a client are never reused within its lifetime. The versions the server announces are kept.",
  ["schedules", "inputs", "histories"],
  "All message streams mixing informs, replies, requests and garbage, with and without ids, all segmentations, handlers that raise, return futures or are slow.",
  "Tests feed individual well-formed messages to individual handlers.",
  ["katcp/client.py", "katcp/inspecting_client.py"],
  [("dispatch", "katcp/client.py DeviceClient.handle_message, AsyncClient.handle_inform/handle_reply"), ("read loop error handling", "katcp/client.py DeviceClient._line_read_loop"), ("inform hooks", "katcp/inspecting_client.py _InformHookDeviceClient.handle_inform")],
  ["handler invocations against the line stream sent"])

p("C17", "A client reconnects by itself and reports connection changes truthfully",
  "With auto-reconnect, whenever the server is reachable and the network fault-free for long enough, the client is connected again within its retry delay plus connection time, however often and in whatever way the connection was lost or refused before; without it, it never reconnects. Connection notifications strictly alternate connected/disconnected starting with connected, agree with what is_connected reports, and at most one connection to the server is open at a time. After reconnecting, requests work as on a first connection.",
  ["fault_sequences", "schedules", "histories"],
  "All sequences of refusals, resets, half-open connections, server crashes and restarts, explicit disconnects, and exceptions in the notification hook.",
  "Tests reconnect once after a clean close on loopback.",
  ["katcp/client.py"],
  [("connect loop", "katcp/client.py DeviceClient._connect_loop, _connect"), ("close callback", "katcp/client.py DeviceClient._stream_closed_callback")],
  ["connections seen by the simulated server, notify_connected calls, is_connected"])

p("C18", "Stopping a client ends all its activity; it can be started again",
  "After a client is stopped - while connecting, waiting to retry, connected, or with requests outstanding - it reports stopped within a bounded time, has no open connection, is neither running nor connected, never connects again or calls its handlers, and all outstanding requests have completed. A client that was stopped can be started again and then works as a new one. Stopping twice is harmless.",
  ["schedules", "crash_points", "fault_sequences"],
  "All stop and restart times relative to connection establishment, retries, requests and connection loss.",
  "Tests stop clients that are idle and connected; stopping during connection establishment needs control over the network.",
  ["katcp/client.py", "katcp/ioloop_manager.py"],
  [("stop and install", "katcp/client.py DeviceClient.stop, _install"), ("per-run state", "katcp/client.py DeviceClient._init_state_per_run")],
  ["sockets open at the simulated server, is_connected, until_stopped, later handler calls"])

p("C19", "Threaded server: one request at a time, replies intact and never lost",
  "A device server with a handler thread runs all requests of all clients one at a time in that thread, each client's in order (one answered by a future holds up that client's next request until it is answered), and every request gets its one reply on its own connection, even when handlers block, fail, or clients come and go meanwhile; sensor sampling and accepting connections continue while a handler blocks. Informs, replies and mass informs sent from any thread arrive whole (never interleaved within a line) and in each sender thread's order. Stopping the server while a request is queued or running terminates both threads.",
  ["schedules", "fault_sequences", "histories"],
  "All preemptions between the loop thread, the handler thread, the stopping thread and user threads.",
  "Tests run threads freely for a moment; the decisive preemption points are hit rarely if ever.",
  ["katcp/server.py", "katcp/ioloop_manager.py"],
  [("message handler thread", "katcp/server.py MessageHandlerThread"), ("thread-safe sends", "katcp/server.py KATCPServer.call_from_thread, ThreadsafeClientConnection")],
  ["handler calls with thread identity, lines on client sockets, thread liveness"])

p("C20", "Blocking and callback clients are safe to use from many threads",
  "Requests issued concurrently from any number of threads through the blocking or callback client each return to their caller exactly their own reply and informs, or a failure, within their timeout plus a bounded margin; no caller is left blocked forever, whatever happens to the connection or when the client is stopped. Waiting calls for running, connected, disconnected and protocol return true only if the condition was reached and return by their timeout. A message or request sent from any thread without waiting for an answer goes out exactly once on the connection of that moment, or the call raises. Starting, stopping and joining from another thread terminates the client's thread.",
  ["schedules", "fault_sequences"],
  "All preemptions between caller threads and the client's loop thread, with connection faults and stop at any point.",
  "Thread tests make sequential calls; lost wake-ups and cross-talk appear only under particular preemptions.",
  ["katcp/client.py", "katcp/core.py", "katcp/ioloop_manager.py"],
  [("blocking request bridge", "katcp/client.py AsyncClient.blocking_request, DeviceClient._make_threadsafe*"), ("wait_with_ioloop", "katcp/core.py AsyncEvent")],
  ["return values and times of blocking calls in each thread"])

p("C21", "Calls handed to an IO loop from another thread run once and report back",
  "A call made through the loop thread wrapper runs exactly once in the loop's thread and the calling thread gets its result, the result of the future it returned, or its exception; if a timeout is given, or set as the wrapper's default, and passes first the caller gets a timeout error at that time. Calls from one thread run in order, and calling from the loop thread itself is refused rather than deadlocking. A managed loop runs in its own thread from start to stop: its stop callback completes before the loop ends, the stop future resolves, and join returns.",
  ["schedules", "histories"],
  "All preemptions of several calling threads, the loop thread and stop; functions that return, raise, return futures or never finish.",
  "Existing tests make single calls with no contention.",
  ["katcp/ioloop_manager.py", "katcp/resource_client.py"],
  [("call_in_ioloop", "katcp/ioloop_manager.py IOLoopThreadWrapper"), ("managed loop", "katcp/ioloop_manager.py IOLoopManager")],
  ["results per caller, thread identity of executed functions, thread liveness"])

p("C22", "The inspecting client's model converges to the device's interface",
  "Whenever the inspecting client reports itself synced, and the device has announced every interface change, its sets of sensors and requests equal the device's within a bounded time after the last change, reconnect or failed inspection once faults stop. The model changes reported through the state callback, applied in order to the initially empty model, always yield the client's current sets, with changed items reported as both removed and added, and a failed inspection leaves the model as it was with nothing lost for the next one. Sensor and request objects obtained afterwards describe the device's current definition.",
  ["histories", "fault_sequences", "schedules"],
  "All sequences of sensor/request additions, removals, redefinitions, interface-changed informs, disconnects, slow, failed or partial inspections.",
  "Tests inspect a static device once or twice; failed inspections midway and changes during inspection depend on timing.",
  ["katcp/inspecting_client.py"],
  [("inspection with rollback", "katcp/inspecting_client.py InspectingClientAsync.inspect"), ("difference and index update", "katcp/inspecting_client.py _difference, _update_index"), ("state loop", "katcp/inspecting_client.py _state_loop")],
  ["sensors, requests, state callback arguments against the simulated device"])

p("C23", "Inspecting-client states are legal, ordered, and settle when idle",
  "The states an inspecting or resource client reports follow the documented life cycle: only the documented combinations occur, synced is reported only after data-synced on the same connection with the state callback for it completed, and a lost connection leads out of synced promptly. Whenever the device is reachable and answers, the client becomes synced within its retry delays, and failed synchronisation attempts are retried with growing, bounded delays. While connected-and-synced or disconnected with nothing happening it neither polls the device nor calls the state callback repeatedly.",
  ["schedules", "fault_sequences", "histories"],
  "All sequences of connection loss, sync failures, slow callbacks and interface changes, over long simulated times.",
  "Real-time tests cannot wait out retry delays or count idle activity; states depend on when the connection drops within the cycle.",
  ["katcp/inspecting_client.py", "katcp/resource_client.py", "katcp/core.py"],
  [("state loop", "katcp/inspecting_client.py InspectingClientAsync._state_loop, _send_state"), ("backoff", "katcp/inspecting_client.py ExponentialRandomBackoff")],
  ["state callback sequence and times, requests arriving at the device"])

p("C24", "Resource-client sensors keep their strategies and track the device",
  "A sampling strategy set through a resource client, before or after connecting and for existing or future sensors, is in force on the device within a bounded time whenever the client is synced, across reconnects, device restarts and sensor removal and re-adding, until it is changed or dropped. While a lossless strategy is in force the sensor object's reading becomes the device's latest and every registered listener is called exactly once per received update, in order, with that update's reading; a listener set through the resource survives reconnects, and a listener registered at a sensor is called until it is unregistered, whatever other listeners do. A failed set is reported to its caller and never silently recorded as if it had succeeded on the device. A poll returns a reading no older than the device's at the time of the call, or raises. The resource reports itself synced once things settle, and disconnected while the device is away.",
  ["histories", "fault_sequences", "schedules"],
  "All sequences of strategy and listener changes, sensor updates, interface changes, disconnects and device restarts.",
  "Tests set one strategy on a live device; re-application after arbitrary disconnect/interface histories is not sampled.",
  ["katcp/resource_client.py", "katcp/resource.py", "katcp/inspecting_client.py"],
  [("strategy cache and re-application", "katcp/resource_client.py KATCPClientResourceSensorsManager"), ("model update", "katcp/resource_client.py KATCPClientResource._update_model"), ("listeners", "katcp/resource.py KATCPSensor.set, call_listeners")],
  ["strategies held by the simulated device, sensor readings, listener calls"])

p("C25", "A container's combined view always equals the union of its children",
  "At every moment the requests and sensors visible on a resource container are exactly the union of those of its children, each under its child-prefixed name and referring to the child's current object, whatever order they were looked at, added, removed or changed in and however children come, go and reconnect. A group offers exactly the requests of its member clients, a group request is sent to every member that has it and yields one result per such member, and the group wait succeeds if and only if the required number of members meet the condition before the timeout. Setting strategies or listeners through the container or a group has the effect of setting them on exactly the matching child sensors and reports success only for those that accepted. Stopping the container stops every child.",
  ["histories", "schedules", "fault_sequences"],
  "All sequences of accesses, interface changes, child connects, disconnects and additions.",
  "Tests look at the aggregate once after everything is synced; stale views after particular access orders are not sampled.",
  ["katcp/resource_client.py"],
  [("aggregate attribute caches and dirty flags", "katcp/resource_client.py KATCPClientResourceContainer"), ("groups", "katcp/resource_client.py ClientGroup, GroupRequest")],
  ["container.req, container.sensor, group.req, group results"])

p("C26", "Waits resolve if and only if their condition is met in time",
  "Waiting on a sensor value, a client or resource state, or a connection or protocol event resolves successfully once the condition has been observed to hold at or after the call and before the timeout, and otherwise ends with a timeout error at the timeout - never early, never hanging, and never reporting success for a condition that did not hold. Several waiters on the same condition all resolve. A wait that has ended leaves nothing behind that reacts to later events, and a wait on a sensor that is missing or has no sampling strategy fails at once with a sensor error.",
  ["schedules", "histories", "inputs"],
  "All orders of waits, condition changes (including changes that revert at once), timeouts and disconnects.",
  "Tests wait for one event with a generous timeout; boundary races between event, reversal and timeout are not reached.",
  ["katcp/core.py", "katcp/resource.py", "katcp/client.py", "katcp/inspecting_client.py"],
  [("async event and state", "katcp/core.py AsyncEvent, AsyncState, future_timeout_manager, until_any, until_some"), ("sensor wait", "katcp/resource.py KATCPSensor.wait")],
  ["outcome and time of each wait against the recorded condition history"])

p("C27", "Aggregate sensors always equal their rule applied to their children",
  "In a sensor tree every parent sensor equals, after every update of a child and every change of links, its rule applied to the current values of its current children (logical AND for boolean trees), through any number of levels and shared children, as seen by in-process readers and by clients sampling the parent. Delayed aggregates become active exactly when their last named child is registered and inactive when one is deregistered, and can become active again. Removing links or rules leaves the parent unaffected by later updates of the former children.",
  ["histories", "schedules"],
  "All histories of adding, removing, registering, deregistering and updating, over arbitrary acyclic graphs, interleaved with client sampling.",
  "Tests build one or two fixed small trees; re-registration and removal histories are not explored.",
  ["katcp/sensortree.py", "katcp/core.py"],
  [("update propagation", "katcp/sensortree.py GenericSensorTree.update"), ("delayed rules", "katcp/sensortree.py AggregateSensorTree.add_delayed, register_sensor, deregister_sensor")],
  ["sensor values and #sensor-status lines against a reference fold"])

p("C28", "Introspection replies match the device's actual sensors and requests",
  "At any time the help, sensor-list and sensor-value replies describe exactly the requests and sensors registered at that moment and matching the name or pattern given: one inform per match in sorted order, a final count equal to the number of informs sent for that request, correct type, units, parameters and a real current reading, and a failure for an unknown exact name. This holds while sensors are being added, removed and updated from any thread and other clients' requests are in progress. A regular-expression filter selects exactly the sensors whose names it matches. The client-list, version-list and request-timeout-hint replies likewise carry one inform per connected client, version or hint and their number.",
  ["histories", "schedules", "inputs"],
  "All histories of adding, removing and updating sensors, from the loop or other threads, between and during such requests.",
  "Tests query a fixed sensor set; concurrent changes during the request are not reached.",
  ["katcp/server.py", "katcp/core.py"],
  [("list and value requests", "katcp/server.py DeviceServer.request_sensor_list, request_sensor_value, request_help")],
  ["reply and informs against the registered set"])

p("C29", "Resource requests and thread-safe views give each caller its own answer",
  "A request made through a resource, its container or a group is sent from the IO loop at most once to exactly the devices meant, with exactly the arguments given, and resolves once: with the reply and informs that device sent to it, in order, or as a failed reply when the device does not answer within the timeout asked for (else the hint of the device, else the default) or the connection is lost. An inactive resource refuses requests and sends nothing. A group request returns a result for every member and is true only if all succeeded. The same holds from any number of threads using the thread-safe wrappers of resources, groups, requests and sensors: each call blocks only its own thread, returns its own result, never fails because of concurrent interface changes, and the names seen through the wrapper equal the resource's current ones once the interface has settled; inside the loop thread wrapped calls are refused.",
  ["schedules", "histories", "fault_sequences"],
  "All preemptions of several using threads and the loop, with interface changes, slow, failing and unanswered requests, lost connections and inactive resources at any time.",
  "Tests call single requests of a fixed device from one thread.",
  ["katcp/resource_client.py", "katcp/resource.py", "katcp/ioloop_manager.py", "katcp/object_proxies.py"],
  [("requests", "katcp/resource_client.py KATCPClientResourceRequest, GroupRequest, GroupResults"), ("thread-safe views", "katcp/resource_client.py ThreadSafeKATCPClientResourceWrapper, ThreadSafeKATCPClientGroupWrapper, MappingProxy")],
  ["requests received by devices against the results of each caller"])

p("C30", "A start works, or fails cleanly; starting twice is refused",
  "Starting a device server that cannot have its port (it is taken, or the operating system refuses) raises the error to the caller at once and leaves nothing behind: it is not running, no thread or socket of it remains, and whoever holds the port goes on undisturbed. The same server can be started later, when the port is free, and then serves as usual. Starting a server or client that is already started, however shortly before and whatever it is doing, is refused with an error and changes nothing: it keeps its one loop thread and its one port or connection, and answers everything it was asked. A start while the previous stop is still going on either works or is refused, and never prevents that stop. Once join of a stopped server returns, the server has ended, its port is closed, and it can be started again at once.",
  ["schedules", "fault_sequences", "histories"],
  "All orders and timings of starts, stops and joins of servers and clients, on their own or a shared loop, with the port taken or socket, bind or listen failing at any of them, and requests under way.",
  "Tests start each server and client once, on a free port.",
  ["katcp/server.py", "katcp/client.py", "katcp/ioloop_manager.py"],
  [("server start, stop, join", "katcp/server.py KATCPServer.start, _bind_socket, _install, join; DeviceServerBase.start"), ("client start", "katcp/client.py DeviceClient.start, _install"), ("loop thread", "katcp/ioloop_manager.py IOLoopManager.start")],
  ["exceptions of start, live threads, open descriptors and listening ports around each call, replies to requests sent in between"])

p("C31", "What is over leaves nothing behind in a server or client that lives on",
  "A server or client that runs for a long time does not fill up with what is over. Once a connection has ended in whatever way (closed by either side, reset, disconnected by the device, failed while being set up) and its hooks have run, the server keeps no reference to it, to its requests or to the sampling strategies it had; a strategy that was replaced or cancelled and one whose sensor was removed are let go of as well. Once a client's request has completed in whatever way (answered, timed out, failed because it could not be sent or its connection was lost), the client keeps neither its message nor its callbacks, and nothing of connections it has lost. Once a device's sensor or request has gone or been redefined, the resource client and container that mirrored it keep neither its old object nor, once it has resolved or timed out, anything of a wait on a sensor or state. What remains in memory does not grow with the number of connections, requests, interface changes or waits there have been.",
  ["histories", "schedules", "fault_sequences"],
  "All histories of connections, requests and subscriptions, ending in all ways and at all moments, with slow and failing hooks, handlers and callbacks.",
  "Tests end with the server or client they made, and never look for what it still refers to.",
  ["katcp/server.py", "katcp/sampling.py", "katcp/client.py", "katcp/inspecting_client.py", "katcp/resource.py", "katcp/core.py"],
  [("server connections", "katcp/server.py KATCPServer._stream_closed_callback, _disconnect_client; DeviceServer.on_client_disconnect, clear_strategies, remove_sensor"), ("client requests", "katcp/client.py AsyncClient._pop_async_request, _fail_waiting_requests, _handle_timeout; DeviceClient._disconnect, _stream_closed_callback"), ("strategies", "katcp/sampling.py SampleStrategy.cancel, detach"), ("mirrored sensors and requests", "katcp/inspecting_client.py InspectingClientAsync._difference, _update_index; katcp/resource_client.py _remove_sensors"), ("waits", "katcp/core.py until_any; katcp/resource.py KATCPSensor.wait")],
  ["connection, stream, request, strategy, message and callback objects that are still reachable after everything has ended"])

p("C90", "Message text format round-trips every message",
  "Formatting any valid message to its line form and parsing that line gives back an equal message, and parsing never accepts a malformed line. Escaping makes every argument byte string, including empty ones, representable.",
  ["inputs"], "All messages.", "Unbounded argument bytes; tests sample a few.",
  ["katcp/core.py"], [("format and parse", "katcp/core.py Message, MessageParser")], ["bytes(message) and MessageParser.parse"])

p("C91", "Argument types encode and decode values without loss",
  "For every KATCP argument type, decoding the encoding of a valid value yields that value (to the precision the protocol version defines), and invalid values are rejected on both sides.",
  ["inputs"], "All values of all types and protocol versions.", "Unbounded value domains; tests sample a few.",
  ["katcp/kattypes.py"], [("pack/unpack", "katcp/kattypes.py KatcpType subclasses")], ["encode/decode results"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P))
