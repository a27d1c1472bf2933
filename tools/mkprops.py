#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script because the statements are easier to edit here)."""
import json
import os

P = []


def prop(id, title, statement, over, text, why, files, mechanism, observe=(), state=()):
    P.append({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text},
              'why_tests_cant': why,
              'anchors': {'files': files, 'mechanism': [{'name': a, 'where': b} for a, b in mechanism],
                          'state': [{'name': a, 'meaning': b, 'where': c} for a, b, c in state],
                          'observe_at': list(observe), 'hook_needed': None}})


prop('C01', 'Every reply reaches exactly the request it answers',
     'A synchronous remote call returns, and a Future resolves to, the value or error produced by the execution of that '
     'very request, unchanged and never that of another request, whatever other requests of the same or other clients '
     'are slow, failing, timed out, abandoned, polled or answered with something that cannot be decoded. '
     'Once resolved, a Future keeps giving the same outcome through result(), exception() and done(). '
     'As long as no connection is lost, every request that asked for a reply gets one.',
     ['schedules', 'programs', 'fault_sequences', 'configurations'],
     'all interleavings of client threads, servers and message deliveries; all client programs of sync/async/off calls; '
     'stalls, partitions, connection resets, clock jumps; msgpack and json; small queues',
     'The tests issue a handful of calls in one order on an idle loopback; reply/request matching under reordering of '
     'waits, timeouts and abandoned futures depends on schedule and history.',
     ['teleprox/client.py', 'teleprox/server.py', 'teleprox/serializer.py'],
     [('request ids and the map of pending futures', 'teleprox/client.py RPCClient.send/_process_msg'),
      ('reply carries the request id and caller id', 'teleprox/server.py RPCServer._process_one/_send_result')],
     ['return value of proxy calls', 'Future.result/exception/done'])

prop('C02', 'Requests execute exactly once, in order, one at a time',
     'A server executes every request that reaches it exactly once; requests sent over one connection are executed in the '
     'order they were sent, also when sent without waiting; and a server never executes two requests at the same '
     'time unless one is nested inside the other; so named items and shared objects are atomic (linearizable) to clients. '
     'Nothing is executed twice even when connections break and are re-established, and without a broken connection '
     'nothing is left unexecuted.',
     ['schedules', 'programs', 'fault_sequences'],
     'all schedules of several clients and threads against main-thread, worker-thread and Qt servers, with delays, '
     'stalls, partitions, resets and small queues',
     'The tests drive a server from one thread and look only at returned values; duplicate execution, overlap and '
     'ordering need concurrent clients and a record of what the server did.',
     ['teleprox/server.py', 'teleprox/client.py', 'teleprox/qt_server.py', 'teleprox/qt_poll_thread.py'],
     [('single server loop per server', 'teleprox/server.py run_forever'),
      ('one FIFO connection per client', 'teleprox/client.py RPCClient.__init__'),
      ('queued delivery to the Qt thread', 'teleprox/qt_server.py')],
     ['side effects of called functions in the server process', 'client[...] reads and writes'])

prop('C03', 'Timeouts are bounded and leave the client usable',
     'A call or Future.result() with a timeout returns or raises TimeoutError no earlier and not substantially later than '
     'that timeout, measured in elapsed real time: regardless of steps of the system clock, of other replies that keep '
     'arriving, of a server that is slow, stalled, unreachable or gone, and of full message queues. '
     'A call that timed out does not disturb any later call: once the fault is over the same client works again '
     'without being re-created.',
     ['schedules', 'fault_sequences', 'configurations'],
     'timeouts from 0 to 20 s against servers that are slow, stalled, partitioned or reset, with wall clock jumps from '
     'seconds to a year in both directions, at arbitrary points of the exchange',
     'The tests check one timeout on an idle machine with a steady clock and use the client no further under faults.',
     ['teleprox/client.py', 'teleprox/server.py'],
     [('deadline arithmetic while waiting', 'teleprox/client.py RPCClient.process_until_future'),
      ('connection check', 'teleprox/client.py RPCClient.ensure_connection')],
     ['elapsed time of calls', 'outcome of calls after faults'])

prop('C04', 'A bad request fails alone; the server and all others carry on',
     'Whatever a request contains or triggers - unknown action, name, attribute or module, missing or wrong arguments, '
     'values that cannot be encoded or decoded, released objects, exceptions of any class and with any text including '
     'SystemExit and KeyboardInterrupt, or raw bytes that are no request at all - the server keeps serving. '
     'Exactly the caller of that request gets an error, which carries the type name and text of the remote exception; '
     'every other request, of the same client and of others, is executed and answered as if the bad one had not existed.',
     ['inputs', 'programs', 'schedules'],
     'programs mixing good requests with 14 kinds of bad ones, in any order and concurrency, on all server kinds and '
     'both serializers',
     'The tests try a few failing calls one at a time and do not look at what else is in flight, and never send '
     'malformed messages.',
     ['teleprox/server.py', 'teleprox/client.py', 'teleprox/serializer.py', 'teleprox/qt_server.py'],
     [('catch-all around each request', 'teleprox/server.py RPCServer._process_one'),
      ('error report to the caller', 'teleprox/server.py RPCServer._send_error'),
      ('RemoteCallException', 'teleprox/client.py')],
     ['exceptions raised by calls', 'later calls', 'server process'])

prop('C05', 'Calls that lead back to the caller never deadlock',
     'While a server - or a client that runs a local server in its own thread - waits for a remote call it made, it keeps '
     'answering requests that come in, so that any finite tree of nested calls and callbacks between processes and threads '
     'completes with the right results and executes every call exactly once. '
     'This holds for main-thread, worker-thread, lazy and Qt servers, for threads and servers that come and go, and for '
     'requests of others arriving meanwhile.',
     ['schedules', 'programs'],
     'all finite call trees over up to 4 servers and clients with lazy local servers, all interleavings and delays',
     'The tests have one callback from one server; whether a wait cycle can form depends on the shape of the call tree '
     'and the arrival order of requests and replies.',
     ['teleprox/client.py', 'teleprox/server.py', 'teleprox/qt_server.py'],
     [('waiting client polls the local server socket too', 'teleprox/client.py RPCClient.process_until_future / _build_poller'),
      ('lazy server', 'teleprox/server.py RPCServer.run_lazy'), ('one server per thread', 'teleprox/server.py servers_by_thread')],
     ['termination and results of calls', 'side effects of called functions'])

prop('C06', 'A reference keeps its object alive and reaches nothing else',
     'An object published by proxy stays alive as long as one proxy to it exists anywhere that has not been deleted, and is '
     'released once every such reference is deleted or garbage collected. '
     'Using, passing, echoing or copying a proxy always reaches the very object it was created for, and passing it to the '
     'process that owns the object yields the object itself. '
     'A proxy whose reference was deleted, or whose server is gone, raises an error and never reaches a different object, '
     'even if object ids, process ids or addresses are reused.',
     ['programs', 'schedules', 'fault_sequences', 'histories'],
     'programs of several clients that create, share, copy, delete and drop references while ids are reused and servers '
     'are closed, killed and replaced',
     'The tests delete one or two proxies on one server; lifetime depends on the interleaving of deletions with other '
     'references in flight and on id reuse.',
     ['teleprox/proxy.py', 'teleprox/server.py', 'teleprox/client.py', 'teleprox/serializer.py'],
     [('table of published objects and reference ids', 'teleprox/server.py get_proxy / unwrap_proxy / delete action'),
      ('deletion when the last local proxy goes away', 'teleprox/proxy.py ObjectProxy._delete/__del__')],
     ['attribute reads and calls through proxies', 'finalization of objects in the server process'])

prop('C07', 'Closing a server stops it, tells every client and frees the address',
     'After a server was closed - by a client, by another thread, from inside a request, or by exit of its process - it '
     'executes nothing more, its loop and process end, its address can be bound by a new server that clients reach in the '
     'ordinary way, and closing it again succeeds and harms nobody. '
     'Every client it knows is told: each request still unanswered ends promptly with its result or with an error that '
     'says the server is gone, none hangs until its timeout, and later use of that client fails at once.',
     ['schedules', 'programs', 'fault_sequences', 'crash_points'],
     'closing at any moment of the traffic of several clients, by up to two parties at once, for all server kinds, '
     'followed by a restart at the same address',
     'The tests close idle servers and look at one client.',
     ['teleprox/server.py', 'teleprox/client.py', 'teleprox/qt_server.py', 'teleprox/qt_poll_thread.py'],
     [('close action and disconnect messages', 'teleprox/server.py process_action/_final_close'),
      ('client side', 'teleprox/client.py _server_disconnected / close_server')],
     ['outcomes of calls and futures', 'disconnected()', 'process exit', 'binding the address again'])

prop('C08', 'Connections belong to one thread; failed attempts leave nothing behind',
     'RPCClient.get_client gives each thread its own connection to an address - always the same one until it is closed - '
     'and RPCServer gives each thread at most one server; no connection is ever used by two threads, not even through a '
     'proxy that was handed to another thread, and threads or processes with identical names or re-used ids never receive '
     'each other\'s replies. '
     'An attempt to connect to a server that is absent, hung or closing fails in bounded time with an error, leaves no '
     'half-made client registered, and does not prevent a later attempt from succeeding once the server is there.',
     ['schedules', 'programs', 'histories', 'fault_sequences'],
     'programs of up to 3 processes whose threads come and go, get, create, close and share connections, while servers start '
     'late, hang, close, die and come back; re-used thread ids, pids and ports',
     'The tests use one or two threads that live as long as the test; mixing up connections needs thread death, id re-use '
     'and failures at the right moment.',
     ['teleprox/client.py', 'teleprox/server.py', 'teleprox/proxy.py'],
     [('registry of connections', 'teleprox/client.py clients_by_thread / get_client'),
      ('registry of servers', 'teleprox/server.py servers_by_thread / get_server'),
      ('proxies look up the connection of the using thread', 'teleprox/proxy.py ObjectProxy._client')],
     ['identity of returned clients', 'outcome of calls', 'errors of failed attempts'])

prop('C09', 'A child process starts or fails cleanly, and never outlives its parent',
     'start_process returns a running process of the requested kind, reachable by the returned client, or raises in bounded '
     'time the error that prevented it and leaves no process behind, whatever goes wrong at any point of the start. '
     'stop, kill, wait and poll do what they say and report the true exit status, repeatedly and on children that crashed or '
     'are busy, also when the process runs under a shell or in a conda environment. Options that exclude each other are refused '
     'before anything is started. When a parent ends, by itself or by a crash during start-up, none of its children is left running or as a zombie.',
     ['fault_sequences', 'crash_points', 'schedules', 'configurations'],
     'one or more parents and threads starting children with all options while spawning fails, and children and parents '
     'crash, hang, stall or are slow at any line of the start-up',
     'The tests start healthy children one after the other; failures at every point of a two-process handshake cannot be '
     'provoked by them.',
     ['teleprox/process.py', 'teleprox/bootstrap.py'],
     [('handshake of spawner and new process', 'teleprox/process.py start_process / teleprox/bootstrap.py'),
      ('life-cycle methods', 'teleprox/process.py ChildProcess')],
     ['return value or exception of start_process', 'process table', 'exit status'])

prop('C10', 'A daemon is independent of its parent until it is stopped',
     'A process started with daemon=True has its own session and process group and no stdio of its parent, leaves no zombie, '
     'and keeps running and serving - also to processes that did not start it - after its parent exits, is killed, is '
     'interrupted or loses its terminal. '
     'stop() and kill(), by anybody, end it, and a daemon whose start was reported as failed, or whose parent died before '
     'learning of it, does not stay behind.',
     ['fault_sequences', 'crash_points', 'schedules', 'configurations'],
     'daemons of all kinds, parents that leave in four ways at any moment, spawn failures, crashes, stalls and hangs at any '
     'line of the start-up',
     'The test starts one healthy daemon; the hand-over between four processes (spawner, two intermediate forks, daemon) '
     'breaks only at particular crash points.',
     ['teleprox/process.py', 'teleprox/bootstrap.py', 'teleprox/util.py'],
     [('double fork', 'teleprox/bootstrap.py'), ('start and reaping of the first process', 'teleprox/process.py start_process'),
      ('DaemonProcess', 'teleprox/process.py')],
     ['process table', 'answers of the daemon', 'sessions and process groups'])

prop('C11', 'Forwarded log records arrive exactly once, in order, complete, attributed',
     'Every record that passes the level of a logger in a process connected to a LogServer is handled there exactly once, '
     'with its message, level, logger, exception text and the true host, process and thread names, and the records of one '
     'thread arrive in the order they were created - including the last ones before the process exits, and including, once '
     'log_exceptions() is on, exceptions that no thread caught (exactly one record each). '
     'Logging never blocks or breaks the program that logs: not when the log server is absent, slow, stalled, gone or '
     'changed, and not for messages that cannot be formatted or encoded. '
     'Nothing that arrives at a log server - garbage, bad records, failing handlers - keeps it from handling later records.',
     ['schedules', 'programs', 'fault_sequences', 'crash_points'],
     'all interleavings of logging threads in several processes and one or two log servers that start late, stop, stall, '
     'are replaced or sent garbage, with partitions, resets, clock jumps, exits at any moment',
     'The tests log a few records over an idle connection; losses happen at exit, under load, during reconnects and for '
     'unusual records.',
     ['teleprox/log/remote.py', 'teleprox/log/__init__.py'],
     [('queue and sender thread', 'teleprox/log/remote.py LogSender'), ('receiving thread', 'teleprox/log/remote.py LogServer'),
      ('names of host, process, thread', 'teleprox/log/remote.py set_*_name / get_*_name')],
     ['records handled by the handlers of the logger that was given to LogServer', 'duration and outcome of logging calls'])

prop('C12', 'Captured output of a child becomes log records, line by line, to the last byte',
     'Everything a child started with log_stdio writes to stdout and stderr becomes exactly one log record per line, with '
     'the content and order of that stream and the level configured for it, up to the last byte written before the child '
     'ended in whatever way, also when its bytes are not valid text or it is waited for, stopped or killed meanwhile. '
     'Several children, also ones with the same name or re-used pids, are never mixed up, and a child never blocks forever '
     'because its output is not read.',
     ['schedules', 'programs', 'fault_sequences', 'crash_points'],
     'children that write lines of any size and encoding in pieces from several threads and exit, crash or are killed at any '
     'moment, while the parent waits, stops, stalls or is itself busy',
     'The test captures a few short lines of a healthy child; the last bytes before a crash, partial reads and full pipes '
     'depend on timing.',
     ['teleprox/log/stdio.py', 'teleprox/process.py'],
     [('one polling thread per pipe', 'teleprox/log/stdio.py StdioLogSender'),
      ('draining at the end', 'teleprox/process.py ChildProcess.wait')],
     ['log records in the parent or in its log server', 'progress of the child'])

prop('C13', 'The log handler writes each record once, sorted, attributed and in time',
     'RPCLogHandler writes every record it receives, whatever its level, exactly once to its stream, as it was when it was logged and headed by '
     'the host, process and thread that created it, and within about its sorting delay, whatever the clock of the sender '
     'says; records that arrive within the delay are written in order of creation. '
     'When the program ends in any orderly way, everything received before is written completely and in order, and a '
     'stream or record that fails affects no other record.',
     ['schedules', 'programs', 'fault_sequences', 'configurations'],
     'local threads and processes on hosts with skewed and jumping clocks log into one handler with a slow or failing '
     'stream, and the program exits at any moment',
     'The tests do not look at what the handler writes; the race of its thread with exit, and clock differences, need '
     'control over schedule and time.',
     ['teleprox/log/handler.py', 'teleprox/log/remote.py'],
     [('sorting buffer and writer thread', 'teleprox/log/handler.py poll_records / emit'),
      ('flush at exit', 'teleprox/log/handler.py flush_records')],
     ['text written to the stream', 'time of writing'])

prop('C14', 'Timers call on schedule, one call at a time, and stop when told',
     'A Timer calls its function as soon as, but not before, its interval has passed since the previous call began and that '
     'call is over: never two calls at once, exactly `limit` calls if there is a limit, whatever the system clock does '
     'and however long calls take. After stop() at most one call that was already due is made, and start() begins afresh, also '
     'after stop(), the limit, a failing call or a closed server ended the timer and while it runs. `running` tells the '
     'truth, and no timer keeps its program from ending.',
     ['schedules', 'programs', 'fault_sequences'],
     'timers with local callables and with proxies, of own and remote servers, started, stopped and restarted by generated '
     'programs from several threads while clocks jump, processes stall and servers close',
     'There is no test of timers with restarts, slow callbacks or clock changes; the race of stop() and start() with the '
     'thread of the timer depends on the schedule.',
     ['teleprox/timer.py', 'teleprox/server.py'],
     [('one thread per start, which checks that it is still in charge', 'teleprox/timer.py Timer._run'),
      ('timers in servers', 'teleprox/server.py start_timer')],
     ['times at which the callback runs', 'Timer.running', 'end of the program'])

prop('C15', 'A measured clock offset is as exact as the round trips permit',
     'RPCClient.measure_clock_diff() returns by how much the clock of the client is ahead of that of the server (the base '
     'of comparing times of hosts), and its error is bounded by the duration of the round trips it was derived from, '
     'whatever the two clocks show, whatever kind the server is, and however much other requests compete with it. '
     'It fails if the server cannot be reached and never disturbs other requests.',
     ['schedules', 'fault_sequences', 'configurations'],
     'clients and servers on hosts whose clocks differ by up to years and drift measure their offset while others keep the '
     'server busy, with asymmetric delays, stalls, partitions and clock jumps',
     'A test runs on one host with one clock, where the right answer is always zero.',
     ['teleprox/client.py', 'teleprox/server.py'],
     [('averages of timed round trips', 'teleprox/client.py measure_clock_diff'), ('server time', "teleprox/server.py action 'ping'")],
     ['value returned by measure_clock_diff', 'outcome of other requests'])

prop('C16', 'A Qt server works in the GUI thread, leaves it free, and ends as configured',
     'Every request to a QtRPCServer is executed in the GUI thread, one at a time, and between '
     'requests the event loop stays free for other events, however many requests wait and however clients behave. '
     'Closing it, by a client or in its own process, ends its polling and tells its clients, quits the application if '
     'and only if quit_on_close is set, and neither blocks the GUI nor keeps the process from ending; a new server can '
     'then be started in the same application.',
     ['schedules', 'programs', 'fault_sequences', 'configurations'],
     'GUI programs with one server after another, at new or reused addresses, whose clients send batches of requests that '
     'return, fail or take long, and which are closed by clients, the GUI or another thread at any moment',
     'The tests cannot run Qt at all in most environments; the hand-over between polling thread and GUI thread depends on '
     'the schedule.',
     ['teleprox/qt_server.py', 'teleprox/qt_poll_thread.py'],
     [('polling thread, signal, reply socket', 'teleprox/qt_poll_thread.py QtPollThread'),
      ('quit_on_close', 'teleprox/qt_server.py process_action')],
     ['thread of execution', 'progress of a GUI timer', 'results of requests', 'end of the application'])

prop('C17', 'A shared array is one memory for all processes, as long as its owner lives',
     'A SharedNDArray that is passed to another process on the same host, directly, by transfer(), inside other data, forwarded '
     'from process to process or as a view, refers there to the same elements, so that every write is seen by all. '
     'The memory stays usable in a process as long as it holds the array, any view or its data, whichever other process '
     'gives its copy back, exits or crashes; it is removed when its owner removes it or ends, unless asked otherwise, '
     'and by nobody else. A process on another host, or one that comes too late, gets an error, not other data.',
     ['programs', 'schedules', 'crash_points', 'inputs'],
     'programs of several threads and servers on two hosts that create, view, pass on, return, write, read and drop shared '
     'arrays of all shapes and types, while processes close, exit or are killed and memory is refused',
     'Tests pass one array to one process; who removes the memory, and when, depends on the order in which several processes '
     'use, drop and end.',
     ['teleprox/shmem.py', 'teleprox/serializer.py'],
     [('ownership, views, pickled form', 'teleprox/shmem.py SharedNDArray'),
      ('serialization of shared arrays', 'teleprox/serializer.py')],
     ['elements seen by every process', 'segments that exist in shared memory', 'errors of attaching'])

prop('C18', 'Process tools find, kill and report exactly the processes and ports asked for',
     'find_procs returns every process that lives throughout the search and whose command line contains the text, and none '
     'that does not; kill_procs and ProcessCleaner kill exactly the processes asked for, not before and not others, and '
     'report them truthfully, whatever happens in the cleaned block. '
     'assert_pids_dead fails if and only if a process is alive and names it; check_tcp_port and netstat tell whether a '
     'port is open and who holds it.',
     ['histories', 'schedules', 'inputs', 'fault_sequences'],
     'hosts on which processes with similar command lines start, end and become zombies and ports open and close while '
     'several programs use the tools; partitions, hosts that are down, stalls',
     'What the tools see depends on what other processes do at that moment, and tests cannot let the tools loose on '
     'a system with arbitrary processes.',
     ['teleprox/util.py'],
     [('search and kill', 'teleprox/util.py find_procs/kill_procs'),
      ('test helpers', 'teleprox/util.py ProcessCleaner/assert_pids_dead/check_tcp_port/netstat')],
     ['processes found, killed, named in errors', 'signals sent', 'state of ports'])

prop('C19', 'A proxy behaves like the object behind it',
     'Calls, attribute chains, items, operators, comparisons, in-place operators and assignments on a proxy do to the remote '
     'object what the same expression would do locally, with arguments that are values, proxies or containers of both, '
     'and give the same result or the same error in every sync and return mode. '
     'The options of a proxy govern it, what is derived from it and copies of it and no other proxy; invalid options are '
     'refused. A module is imported in the process of the server under its whole name. Proxies of the same object or attribute, and no others, are equal and hash alike.',
     ['programs', 'schedules', 'configurations', 'inputs'],
     'generated programs over proxies in several threads against main-thread, worker-thread and Qt servers, each step of '
     'which is also run on local twins of the objects',
     'Tests try a few expressions; the property covers all compositions of operations, options, modes and arguments, and '
     'threads that share the objects.',
     ['teleprox/proxy.py', 'teleprox/server.py', 'teleprox/client.py'],
     [('deferred attributes, special methods, options', 'teleprox/proxy.py ObjectProxy'),
      ('unwrapping proxies of own objects', 'teleprox/server.py unwrap_proxies'),
      ('actions', 'teleprox/server.py process_action')],
     ['results and errors of operations on proxies', 'state of the remote objects', 'equality and hash of proxies'])

prop('C20', 'Started processes log where they were told, at their level and under their names',
     'A process started with start_process - and every process it starts in turn - sends its log records, and the exceptions '
     'that none of its threads caught, to the log server it was given or else, unless it is a daemon, to that of its parent: '
     'each exactly once, in order, at or above the level it was given (or that of its parent), under its own process name '
     '(including PROCESS_NAME_PREFIX), host and thread names, up to the moment it is stopped. A process that receives '
     'records and forwards its own passes them on under their true origin. A process without a log server sends nothing to any, '
     'and none of this depends on how it was started (shell, Qt, serializer, type of the address) or how it is named.',
     ['configurations', 'programs', 'schedules'],
     'generated trees of up to 6 processes with every combination of name, prefix, address, level, daemon, qt and shell, some '
     'with log servers of their own, logging from main, short-lived, named and dying threads until they are stopped',
     'Tests start one child with one configuration; inheritance over generations, forwarding chains and the last records '
     'before the end only show in trees of processes and particular schedules.',
     ['teleprox/process.py', 'teleprox/bootstrap.py', 'teleprox/log/remote.py', 'teleprox/log/handler.py'],
     [('passing on address, level and name', 'teleprox/process.py start_process'), ('set-up of logging', 'teleprox/bootstrap.py'),
      ('forwarding', 'teleprox/log/remote.py LogSender, LogServer, get_logger_address')],
     ['records handled by the log servers and their attributes', 'names of processes'])

prop('C21', 'A log viewer gets every record once, in the GUI thread, and holds nobody up',
     'A LogViewer receives every record that its logger handles and its level and filters admit - from any thread, also those '
     'forwarded from other processes - exactly once, in the GUI thread, in the order of each thread, as it was when it was '
     'logged, and promptly whenever the event loop runs. Logging never waits for the GUI, not even when it is busy or has ended, '
     'never fails because of a viewer, and viewers neither block the event loop nor keep the process from ending.',
     ['schedules', 'programs'],
     'generated programs with 1-3 viewers on various loggers, logging threads, GUI code and remote processes, with a GUI that is '
     'idle, busy, stalled or gone',
     'There is no test of the viewer; thread affinity, order and mutation of arguments depend on the schedule of the GUI '
     'and logging threads.',
     ['teleprox/log/logviewer.py'],
     [('handler and widget', 'teleprox/log/logviewer.py QtLogHandler, LogViewer')],
     ['records passed to LogViewer.new_record', 'thread it runs in', 'duration of logging calls'])

prop('C22', 'What is sent by value and what by proxy follows the types and options that were asked for',
     'In arguments, results, published items, attributes and transferred objects, at any depth, exactly the values of the '
     'serialize_types of their sender (and those that the format itself knows) arrive as equal values, for every serializer; '
     'everything else arrives as a proxy of that very object, which is the object itself again wherever its owner sees it, with '
     'the default proxy options of the receiving client. Without a server that could own a proxy the call is refused with a '
     'TypeError and not made.',
     ['inputs', 'programs', 'schedules'],
     'nested values of 30 kinds x lists of types of clients and servers x serializers x ways to send them, between several '
     'clients and servers',
     'The tests send a few fixed values with the default types; what matters is the combination of type lists, serializers, '
     'nesting, subclasses and the concurrent use of several clients and servers in one process.',
     ['teleprox/serializer.py', 'teleprox/server.py', 'teleprox/client.py', 'teleprox/proxy.py'],
     [('encoding', 'teleprox/serializer.py Serializer.encode/decode'), ('results', 'teleprox/server.py auto_proxy/_send_result'),
      ('options', 'teleprox/client.py default_proxy_options')],
     ['value or proxy at each place of what arrives', 'identity of proxied objects', 'options of received proxies',
      'TypeError of refused calls'])


if __name__ == '__main__':
    d = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(d, 'properties.jsonl'), 'w') as f:
        for p in P:
            f.write(json.dumps(p) + '\n')
    print(len(P), 'properties')
