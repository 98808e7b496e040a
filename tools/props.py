#!/usr/bin/env python3
"""Source of properties.jsonl (run: python3 tools/props.py)."""
import json, os
P = []


def prop(id, title, statement, over, text, why, files, mech, state=()):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                          **({"state": [{"name": n, "meaning": m, "where": w} for n, m, w in state]} if state else {})}})


# ------------------------------------------------------------------ access control
prop("A01", "Only an authenticated, authorised station ever reaches a forwarding slot",
     "A client connection is bound to a forwarding slot only after the proxy drew a fresh challenge for that connection, sent exactly that challenge to it, received a newline-terminated callsign of at most ten characters followed by sixteen response bytes that all equal the response expected for the configured password and that same challenge, and the access lists accepted that same callsign. Every other outcome (I/O error, over-long callsign, any differing byte, refused or undecidable callsign) leaves the connection without a slot. The slot is requested under exactly the callsign that was checked.",
     ["inputs", "histories"], "every byte sequence a client can send and every failure of the calls in between",
     "The end-to-end test tries one correct login; no test presents a wrong response, a response wrong in one byte, an over-long callsign or a failing send/receive.",
     ["src/proxy.c"], [("challenge, response comparison and refusal", "src/proxy.c proxy_worker_authorize"), ("grant of a slot", "src/proxy.c proxy_worker_func"), ("challenge source", "src/proxy.c get_nonce, src/rand.c rand_get")])
prop("A02", "Access lists: deny wins, allow is required, matching errors refuse",
     "A callsign is accepted exactly when it does not match the configured deny expression and, if an allow expression is configured, it matches that one; a list that is not configured imposes nothing. A matching error refuses the callsign, and each configured expression is the one compiled, unmodified and with no options, from its own setting before the service opens. If a configured expression cannot be compiled the service does not open.",
     ["configurations", "inputs", "fault_sequences"], "every combination of configured lists and every matcher outcome, including matcher failure",
     "The regex test compiles one expression; no test combines both lists or makes the matcher fail.",
     ["src/proxy.c", "src/regex.c"], [("decision", "src/proxy.c proxy_authorize_callsign"), ("compilation at open", "src/proxy.c proxy_open"), ("three-valued matcher", "src/regex.c regex_is_match"), ("compile", "src/regex.c regex_compile")])
prop("A03", "The proxy never opens for service without a real password",
     "Loading a configuration that carries the shipped placeholder password fails, and opening the proxy fails when no password is configured at all. No failed load or open leaves the proxy listening.",
     ["configurations"], "every configuration file and every order of lines in it",
     "No test loads a configuration file without a password or with the placeholder.",
     ["src/conf.c", "src/proxy.c"], [("placeholder refusal", "src/conf.c conf_parse_pair"), ("refusal to open", "src/proxy.c proxy_open")])
prop("A04", "The expected response covers the whole password and the whole challenge",
     "The response the proxy expects is the MD5 digest of the complete configured password with the letters a to z, and only those, converted to upper case, immediately followed by the eight hexadecimal digits of the challenge. The bundled client answers with the response for the challenge it received and its own password (the word PUBLIC when it has none). If the computation cannot be carried out no response is accepted.",
     ["inputs", "configurations", "fault_sequences"], "every password length and content, every challenge, allocation failure",
     "One test vector exists for one password and one challenge.",
     ["src/proxy.c", "src/proxy_client.c", "src/digest.c"], [("response computation", "src/proxy.c get_password_response"), ("client side", "src/proxy_client.c proxy_client_connect"), ("hex rendering", "src/digest.c digest_to_hex32")])

prop("A05", "The bundled client logs in with its own callsign and password or reports failure",
     "The bundled client connects to the address it was given, takes exactly the eight digits the proxy sends first as the challenge, and answers with the callsign it was given (nothing if none), a newline and the sixteen bytes computed from that challenge and its password, or PUBLIC if it has none. It reports success only after all of this was sent, on a connection left open, and after any failure the connection is closed and the failure reported.",
     ["inputs", "fault_sequences"], "every callsign, password, challenge and failure of a step",
     "The end-to-end test logs in twice with one password and no failing step.",
     ["src/proxy_client.c"], [("login", "src/proxy_client.c proxy_client_connect")])

# ------------------------------------------------------------------ sessions and slots
prop("S01", "A forwarding slot and a client worker taken for a session always return",
     "Whatever happens to a session - refusal, loss of the client, protocol error, failure to bind addresses, shutdown - the forwarding slot it took returns to the pool exactly once, after the slot has been wound down, and the worker that served it returns to the pool exactly once. A worker taken from the pool for a connection that cannot be handed over returns as well. The pool lists stay well formed, so a returned slot or worker can be taken again and none is listed twice.",
     ["histories", "inputs", "fault_sequences"], "every path of a session from accept to end, for any number of slots",
     "Tests run a single session to completion; none makes a session fail half-way and counts the slots afterwards.",
     ["src/proxy.c"], [("slot take/return", "src/proxy.c proxy_worker_func"), ("worker take/return", "src/proxy.c proxy_process, proxy_worker_func"), ("pool set-up", "src/proxy.c proxy_open")],
     [("idle_clients", "slots free for a station", "src/proxy.c struct proxy_priv"), ("idle_workers", "workers free for a connection", "src/proxy.c struct proxy_priv")])
prop("S02", "Every accepted client connection is closed and released exactly once",
     "A connection accepted by the proxy has at any time exactly one owner, and on every path it is closed and its memory released exactly once: by the acceptor when it is not handed to a worker, and by the worker otherwise, before that worker can be given another connection. A worker never accepts a second connection while it still owns one, and its reference is cleared under the same protection that external disconnection requests use.",
     ["histories", "schedules", "fault_sequences"], "every path from accept to end of session, including failures of each call",
     "No test counts open descriptors or drives a hand-off failure.",
     ["src/proxy.c"], [("acceptor", "src/proxy.c proxy_process"), ("hand-over", "src/proxy.c proxy_worker_accept"), ("release", "src/proxy.c proxy_worker_func")])
prop("S03", "A forwarding slot serves one station; only the same callsign may re-enter it",
     "A slot accepts a station only if it has none, decided and recorded as one atomic step; a reconnecting station is offered the slot it used before only if that slot last served the identical callsign. A session takes a slot from the free pool only while no other session can take the same one. If binding the slot's addresses or starting its relays fails, the slot is vacated again before the failure is reported.",
     ["schedules", "histories"], "every interleaving of sessions requesting and vacating slots",
     "The end-to-end test has one slot and two clients and never reconnects.",
     ["src/proxy_conn.c", "src/proxy.c"], [("occupancy test and claim", "src/proxy_conn.c proxy_conn_accept"), ("vacating", "src/proxy_conn.c proxy_conn_finish"), ("selection", "src/proxy.c proxy_worker_func")])
prop("S04", "No connection is served unless the service is started and not shut down",
     "A newly accepted connection is handed to a worker only if the number of usable slots is non-zero at that moment, read under the protection that shutdown uses to set it to zero; the number is set only when all slots and workers have been started, and every shutdown clears it before the directory is told and the listener is stopped. When no worker is available the connection is refused and closed and the proxy keeps running.",
     ["schedules", "histories"], "every interleaving of accept, start, shutdown and close",
     "No test shuts the proxy down while a connection is being accepted.",
     ["src/proxy.c"], [("gate", "src/proxy.c proxy_process"), ("open gate", "src/proxy.c proxy_start"), ("close gate", "src/proxy.c proxy_shutdown, proxy_close")])
prop("S05", "The directory is told about every change of slot availability",
     "After a station is authorised, after its worker has returned to the pool at the end of the session, and when the service has started or is shut down, the directory registration is updated with the number of usable slots and the number of slots in use as they are at that time. The service is reported busy exactly when all usable slots are in use and ready otherwise.",
     ["histories", "schedules"], "every session history",
     "No test enables registration.",
     ["src/proxy.c", "src/registration.c"], [("count and update", "src/proxy.c proxy_update_registration"), ("status choice", "src/registration.c registration_service_update")])

# ------------------------------------------------------------------ forwarding
prop("F01", "Each client message type has its one effect; anything else ends the session",
     "A client message is read as one fixed-size header; UDP data goes to the data endpoint, UDP control to the control endpoint, TCP open/data/close to the TCP endpoint of the addressed station, each with the address and size from that header. A header that cannot be read completely, a status message and every unknown type end the session with an error. A session continues only while each message is processed without error.",
     ["inputs"], "every header a client can send",
     "No test sends any forwarding message.",
     ["src/proxy_conn.c", "src/proxy.c"], [("header read and dispatch", "src/proxy_conn.c proxy_conn_process, process_message"), ("session loop", "src/proxy.c proxy_worker_func")])
prop("F02", "Traffic relayed to the client is always one whole, correctly labelled message",
     "Everything sent to the client during a session is a header carrying the message type of its origin, the peer address and exactly the number of payload bytes that follow, and header plus payload go out as one uninterrupted send: no other relay or reply can be interleaved. The payload is what was received from the peer, placed directly behind the header and bounded so that both fit the buffer. A relay keeps doing so as long as its endpoint delivers and the client can be written to.",
     ["schedules", "inputs"], "every interleaving of the three relays and of replies to the client, every packet size",
     "No test relays traffic, let alone from two endpoints at once.",
     ["src/proxy_conn.c"], [("relays", "src/proxy_conn.c forwarder_control, forwarder_data, forwarder_tcp"), ("replies", "src/proxy_conn.c send_tcp_close, process_tcp_open_message")])
prop("F03", "Client payload is relayed completely, in order and to the addressed peer",
     "For every data message exactly the announced number of payload bytes is taken from the client, in order, and each of them is sent once to the addressed peer - UDP data and control to that address on the port of their kind, TCP data on the open connection. When the TCP peer cannot be written to, the rest of the payload is still taken from the client and the client is told that the connection closed; message boundaries are never lost. An incomplete read from the client ends the session.",
     ["inputs", "fault_sequences"], "every announced size (including zero and larger than the buffer) and every send or receive failure",
     "No test sends a data message.",
     ["src/proxy_conn.c"], [("UDP payload", "src/proxy_conn.c process_data_message, process_control_data_message"), ("TCP payload", "src/proxy_conn.c process_tcp_data_message")])
prop("F04", "Every TCP open is answered once, every TCP end is announced, ports are right",
     "Each TCP open request closes a previous TCP connection, connects to the requested address on the station port and is answered with exactly one status message carrying the result, and the relay is started only when the connect succeeded. Whenever the TCP relay ends, the connection is closed and, unless the client can no longer be written to, the client is sent a TCP close message. A slot listens for control and data traffic on their well-known ports on the slot's own source address.",
     ["inputs", "fault_sequences"], "every connect result and every way a TCP relay can end",
     "No test opens a TCP connection through the proxy.",
     ["src/proxy_conn.c"], [("open", "src/proxy_conn.c process_tcp_open_message"), ("relay end", "src/proxy_conn.c forwarder_tcp, send_tcp_close"), ("listen", "src/proxy_conn.c proxy_conn_accept")])
prop("F05", "A slot is vacated only after all its relays have stopped and sockets are closed",
     "Ending a session first disconnects the client, then closes the slot's three endpoints, then waits until all three relays are idle, and only then marks the slot free, in that order and on every path. A relay that meets an unexpected error of the client connection or of a UDP endpoint disconnects the client, every relay stops once its endpoint or the client connection failed or its stream ended, and every relay closes its own endpoint when it stops.",
     ["schedules", "fault_sequences"], "every interleaving of the session thread and the three relays",
     "No test ends a session while relays are active.",
     ["src/proxy_conn.c"], [("wind-down", "src/proxy_conn.c proxy_conn_finish"), ("relay exit", "src/proxy_conn.c forwarder_control, forwarder_data, forwarder_tcp")])
prop("F06", "Reads and writes of a given length are exact or fail",
     "A fixed-length receive reports success only when exactly the requested number of bytes was stored, consecutively and without gap or overlap; a send reports success only when every byte of the buffer was passed on exactly once in order, however the operating system splits the transfer. An orderly end of stream before completion is an error, and any operating-system error is returned as a negative code.",
     ["fault_sequences", "inputs"], "every sequence of partial transfers",
     "Loopback transfers in the tests are never split.",
     ["src/conn.c"], [("receive loop", "src/conn.c conn_recv"), ("send loops", "src/conn.c conn_send, conn_send_to"), ("single receive", "src/conn.c conn_recv_any")])

# ------------------------------------------------------------------ concurrency
prop("C01", "Every lock taken is released exactly once on every path, in its own mode",
     "On every path through every operation, including each failure path, a lock taken exclusively is released as exclusive and a lock taken shared is released as shared, exactly once, before the operation returns; nothing is released that is not held. The only exception is waiting on a condition, which is done with the lock held exclusively and returns with it held.",
     ["inputs", "fault_sequences", "schedules"], "every path of every function of the library",
     "The tests cover few failure paths and a missing unlock shows only as a hang under contention.",
     ["src/conn.c", "src/proxy.c", "src/proxy_conn.c", "src/worker.c", "src/registration.c", "src/thread_posix.c"], [("lock interface", "include/mutex.h")])
prop("C02", "Locks are always taken in one global order; no thread re-takes its own lock",
     "Over all threads, no cycle exists in the order in which locks are acquired while others are held, and no thread acquires a lock exclusively that it already holds, or shared one it holds exclusively. So no set of threads can deadlock on the program's own locks.",
     ["schedules"], "every pair of code paths that can run concurrently",
     "A deadlock needs two threads at particular points; the tests run one session.",
     ["src/proxy.c", "src/proxy_conn.c", "src/conn.c", "src/worker.c", "src/registration.c", "src/thread_posix.c"], [("nesting of locks", "call graph of all entry points")])
prop("C03", "Shared state is only touched under its lock, and written only exclusively",
     "Every access to state shared between threads - socket handles, slot occupancy, the pools and the callsign map, usable-slot count, worker life-cycle state, a worker's connection, registration status and counts - happens while the lock that protects it is held, and every modification while it is held exclusively. Access without the lock occurs only while the object is not yet or no longer visible to other threads.",
     ["schedules"], "every path of every operation that can run concurrently with another",
     "Data races do not fail deterministic tests.",
     ["src/conn.c", "src/proxy.c", "src/proxy_conn.c", "src/worker.c", "src/registration.c"], [("guarding discipline", "lock fields in the private structures of each module")])
prop("C04", "No thread waits for another while holding a lock the other needs",
     "Waiting for a thread to end or for a relay to become idle, and every network operation that can block without bound, happens without holding any lock that the awaited thread or the operation that would interrupt it needs to take exclusively. In particular closing or disconnecting a connection always interrupts blocked transfers before it asks for exclusive access, and work callbacks run without the worker's own lock.",
     ["schedules"], "every interleaving of a waiting thread and the thread it waits for",
     "Needs a close or stop racing with a blocked transfer in another thread; only one such case is tested.",
     ["src/worker.c", "src/conn.c", "src/proxy_conn.c", "src/proxy.c", "src/registration.c"], [("interrupt then lock", "src/conn.c conn_close, conn_drop"), ("join", "src/worker.c worker_join"), ("callback", "src/worker.c worker_func")])
prop("C05", "The shared/exclusive lock excludes what it must and wakes who waits",
     "While a thread holds the lock exclusively no other holds it in any mode, and while readers hold it no writer does: an exclusive acquisition completes only when it has observed no readers with the internal mutex held and keeps that mutex, and a reader is counted and discounted under that mutex. The last reader to leave wakes waiting writers, which wait only while there are readers and re-check after every wake-up, and a failed acquisition is reported and leaves the lock as it was.",
     ["schedules", "fault_sequences"], "every interleaving of readers and writers",
     "No test contends for a lock.",
     ["src/mutex_posix.c"], [("lock implementation", "src/mutex_posix.c")])
prop("C06", "A wake-up given to a running worker is never lost, and stop always ends it",
     "A wake request accepted while a worker is starting, busy or idle leads to at least one further run of its work function, even if a stop request follows before the work begins; a worker that is stopped or stopping refuses it with an error. A stop request makes the worker thread end after at most the pending work and is waited for; waiting for idleness returns success only when the worker is idle and an error if it stopped.",
     ["schedules", "histories"], "every interleaving of wake, stop, wait and the worker's own transitions",
     "Tests exercise one wake and one stop, never interleaved.",
     ["src/worker.c"], [("state machine", "src/worker.c worker_func, worker_wake, worker_join, worker_wait_idle")])
prop("C07", "A socket is closed exactly once, never while in use, and never leaked",
     "Every socket the proxy opens is either stored where closing the connection will find it or closed on the spot, on every path including failed set-up; a stored handle is never overwritten while open. A handle is closed only after it was shut down and with exclusive access, and is marked invalid in the same step, so it is never closed twice or used after closing.",
     ["fault_sequences", "schedules"], "every failure point of listen, connect and accept and every later close",
     "The tests open few sockets and do not make socket options fail.",
     ["src/conn.c"], [("open paths", "src/conn.c conn_listen, conn_connect, conn_accept"), ("close paths", "src/conn.c conn_close, conn_drop")])

prop("C08", "A time limit is the one asked for, and its expiry is reported",
     "A timed wait is given a deadline exactly the requested time after a clock reading made for it, on the clock the wait uses and in normalised form, for every limit and every time of day; it reports expiry exactly when the limit passed and success only when woken. A receive time limit is the requested time, set on the socket the connection receives from. A worker with a period waits exactly that period between its runs, and the worker that keeps the registration alive has a period from its initialisation on.",
     ["inputs", "configurations"], "every limit of 32 bits and every reading of the clock",
     "Tests use one limit and a tolerance; a carry from nanoseconds to seconds happens in a fraction of runs only.",
     ["src/mutex_posix.c", "src/conn.c", "src/worker.c", "src/registration.c"], [("deadline of a timed wait", "src/mutex_posix.c condvar_wait_time"), ("receive time limit", "src/conn.c conn_set_timeout"), ("period", "src/worker.c worker_func"), ("renewal of the registration", "src/registration.c registration_service_init")])

prop("C09", "Every thread runs its own function on its own object and is joined exactly once",
     "Every worker and thread an object owns is given, before its owner is ready for use, a function and as context the object the function serves, and no two of an object's workers do the same work; the thread runs exactly that function on its own handle, with the stack size it was given. A thread that was created is remembered until it was waited for, is waited for exactly once and before another is started in its place; one that was not created is reported as a failure and never waited for.",
     ["histories", "fault_sequences"], "every owner of a thread, every history of start and join and every failing step",
     "Tests start each kind of thread once and never make creation fail; a missing context shows only when the thread first runs.",
     ["src/thread_posix.c", "src/worker.c", "src/proxy.c", "src/proxy_conn.c", "src/registration.c"], [("creation and join", "src/thread_posix.c thread_start, thread_join"), ("worker thread", "src/worker.c worker_init, worker_func"), ("owners", "src/proxy.c proxy_worker_init, src/proxy_conn.c proxy_conn_init, src/registration.c registration_service_init")])

# ------------------------------------------------------------------ resources and errors
prop("R01", "Tear-down releases everything set-up acquired, in a safe order, once",
     "For every kind of object, releasing it releases exactly the sub-objects and allocations its initialisation or later use attached to it, each once, and stops and joins its threads before destroying anything they use; releasing an object that was never fully initialised is harmless. A failed initialisation releases everything it had acquired and reports the failure.",
     ["fault_sequences", "histories"], "every failure point of every initialisation and every tear-down",
     "No test makes an initialisation step fail.",
     ["src/proxy.c", "src/proxy_conn.c", "src/proxy_client.c", "src/conn.c", "src/worker.c", "src/registration.c", "src/regex.c", "src/log.c", "src/conf.c", "src/thread_posix.c", "src/mutex_posix.c"], [("init/free pairs", "every module")])
prop("R02", "Temporary resources are released exactly once and never used afterwards",
     "On every path of every operation, memory, address lists and match contexts acquired for that operation are released exactly once before it returns unless ownership was handed on, and nothing is used after its release. A pointer kept in long-lived state never refers to released memory.",
     ["fault_sequences", "inputs"], "every path of every function, including each allocation or system-call failure",
     "Tests do not run out of memory or fail system calls, and do not check leaks.",
     ["src/conn.c", "src/conf.c", "src/proxy.c", "src/registration.c", "src/regex.c"], [("allocation sites", "all modules")])
prop("R03", "A failing step is never reported as success",
     "Whenever an operation of the library calls a step that can fail and the failure prevents the operation's effect, the operation reports a negative error to its caller; it never reports success after such a failure, and an error code it reports is that of the failed step or a fixed refusal code. Errors taken from the operating system are captured before anything else can overwrite them.",
     ["fault_sequences"], "each single failure of each called step, in every operation that returns a status",
     "No test injects failures.",
     ["src/conn.c", "src/proxy.c", "src/proxy_conn.c", "src/worker.c", "src/registration.c", "src/thread_posix.c", "src/mutex_posix.c", "src/conf.c", "src/regex.c", "src/log.c"], [("status returns", "all modules")])
prop("R04", "Running out of memory or omitting an optional setting never crashes the proxy",
     "The result of every allocation and of every call that can yield no object is checked before it is used. Every configuration setting that may legitimately be absent is checked before it is used.",
     ["fault_sequences", "configurations"], "every allocation failure and every subset of settings",
     "Tests always configure a password and never fail an allocation.",
     ["src/proxy.c", "src/registration.c", "src/conf.c", "src/conn.c", "src/regex.c"], [("allocation checks", "all modules")])
prop("R05", "No write ever exceeds the memory it is meant for",
     "Every write into a fixed or computed size buffer - authentication data, callsigns, port and address strings, message buffers, registration requests, configuration values, log lines - stays within that buffer for every input, peer behaviour and configuration. Text handed on as a string is terminated within its buffer.",
     ["inputs", "configurations"], "every input length and every configured string length",
     "Tests use short strings.",
     ["src/proxy.c", "src/proxy_conn.c", "src/conn.c", "src/conf.c", "src/registration.c", "src/digest.c", "src/log.c", "src/proxyd.c"], [("buffer sizes", "allocation and declaration sites")])

# ------------------------------------------------------------------ configuration
prop("G01", "Each documented setting changes only its own value; bad values are refused",
     "Every documented setting name is recognised only when complete and exactly spelled, and sets its own value and no other; later occurrences replace earlier ones. A port or timeout that is not a plain number makes loading fail, as does any failure to store a value; names that are not recognised change nothing. Text settings take the value verbatim without surrounding blanks, and an empty value of a text setting other than the password means unset.",
     ["configurations", "inputs"], "every configuration text",
     "No test parses a configuration.",
     ["src/conf.c", "doc/ELProxy.conf"], [("setting table", "src/conf.c conf_parse_pair"), ("defaults", "src/conf.c conf_init")])
prop("G02", "One slot per external address, each bound to its own address",
     "The number of slots is one plus the number of additional external addresses, the first slot uses the external bind address and every further slot its own additional address, none shared and none skipped. An unset address means every local address. Additional addresses without a specific external bind address are refused. The list of additional addresses has exactly the elements between the commas, and a repeated setting replaces the earlier list.",
     ["configurations"], "every number of additional addresses",
     "Tests run a single slot.",
     ["src/proxy.c", "src/conf.c"], [("slot set-up", "src/proxy.c proxy_open"), ("list parsing", "src/conf.c conf_parse_pair"), ("rule", "src/proxy.c proxy_load_conf")])

# ------------------------------------------------------------------ logging, registration
prop("L01", "Log messages obey the configured level and medium, and switching leaks nothing",
     "A message is written exactly when its severity is at or above the configured level, to the selected medium and nowhere else. Selecting a medium opens the new one before the old one is given up, a medium that cannot be opened leaves the old one working, and giving up a medium closes it exactly once. Every severity has an entry in each severity mapping.",
     ["configurations", "histories", "fault_sequences"], "every level, medium and sequence of medium changes",
     "Tests only log to standard output.",
     ["src/log.c", "src/proxy.c"], [("filter", "src/log.c log_vprintf, src/proxy.c proxy_log"), ("medium change", "src/log.c log_select_medium")])
prop("N01", "Directory registration is opt-in, reports every state and signs off at stop",
     "Without a registration name the directory is never contacted. Otherwise starting, each later status or count change and stopping each trigger a report carrying the current status; nothing is reported while no status is known, and stopping sends a final sign-off before it returns, after which no ready or busy status can follow. The report goes to the directory's address and port, is complete, announces its exact length, and counts as delivered only if accepted by the server.",
     ["histories", "schedules", "configurations"], "every history of start, update and stop",
     "No test enables registration.",
     ["src/registration.c", "src/proxy.c"], [("life cycle", "src/registration.c registration_service_start, registration_service_update, registration_service_stop"), ("report", "src/registration.c send_report, registration_func")])

prop("N02", "Registration reports are signed and carry the proxy's own address and port",
     "Before the reporting worker starts, the ending of every report is complete: the configured public address (empty if none), the hexadecimal digest of exactly the registration name, that address and the agreed salt, the configured port and the protocol version, in this order and without anything in between, whatever the lengths of the configured texts. The proxy is announced as public exactly when its password is PUBLIC.",
     ["configurations"], "every configured name, address, port and password",
     "No test enables registration.",
     ["src/registration.c"], [("preparation of the reports", "src/registration.c registration_service_start"), ("digest", "src/digest.c digest_get, digest_to_str")])

# ------------------------------------------------------------------ daemon
prop("D01", "The daemon serves only after each start step succeeded, else exits with an error",
     "The daemon loads its configuration, opens the proxy, detaches if asked to and starts the proxy in that order, each only after the previous step succeeded; a failed step ends it with a failure status after releasing what it had set up. Threads are started only after detaching. Incompatible or unknown command line options end it with a failure status before anything is opened.",
     ["configurations", "fault_sequences"], "every command line and every failing start step",
     "Tests run --help, --version and one invalid option.",
     ["src/proxyd.c"], [("start sequence", "src/proxyd.c main"), ("options", "src/proxyd.c parse_args")])
prop("D02", "Termination requests end service in an orderly way",
     "After a termination or interrupt signal the daemon stops accepting, leaves its service loop and releases the proxy, and it exits. A connection refused because no slot is free, a client that is lost, or an interrupted wait does not end the service loop.",
     ["schedules", "histories"], "a signal at any point of the service loop",
     "No test signals the daemon.",
     ["src/proxyd.c", "src/proxy.c"], [("signal handling", "src/proxyd.c graceful_shutdown, main"), ("shutdown", "src/proxy.c proxy_shutdown")])
prop("D03", "Closing the proxy disconnects all, joins all threads and resets it for re-use",
     "Closing shuts the service, disconnects all stations, stops and joins every worker and relay before releasing it, empties the pools and the callsign map and closes the listener, so that the proxy can be opened again from a clean state. The same holds after an open that failed half-way.",
     ["histories", "fault_sequences"], "every history of open, start, failed open, close and re-open",
     "No test re-opens a proxy or fails an open.",
     ["src/proxy.c"], [("close", "src/proxy.c proxy_close"), ("open failure", "src/proxy.c proxy_open")])

# ------------------------------------------------------------------ primitives
prop("K01", "The digest core is MD5: constants, rounds and initial state of RFC 1321",
     "The initial state, the sixty-four additive constants, the message word order, the rotation amounts, the four round functions and the final feed-forward of the block transformation are those of RFC 1321, and the digest is the state in little-endian order. Message words are read little-endian.",
     ["inputs"], "every 64-byte block and state",
     "Tests check one digest of one short message.",
     ["src/md5.c"], [("block transformation", "src/md5.c body"), ("initial state and output", "src/md5.c MD5_Init, MD5_Final")])
prop("K02", "Lookup hashing and hexadecimal conversions are exact for every input",
     "The callsign hash is one-to-one in every character of the text and in the hash of the text before it, and is a function of the text alone, so equal callsigns always find the same map entry and every index is in range. Conversions between numbers or digests and hexadecimal text map every digit to its own value in the right position, with lowercase digits in challenges and uppercase digits in registrations.",
     ["inputs"], "every input value",
     "Tests convert one value.",
     ["src/pearson.c", "src/digest.c"], [("permutation", "src/pearson.c"), ("conversions", "src/digest.c")])

prop("K03", "The digest of a message of any length, fed in any pieces, equals its MD5",
     "For every message, fed in any number of pieces of any size, the digest equals the MD5 of the whole message, including padding and length encoding; a digest computed at once takes all of its text.",
     ["inputs"], "every message and every way of splitting it",
     "One short message is tested.",
     ["src/md5.c", "src/digest.c"], [("streaming and padding", "src/md5.c MD5_Update, MD5_Final"), ("digest of a text", "src/digest.c digest_get")])

# ------------------------------------------------------------------ properties this family cannot decide here
prop("X01", "Challenges cannot be predicted by a client",
     "A client cannot predict the challenge of a future connection from the challenges it has seen, so a recorded login cannot be replayed.",
     ["histories"], "every observer and every sequence of connections",
     "Unpredictability is not observable in a finite test.",
     ["src/rand.c", "src/proxy.c"], [("generator", "src/rand.c")])
prop("X02", "Relayed traffic suffers bounded delay and no starvation",
     "A relayed packet is forwarded within a bounded time, and no reader or writer of a slot's locks starves while others make progress.",
     ["schedules"], "every load and scheduling policy",
     "Tests carry no load.",
     ["src/proxy_conn.c", "src/mutex_posix.c"], [("relay loops", "src/proxy_conn.c")])
prop("X04", "Access expressions match exactly the callsigns they denote",
     "An access expression matches a callsign exactly when the callsign belongs to the language the expression denotes.",
     ["configurations", "inputs"], "every expression and callsign",
     "One expression is tested.",
     ["src/regex.c"], [("PCRE2", "external library")])
prop("X05", "Packets of a UDP peer reach the client in arrival order without duplication",
     "Packets received from peers during a session reach the client in the order of arrival, each at most once, end to end.",
     ["schedules", "histories"], "every arrival history",
     "No test relays traffic.",
     ["src/proxy_conn.c"], [("relays", "src/proxy_conn.c")])

if __name__ == '__main__':
    out = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl')
    with open(out, 'w') as f:
        for p in P:
            f.write(json.dumps(p) + '\n')
    import re
    assert len({p['id'] for p in P}) == len(P)
    for p in P:
        n = len(re.findall(r'[.](?:\s|$)', p['statement']))
        if n > 3:
            print('sentences', p['id'], n)
    print(len(P))
