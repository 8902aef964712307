#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a generator only so that the long texts stay readable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    a = {"files": ["src/" + f for f in files], "mechanism": [{"name": n, "where": w} for n, w in mech], "hook_needed": None}
    if observe: a["observe_at"] = observe
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement, quantifier={"over": over, "text": qtext},
                  why_tests_cant=why, anchors=a))

p("C01", "An encoded request is exactly its command template, within the given space",
  "Encoding a request template into a message writes the template's commands in order, each with its configured options and its own sampled "
  "value(s), followed by exactly one end marker. A probabilistic skip entry is never written itself and, when it is drawn, leaves out exactly the next n command "
  "groups (a forward together with everything up to its matching reply is one group). If the commands plus end marker do not fit into the space the caller announced, "
  "encoding reports failure and never writes outside that space.",
  ["inputs", "programs"], "all well-nested templates up to the bound, all option values, all random draws, all announced space sizes",
  "Unit tests encode three fixed templates with fixed values into a large buffer; no test draws a skip at each position or uses a tight buffer.",
  ["ccmd.c", "message.c"], [("template encoder", "src/ccmd.c"), ("command sizes", "src/message.c")], ["bytes of the encoded message", "encoder return value"])

p("C02", "Skipping commands counts a whole forward group as one command",
  "Skipping n commands, both in a request template and in an encoded request, advances over exactly n groups: a plain command is one group, and a forward (or a run of "
  "adjacent branches of a multi-forward) together with everything up to and including its matching reply is one group, however deeply forwards nest. "
  "Skipping stops at the end of the commands and never reads beyond it. Skipping 0 does not move.",
  ["inputs", "programs"], "all command sequences up to the bound with well-nested forwards, every start position and every skip count",
  "Tests skip over two or three hand-written sequences; nesting, multi-forward runs and skip counts past the end are not enumerated.",
  ["message.c", "ccmd.c"], [("skip over encoded commands", "src/message.c"), ("skip over template commands", "src/ccmd.c")], ["returned position"])

p("C03", "A forwarded request carries exactly the commands up to the matching reply",
  "The request sent to a forward target consists of exactly the commands after the forward (after the whole run of branches for a multi-forward) up to and including the "
  "matching reply, unchanged and followed by an end marker, with a fresh success status and an announced size that covers all of it. "
  "The reply of the outer request is never included and the original request is not modified. If the commands do not fit into the announced space the copy is refused and nothing is written outside that space.",
  ["inputs", "programs"], "all well-nested command sequences up to the bound, all option bytes, all destination sizes, all configured forward packet sizes",
  "Tests check two fixed messages through a log line; sizes at the limit and nested groups are not covered.",
  ["message.c", "dw_node.c"], [("copy of the command tail", "src/message.c"), ("forward start", "src/dw_node.c")], ["bytes sent to the forward target"])

p("C04", "The bounded double-ended queue behaves as a sequence",
  "For every sequence of enqueue, dequeue at either end and drop operations, the queue's size, capacity, front and back elements are those of a plain sequence of at most capacity elements. "
  "Enqueueing into a full queue fails and changes nothing; dequeueing from an empty queue changes nothing. No operation touches memory outside the queue.",
  ["histories", "inputs"], "all operation sequences up to the bound, all capacities up to the bound, all keys and values",
  "Unit tests run a handful of fixed sequences on one capacity and never mix removals at both ends across the wrap-around.",
  ["queue.c", "queue.h"], [("ring indices", "src/queue.c")], ["size/head/tail accessors"])

p("C05", "The priority queue always yields the minimum and keeps handles valid",
  "After any sequence of inserts, removals through handles and pops, the queue's top is an element with the least key among those inserted and not yet removed, its size is their number, and draining it returns each exactly once in "
  "non-decreasing key order with its own data. A handle returned by insert stays valid for removal until its element leaves the queue. Inserting into a full queue is refused without disturbing the stored elements.",
  ["histories", "inputs"], "all operation sequences up to the bound, all key values including equal and negative keys",
  "The unit tests insert a few fixed keys; removal through handles in arbitrary heap positions and ties are not enumerated.",
  ["priority_queue.c", "priority_queue.h"], [("heap with handle back-pointers", "src/priority_queue.c")], ["top/size/pop/remove"])

p("C06", "Time arithmetic is exact and normalised",
  "Adding or subtracting two normalised time values gives the exact result with nanoseconds in [0, 1e9), the difference in microseconds is the exact difference rounded down, and the ordering test agrees with the order of the instants. "
  "Converting microseconds to a timer setting and back is the identity for every non-negative 31-bit value, and the timer setting is itself normalised.",
  ["inputs"], "all pairs of normalised time values with seconds in a 33-bit range; all 31-bit microsecond counts",
  "Unit tests use six fixed pairs.", ["timespec.h"], [("time helpers", "src/timespec.h")], ["returned values"])

p("C07", "Every pending forward timeout fires on time, exactly once, never early",
  "At every moment the node's timer is armed for the earliest pending forward timeout and for no other time, whatever timeouts were started, cancelled by replies or expired before, and however much time passed in between. "
  "A timeout is acted upon when and only when its own duration has elapsed since its forward was sent and the forward has not been answered. When no timeout is pending the timer is disarmed.",
  ["histories", "inputs", "schedules"], "all interleavings up to the bound of forwards with timeouts, replies, expiries and elapsed times, all durations",
  "The forward-timeout integration test is not stable and uses one timeout at a time with real time; overlapping timeouts are never exercised.",
  ["dw_node.c", "timespec.h", "priority_queue.c"], [("timeout queue and timerfd", "src/dw_node.c")], ["timer settings", "retries and replies sent"])

p("C08", "Samples respect the configured distribution's range and sequence",
  "A fixed value always samples to itself; a uniform sample lies in its range; for every distribution with configured bounds no sample outside them is ever returned. Arithmetic and geometric sequences return start, start+step, ... (start*step, ...) clamped at their limit, "
  "and file samples are returned in file order, wrapping around after the last one.",
  ["inputs", "histories"], "all parameter values in the stated ranges, all random draws, several consecutive samples",
  "The test only checks two averages over many draws; bounds and sequence ends are not checked.", ["distrib.c"], [("sampler", "src/distrib.c")], ["returned samples"])

p("C09", "Value and unit suffixes are parsed into the right quantity",
  "A numeric value with an optional unit suffix is parsed to the number times the unit's factor: k, m, g scale by 1e3, 1e6, 1e9; for times ns, us, ms, s scale to microseconds; for sizes a trailing b or B is ignored. "
  "Distribution specifications set exactly the named fields (min, max, std, step, avg, k and scale) of exactly the named distribution, and a specification that misses a required field or has an unknown field is rejected.",
  ["inputs"], "all single- and two-digit values, all suffixes and field combinations up to the bound",
  "Tests parse two literals.", ["distrib.c"], [("specification parser", "src/distrib.c")], ["parsed specification", "process exit on error"])

p("C10", "Request identifiers always denote the live request they were issued for",
  "A request identifier issued by a node finds exactly the request it was issued for as long as that request is live, and finds nothing before it is issued or after it is released, including when the table has wrapped around. "
  "Two live requests never share storage, and arbitrary identifiers received from the network, including the extreme ones, never select a free entry or memory outside the table.",
  ["histories", "inputs"], "all allocate/release/lookup sequences up to the bound starting from any table position, all 32-bit identifiers",
  "The table has 65536 entries and wraps only after that many requests; tests send tens.", ["request.c", "request.h", "connection.c"], [("request table", "src/request.c")], ["lookup results"])

p("C11", "Connection slots are exclusive, fully reset, and found by their own key",
  "An allocated connection slot is used by one connection only until it is freed, and allocation fails only when no slot is free or memory is exhausted, losing no slot in either case. A freshly allocated slot carries nothing over from its previous user: no pending requests, no received or unsent bytes. "
  "Looking up a connection by socket or by target finds an open connection with that socket, or that protocol and (for TCP) that target, or nothing.",
  ["histories", "inputs", "fault_sequences"], "all allocate/free/lookup sequences up to the bound, with allocation failures at any point, all addresses",
  "Tests never exhaust the 8192 slots, never fail malloc and never look at stale state.", ["connection.c"], [("slot pool", "src/connection.c")], ["slot identifiers", "state of the new connection"])

p("C12", "Received messages are delivered once, in order and intact, however split",
  "Whatever the sizes of the pieces in which a peer's byte stream arrives, the receiver obtains exactly the messages the peer sent, each once, in order and with unchanged content. "
  "Requests that are still pending keep their own content and position when other requests on the same connection complete, in any completion order, and the space of completed requests becomes available again.",
  ["inputs", "histories", "schedules"], "all fragmentations of the stream into receives up to the bound, all message sizes, all completion orders",
  "Loopback tests almost always deliver whole messages; partial headers and out-of-order completion are not forced.", ["connection.c", "dw_node.c"], [("receive buffer and framing", "src/connection.c")], ["messages obtained", "pending request content"])

p("C13", "Queued messages leave intact and in order under partial and blocked sends",
  "Messages queued on a connection are transmitted byte for byte, each once and in queueing order, whatever number of bytes each send accepts and however often a send would block. Bytes that could not be sent stay queued and are sent when the socket becomes writable again; a would-block result never closes the connection or loses a message. "
  "Messages queued before an outgoing connection is established are sent once it is.",
  ["fault_sequences", "inputs"], "all sequences of partial-send sizes and would-block results up to the bound, all message sizes",
  "Loopback sockets accept whole messages at once; partial sends are never produced in tests.", ["connection.c", "dw_node.c"], [("send buffer", "src/connection.c"), ("writable-event handling", "src/dw_node.c")], ["bytes handed to the socket"])

p("C14", "A node executes each request's commands in order and replies exactly once",
  "For every well-formed request a node performs the commands in order - busy for at least each compute time, one storage operation per store/load and waiting for it - up to the first reply, and then sends exactly one reply with the request's identifier, the requested size and success status to the connection (for datagrams, the address) it came from. "
  "Commands after that reply are not executed and concurrent requests on the same or other connections do not disturb each other.",
  ["inputs", "programs", "schedules"], "all command sequences up to the bound, all identifiers and option values, all arrival interleavings over two connections",
  "Tests use one client with default commands and look at log lines; identity, order and exactly-once are not asserted.", ["dw_node.c", "connection.c"], [("command interpreter", "src/dw_node.c")], ["bytes sent to clients", "storage operations", "clock readings"])

p("C15", "A multi-forward continues after the required acknowledgements and only then",
  "A forward with N targets and a reply requiring M acknowledgements sends one sub-request to each target and continues with the command after the group when exactly M replies to it have arrived, not before, and only once. "
  "Replies that match no pending forward - unknown identifiers, surplus or late ones - are dropped without effect on any request.",
  ["schedules", "histories", "inputs"], "all numbers of targets and required acknowledgements up to the bound, all reply orders, duplicates and foreign identifiers",
  "Tests use two targets and a single order.", ["dw_node.c"], [("forward bookkeeping", "src/dw_node.c")], ["messages sent to targets and client"])

p("C16", "An unanswered forward is retried as configured, then reported as failed",
  "A forward with a timeout whose reply does not arrive is re-sent exactly the configured number of times, each time after the full timeout; after the last one the forward group is skipped and the request goes on, and its reply then carries an error status. "
  "A forward answered in time produces no retry and a success status, and a reply arriving between retries ends them.",
  ["fault_sequences", "inputs", "schedules"], "all retry counts up to the bound, reply arriving after any attempt or never, any request identifier, refused and silent targets",
  "The only timeout test is excluded as unstable; retry counts and status are not asserted.", ["dw_node.c"], [("timeout handler", "src/dw_node.c")], ["messages sent to the target", "status of the reply"])

p("C17", "No bytes a peer can send make a node crash, hang or corrupt memory",
  "Whatever bytes a peer sends - any announced size, any command codes, missing end marker, any identifiers, truncated or oversized options - the node process survives, accesses only its own buffers and goes on serving the other connections. "
  "The offending connection may be closed.",
  ["inputs"], "all byte strings up to the bound on a connection, followed by a well-formed request on another one",
  "Tests only send what the client program generates.", ["dw_node.c", "connection.c", "message.c"], [("message validation", "src/connection.c")], ["memory safety", "reply on the other connection"])

p("C18", "Losing a peer at any point harms nothing but that peer's requests",
  "If a client disconnects or a send fails at any point of a request's life - while it computes, waits for storage or for a forward, or has unsent output - the node releases that connection and its requests exactly once, ignores later storage or forward completions for them, and serves other connections correctly, including a new connection reusing the slot. "
  "A refused or lost forward target does not harm other requests.",
  ["fault_sequences", "schedules"], "disconnection or send error before or after each step of a two-connection scenario",
  "Tests close connections only after the last reply.", ["dw_node.c", "connection.c", "request.c"], [("connection teardown", "src/dw_node.c")], ["replies on other connections", "sockets closed", "memory safety"])

p("C19", "A store writes exactly its bytes at the right place and is durable when asked",
  "A store of n bytes writes exactly n bytes: at the given offset, or for the sequential offset right after the previous storage operation, restarting at 0 when it would pass the maximum storage size. With direct I/O, offset and length are rounded up to the block size and nothing else changes. "
  "When the request asks for synchronisation and no periodic sync is configured, the data is flushed before the store is acknowledged.",
  ["inputs", "histories", "configurations", "fault_sequences"], "all offsets (64-bit), sizes, partial writes, sequences of operations up to the bound, with and without direct I/O",
  "Load/store tests are skipped in the suite; offsets above 4 GiB and partial writes never occur.", ["dw_node.c"], [("store operation", "src/dw_node.c")], ["writes, seeks and flushes on the storage file"])

p("C20", "A load reads exactly its bytes from the right place and always ends",
  "A load of n bytes reads exactly n bytes: at the given offset, or for the sequential offset right after the previous storage operation, restarting at 0 when it would pass the end of the stored data; reaching the end of the file continues at its beginning. "
  "A load always terminates, even on an empty file, and never writes to the file or outside its buffer.",
  ["inputs", "histories", "fault_sequences"], "all offsets and sizes, all short-read patterns and file sizes up to the bound",
  "Load/store tests are skipped in the suite.", ["dw_node.c"], [("load operation", "src/dw_node.c")], ["reads and seeks on the storage file"])

p("C21", "Each storage request is acknowledged once, to its worker, after its effect",
  "The storage thread executes the requests it receives in order and acknowledges each exactly once to the worker that issued it, with the issuing request's identifier, after the operation is done. Under periodic synchronisation a store that asked for it is acknowledged only after the next flush, and no load or unsynchronised store is delayed by it. "
  "Pending acknowledgements are all released at a flush.",
  ["schedules", "inputs", "configurations"], "all sequences up to the bound of store/load requests from several workers and timer ticks, with and without periodic sync",
  "Tests with storage are skipped; periodic sync is never tested.", ["dw_node.c"], [("storage thread", "src/dw_node.c")], ["order of writes, flushes and acknowledgements"])

p("C22", "Addresses are parsed into the protocol, host and port they spell",
  "Every address of the documented forms [tcp|udp:[//]][host][:port] yields exactly the spelled protocol, host and port, with the documented defaults for omitted parts; two adjacent colons are refused. A non-numeric port is rejected, and the argument text given to host/port parsing is left unchanged.",
  ["inputs", "configurations"], "all documented forms, all port digits, all host characters up to the bound",
  "Tests bind a few literal addresses.", ["address_utils.c"], [("address parser", "src/address_utils.c")], ["resolved host, port, protocol"])

p("C23", "The CPU affinity list selects exactly the listed cores, cycled in order",
  "A core list of numbers, ranges and stepped ranges selects exactly the listed cores (ranges in either direction, each step only for its own range), and a core outside the machine is rejected. "
  "Threads are assigned to the selected cores in increasing order, wrapping around.",
  ["inputs", "configurations"], "all lists of up to three tokens over the core numbers, steps and machine sizes up to the bound",
  "Tests check three lists through log lines.", ["thread_affinity.c", "dw_node.c"], [("list parser and iterator", "src/thread_affinity.c")], ["selected cores", "pinned cores"])

p("C24", "Client options build the request template the user described",
  "The command options given to the client become template commands in the order given, with the values given; every forward group is closed by exactly one reply and the request ends with the final reply, with the reply sizes and acknowledgement counts the user specified or the defaults. "
  "Explicit replies attach to the innermost open forward, else to the final reply, and the number of acknowledgements never exceeds the number of targets.",
  ["programs", "inputs"], "all option sequences up to the bound with symbolic values",
  "Tests run a few command lines and grep the log.", ["dw_client.c", "ccmd.c"], [("option parser", "src/dw_client.c")], ["request bytes sent by the client"])

p("C25", "The client sends exactly the requested packets, paced and numbered",
  "Each client session sends its configured number of requests with consecutive identifiers, each announcing the configured packet size (never smaller than the encoded commands need), and the k-th not earlier than k periods after the session started sending. "
  "All sessions together send the configured total, rounded up to a multiple of their number, and a session starts only after the previous one ended.",
  ["configurations", "inputs"], "all packet counts, session counts and periods up to the bound, all clock readings",
  "Tests count log lines for a few values.", ["dw_client.c"], [("sender thread", "src/dw_client.c")], ["bytes sent", "sleep deadlines"])

p("C26", "Each reported response time belongs to its own request",
  "For every request whose successful reply arrived, the client reports the time between sending that very request and receiving its reply, under its identifier, thread and session; replies may arrive in any order and fragmentation. "
  "Failed or missing replies are reported as no elapsed time and never disturb the report of other requests; a lost connection ends only its session.",
  ["schedules", "inputs", "fault_sequences"], "all reply orders, error statuses, losses and clock readings up to the bound",
  "Tests only see in-order replies on loopback.", ["dw_client.c", "connection.c"], [("receiver thread", "src/dw_client.c")], ["printed report"])

p("C27", "The statistics count exactly the open connections and pending requests",
  "Whenever statistics are requested, the reported number of active connections is the number of currently established TCP connections of the node and the reported number of active requests is the number of requests received and not yet completed or abandoned, whatever connects, disconnects, partial sends, errors and timeouts happened before.",
  ["histories", "fault_sequences"], "all event sequences up to the bound, statistics requested at the end",
  "The statistics test is skipped in the suite.", ["dw_node.c"], [("counters", "src/dw_node.c")], ["printed statistics"])

p("C28", "Every accepted connection is served by exactly one worker in each accept mode",
  "Each accepted connection is watched by exactly one worker: the accepting one in the child and shared modes, and the next one in strict rotation in the parent mode. In every mode each worker that must accept connections watches a listening socket bound to the configured address, the others watch none, and all requests on a connection are answered by its worker.",
  ["configurations", "schedules"], "all accept modes, all worker counts and numbers of connections up to the bound",
  "The parent-mode test is excluded as unstable; rotation is not asserted.", ["dw_node.c"], [("listen socket setup and dispatch", "src/dw_node.c")], ["epoll registrations", "sockets bound"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for r in P:
        f.write(json.dumps(r) + "\n")
print(len(P), "properties")
