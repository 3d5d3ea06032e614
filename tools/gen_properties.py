#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the wording is easy to review)."""
import json, os
P = []
L = "ipmb/src/lib.rs"; B = "ipmb/src/bus_controller.rs"; X = "ipmb/src/platform/linux.rs"
M = "ipmb/src/platform/linux/encoded_message.rs"; I = "ipmb/src/platform/linux/io_mul.rs"
F = "ipmb/src/platform/linux/fd.rs"; R = "ipmb/src/platform/mod.rs"; G = "ipmb/src/memory_registry.rs"
LB = "ipmb/src/label.rs"; MS = "ipmb/src/message.rs"
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=list(observe), hook_needed=hook)))
NOTE = "The repository's tests only exercise label algebra on single values; none of them joins a bus, so no schedule, crash or fault of this behaviour is ever run."

p("C01", "A unicast message is consumed by exactly one matching endpoint",
  "In every execution, whatever crashes, a unicast message is returned by receive calls at most once, summed over all endpoints. "
  "If some endpoint whose label satisfies the selector joined before the send was called, no endpoint or controller fails or leaves, and every endpoint keeps receiving, then exactly one matching endpoint receives it; the sender itself and the endpoint hosting the controller count as ordinary candidates.",
  ["schedules", "histories", "crash_points", "configurations"], "every interleaving of joins, sends and receives of up to 7 endpoints in up to 6 processes, with and without crashes of any of them",
  NOTE, [B, L, X], [("first matching endpoint consumes, then routing stops", B + " handle_message"), ("controller's own endpoint only if not routed", B + " handle_message")],
  [("endpoints", "registered endpoints in registration order", B)], ["EndpointReceiver::recv results", "EndpointSender::send results"])
p("C02", "A multicast message reaches every matching endpoint exactly once",
  "In every execution no endpoint receives the same multicast message twice. "
  "If no endpoint or controller fails or leaves and all endpoints keep receiving, every endpoint whose label satisfies the selector and whose join returned before the send was called receives it exactly once, including the sender and the endpoint hosting the controller when they match.",
  ["schedules", "histories", "crash_points", "configurations"], "every interleaving of joins, multicasts and receives over many bus topologies, buffer sizes and controller placements",
  NOTE, [B, L, X], [("loop over all registered endpoints, then the local one", B + " handle_message"), ("duplicate registration guard", B + " endpoint_connect")],
  [("endpoints", "registered endpoints", B)], ["EndpointReceiver::recv results"])
p("C03", "Messages are delivered only to endpoints the selector selects",
  "A message is returned by receive only at an endpoint whose label satisfies the message's label expression (element test combined with AND, OR, NOT, true, false), in every execution including joins, departures, failover and buffered redelivery. "
  "A message whose payload type an endpoint does not accept is never returned to it as a message or as an error and does not disturb later messages.",
  ["schedules", "inputs", "histories"], "random label sets and nested label expressions, mixed payload types, routed under random schedules, TTL redelivery and controller changes",
  "The unit tests evaluate single operators on fixed labels; which endpoint's label is consulted at routing time depends on registration history, failover and buffering, which they never run.", [B, L, LB, MS],
  [("LabelOp::validate at the controller and again at the receiver", B + " handle_message; " + L + " recv"), ("type uuid dispatch", MS + " MessageBox::decode")], (), ["EndpointReceiver::recv results"])
p("C04", "Messages of one sending thread arrive in the order they were sent",
  "For any sending thread and any receiving endpoint, the messages that endpoint receives from that thread are in the order the thread's sends returned, whatever the mix of unicast, multicast, buffered (TTL) and attachment-carrying messages, and whether or not sender, receiver or both share a process with the controller. "
  "This also holds for the messages that survive a controller crash and rejoin.",
  ["schedules", "histories", "crash_points"], "every interleaving of several sending threads, the controller and receivers, small socket buffers, failover",
  NOTE, [B, L, X, M], [("one FIFO socket or channel per sender, single controller thread, one FIFO socket per receiver", B + " run; " + X + " IoHub::recv"), ("buffered messages flushed in order as soon as an endpoint connects", B + " run")],
  [("message_buffer", "unroutable messages waiting for an endpoint", B)], ["EndpointReceiver::recv results"])
p("C05", "Payload and attachments arrive exactly as sent",
  "A received message carries the payload of one sent message unchanged and exactly its attachments: the same kernel objects in the same order, and memory regions in the same order with the same size and contents, shared with (not copied from) the sender. "
  "This holds for every payload size the transport accepts, for any number of attachments the operating system allows in one message (up to 253 on Linux), for both routing modes and after the sender has exited or dropped its handles.",
  ["inputs", "schedules", "crash_points"], "payload sizes 0..128 KiB, 0..253 objects and regions, unicast and multicast, through every routing path, under random schedules",
  NOTE, [X, M, R, L], [("length-prefixed aligned layout", X + " encode_inner; " + M + " from_local"), ("SCM_RIGHTS control message, regions taken from its tail", M)],
  [], ["Message.payload, objects, memory_regions"])
p("C06", "After the controller dies the surviving endpoints re-form one bus",
  "When the process hosting the controller dies at any point, and at least one surviving endpoint has controller affinity and all survivors keep receiving or sending, then within 30 seconds after the last failure all survivors are again on one single bus: a message sent by any of them reaches every matching survivor exactly once. "
  "The survivors' pending and later send and receive calls do not fail or hang because of it, and repeated controller deaths are survived the same way.",
  ["crash_points", "schedules", "fault_sequences"], "kill -9 at any system call or atomic step of the controller process (fds closed one by one), repeated, with restarts and new joins racing the election",
  "examples/rejoin.rs and reliability.rs need a person and real processes; they kill nothing at a chosen point and no test runs them.", [L, B, X],
  [("EOF/EPIPE on the bus socket triggers rejoin with epoch check", L + " send, recv"), ("abstract-name bind elects the controller", X + " register")],
  [("epoch", "generation of the endpoint's connection", L)], ["send/recv results after the crash", "probe messages"])
p("C07", "An endpoint with the wrong token never gets onto the bus",
  "A join whose token differs from the controller's is refused with a token-mismatch error in bounded time, in every schedule and also when the join is the automatic rejoin after a controller failure (reported by that send or receive call). "
  "A refused endpoint never receives any message of the bus, and its presence never prevents endpoints with the right token from joining and communicating.",
  ["schedules", "inputs", "histories", "crash_points"], "arbitrary token pairs (empty, prefixes, case variants, non-ASCII), racing joins, failover to a controller with another token",
  NOTE, [B, L, X, "ipmb/src/errors.rs"], [("token compared in connect handling, negative acknowledgement", B + " endpoint_connect"), ("error mapping", L + " Rule::join; ipmb/src/errors.rs")], [], ["join/send/recv results"])
p("C08", "Incompatible versions are refused and told which version the bus has",
  "A join by a peer whose library version is incompatible with the controller's (different major, or different minor while major is 0) fails with a version-mismatch error carrying the controller's version, within one handshake, in every schedule and also on rejoin after failover. "
  "Such a peer never receives or injects a message and never disturbs the endpoints already on the bus, while peers differing only in patch version interoperate fully.",
  ["configurations", "schedules", "histories"], "builds of the real crate at versions 0.8.5, 0.8.9, 0.9.0 and 1.0.0 mixed on one bus in all roles",
  "A test binary contains exactly one version of the crate; mixed-version buses are never run.", [B, L, M, X],
  [("version word at the head of every datagram", M + " from_local"), ("version in the connect message", B + " endpoint_connect"), ("compatibility rule", L + " Version::compatible")], [], ["join/send/recv results"])
p("C09", "Buses with different identifiers never mix",
  "Endpoints communicate only with endpoints that joined under the same identifier, even when several buses run side by side in the same processes, with the same labels and tokens, with identifiers that are prefixes of each other, and across controller crashes and rejoins. "
  "A message sent on one bus is never received on another; an identifier the transport cannot represent is refused, not shared. The failure of one bus's controller does not disturb another bus hosted elsewhere.",
  ["configurations", "schedules", "crash_points"], "2-3 buses with near-identical identifiers (also ones too long for a socket address) sharing processes, random traffic and controller crashes",
  NOTE, [X, L], [("identifier mapped to an abstract socket address", X + " identifier_to_socket_addr")], [], ["recv results per bus"])
p("C10", "A message with a TTL waits for an endpoint until, and only until, it expires",
  "A message with a TTL that no joined endpoint can take is delivered to a matching endpoint that completes its join before the TTL has run out: unicast once, multicast to the endpoints that join first. "
  "It is never delivered to an endpoint that joins after the TTL has run out, and a message without TTL is never delivered to an endpoint that joins after the message was already dropped.",
  ["schedules", "histories", "inputs"], "virtual-time placement of joins around the expiry instant, several buffered messages, idle or busy controller, endpoints that vanish while messages wait",
  NOTE, [B], [("message_buffer with expiry instants, flushed on connect, pruned by maintain", B + " run, maintain")],
  [("message_buffer", "messages waiting for a matching endpoint with their expiry", B)], ["recv results with virtual timestamps"])
p("C11", "Timeouts of receive and join are honoured",
  "A receive with timeout t returns a timeout error only after at least t (to the millisecond) has passed without a deliverable message and, on a live bus, no later than t plus scheduling delay even while messages it cannot decode keep arriving (t plus one handshake, 2 seconds, if the bus is lost and nobody hosts it again); a receive without timeout never reports a timeout. "
  "A join with timeout t that cannot succeed reports it no earlier than t and within t plus one handshake (2 seconds); every representable duration is accepted.",
  ["schedules", "inputs", "fault_sequences"], "timeouts from 0 to Duration::MAX in both roles (controller-hosting or not), background traffic of foreign types, interrupted waits, missing or stalled controllers",
  NOTE, [L, X, I], [("deadline handling in recv, Rule::join and IoHub::recv", L + "; " + X), ("epoll_wait / recv_timeout", I + " wait")], [], ["virtual time at call and return"])
p("C12", "A region's reference count equals its live references",
  "At any quiescent moment the reference count reported for a memory region equals the number of live region handles to it in all processes plus one for each copy inside an undelivered message, for every interleaving of clones, sends, receives, drops and failed or unroutable sends. "
  "Without crashes it returns to 1 when only one handle is left; a crash may leave it too high but never too low.",
  ["schedules", "histories", "crash_points"], "regions sent by unicast, multicast, to nobody, to endpoints that leave, buffered with TTL; kills between any two steps",
  NOTE, [R, M, B], [("shared atomic counter in the region header", R + " ref_count_inner"), ("increment per datagram before sendmsg, decrement on failure and on receipt", M + " send, from_local")],
  [("region header", "count shared by all processes", R)], ["MemoryRegion::ref_count"])
p("C13", "The registry never hands out a region that is still in use, and frees on time",
  "A region returned by a registry's alloc is not referenced by any other handle in any process nor by any message in flight, is at least as large as requested (a size no system can hold yields none) and was allocated under the same tag if reused; so data a receiver is still reading is never overwritten. "
  "A free callback runs exactly once and, while the registry lives, only when no handle to its region exists outside the registry.",
  ["schedules", "histories", "crash_points"], "random alloc/send/hold/drop/maintain histories over several processes and many seconds of virtual time, including kills of holders",
  NOTE, [G, R, M], [("reuse only at reference count 1 and equal tag", G + " alloc_inner"), ("5 s retention and free callbacks in maintain_inner", G)],
  [("inner", "retained regions by size", G)], ["alloc results, free callbacks, region contents"])
p("C14", "The loss of an endpoint does not disturb the others",
  "When an ordinary endpoint's process dies at any point (mid-join, mid-send, mid-receive, with queued messages) or it drops its halves, all other endpoints keep communicating: messages among them sent before, during and after are delivered as if the lost endpoint had never matched. "
  "A unicast sent after the loss for which a live matching endpoint exists is received by one, and a replacement endpoint with the same label can join at once.",
  ["crash_points", "schedules", "histories"], "kill at any step of any non-controller process, drops of receivers and senders, immediate restarts, all under traffic",
  NOTE, [B, X, L], [("send failure prunes the endpoint and routing continues", B + " handle_message"), ("EOF on an accepted socket drops it", X + " IoHub::recv")],
  [("endpoints", "registered endpoints", B)], ["recv results of survivors"])
p("C15", "Sends and drops always make progress while receivers drain",
  "As long as every endpoint that has a receiver keeps receiving, every send call returns, however small the socket buffers and however many endpoints send at once. "
  "Dropping a receiver that was not being drained always completes and releases whatever was waiting for it, so the rest of the bus proceeds.",
  ["schedules", "histories", "configurations"], "bursts larger than all buffers from several threads, slow and stalled receivers, receivers dropped while their own sender is blocked",
  "examples/reliability.rs tries one such load once, by hand, with the real scheduler.", [L, B, M, F],
  [("blocking sendmsg per endpoint guarded by locks", M + " send; " + F + " Remote::lock"), ("closing the receive socket unblocks the controller", L + " reader_close")], [], ["completion of send/drop in virtual time"])
p("C16", "Descriptors are neither leaked nor closed twice",
  "After any history of joins, leaves, refused joins, messages with and without attachments (delivered, unroutable, refused or undecodable) and once all handles are dropped, every process holds only the descriptors that its live endpoints need: departed endpoints' descriptors are released at the latest when traffic is handled 30 seconds later. "
  "No execution ever closes a descriptor it does not own, and received objects are owned exactly once by the receiver.",
  ["schedules", "histories", "fault_sequences"], "long random churn histories with descriptor accounting in every process",
  NOTE, [M, F, X, B, L], [("OwnedFd everywhere", F), ("dead-endpoint detection every 30 s", B + " detect_reachable; " + F + " is_dead")], [("local_list", "accepted sockets", X), ("endpoints", "reply sockets", B)], ["descriptor table of each process"])
p("C17", "Child processes spawned by an endpoint cannot keep a dead bus alive",
  "If a process on the bus starts child processes (fork and exec) at any moment, the children inherit none of the bus's descriptors. "
  "So when that process later dies, its bus connections are closed at once, and the other endpoints notice, fail over and communicate exactly as if it had had no children.",
  ["schedules", "crash_points", "fault_sequences"], "exec of children at any point of any process, followed by death of the parent while children live on",
  NOTE, [X, M, I, F], [("close-on-exec on every descriptor", X + "; " + M + "; " + I)], [], ["descriptor tables of children; probes after failover"])
p("C18", "Signals do not lose messages or connections",
  "A signal that interrupts any blocking call made on behalf of join, send, receive or the controller is invisible: no call fails or times out early because of it, no endpoint is disconnected, and no message is lost or duplicated.",
  ["fault_sequences", "schedules"], "EINTR injected at any blocking system call of any thread, under full-buffer backpressure and idle waits",
  NOTE, [M, I, X], [("retry on EINTR", M + " send, from_local; " + I + " wait")], [], ["send/recv/join results"])
p("C19", "Failing system calls are survived",
  "A transient failure of a system call (descriptor or memory exhaustion, no buffer space) during join, send, receive, accept or region handling is reported as an error or retried; it never crashes a process or the controller, and never wedges the bus. "
  "Once the failures stop, joins succeed and messages flow among all endpoints again within 30 seconds, and no message is ever duplicated or corrupted meanwhile (messages may be lost or overtaken while calls fail).",
  ["fault_sequences", "schedules"], "transient EMFILE, ENOMEM, ENOBUFS failures at each call site that has an error path, on any process",
  NOTE, [X, M, R, L, I], [("error paths of look_up/register/recv/send", X + "; " + M + "; " + L)], [], ["process survival, probes after the faults"])
p("C20", "Sender and receiver halves rejoin together, once",
  "When the bus is lost, an endpoint whose sending and receiving threads notice at the same time rejoins exactly once: it appears as one member of the new bus, and every matching message sent after its membership is re-established is delivered to it exactly once. "
  "A receiver that was dropped before stays closed after the rejoin, and a sender-only or receiver-only endpoint rejoins as well.",
  ["schedules", "crash_points", "histories"], "controller deaths while several sending threads and the receiving thread of each endpoint are mid-call, in every order of detection",
  NOTE, [L], [("epoch comparison under the write lock", L + " send, recv"), ("reader_closed carried over", L)], [("epoch", "connection generation", L), ("reader_closed", "receiver was dropped", L)], ["recv results", "descriptor table: one receive connection per endpoint"])
p("C21", "The C interface behaves like the Rust interface",
  "Endpoints using the C functions (join, send, recv, message, object, region and registry calls) interoperate with Rust endpoints with identical delivery, ordering, timeout and error semantics, each error reported by its documented code. "
  "Handles are consumed or retained exactly as documented (append, retrieve and send consume, get and map do not), so no schedule or failure leads to a double free, leak or dangling region.",
  ["schedules", "histories", "fault_sequences"], "random C-API call sequences (strings without NUL) as members of simulated buses, with failover and refused joins",
  "No test calls the C interface.", ["ipmb-ffi/src/lib.rs"], [("opaque_type! ownership conversions and error mapping", "ipmb-ffi/src/lib.rs")], [], ["return codes, received bytes, reference counts, descriptors"])
p("C22", "The Node.js receiver settles every promise once and in order",
  "In the Node.js binding every promise returned by recv is settled exactly once: messages resolve pending promises in call order, each received message goes to exactly one promise in arrival order, and a promise with a timeout is rejected with 'timeout' not before it and within about one polling interval (200 ms) after it, however busy the bus is. "
  "close returns within one polling interval and rejects all pending promises with 'closed', later recv calls fail, a second close is harmless, the receiving thread ends and nothing it held is leaked; the end of the JavaScript environment does the same. When the bus refuses the endpoint after a takeover, the promise in front is rejected with that reason and the receiver is closed. A closed receiver does not keep the process alive. "
  "Messages sent and received through the binding obey the delivery, order, TTL and attachment guarantees of the Rust interface.",
  ["schedules", "histories"], "every interleaving of the receiving thread, the JavaScript loop's callbacks, recv and close calls, with failing buses",
  "No test loads the binding.", ["ipmb-js/src/lib.rs"], [("LocalBuffer of messages or deferreds, drained by a threadsafe function", "ipmb-js/src/lib.rs delegate_receiver"), ("rendezvous close handshake", "ipmb-js/src/lib.rs Receiver::close, join")],
  [("LocalBuffer", "undelivered messages or unsettled promises", "ipmb-js/src/lib.rs")], ["promise settlement log"])
p("C23", "Garbage from a foreign peer cannot bring the bus down",
  "Whatever bytes and descriptors a process writes into the bus's socket (truncated, oversized-length, bit-flipped or random datagrams, valid messages with wrong attachment counts, immediate disconnects), neither the controller nor any endpoint crashes or hangs. "
  "The other endpoints' messages keep being delivered exactly as if that process did not exist, and its descriptors are released.",
  ["inputs", "schedules", "fault_sequences"], "random and mutated datagrams from a raw client interleaved at any point with normal traffic; attached descriptors are regular files, memory files, sockets, pipes and event descriptors whose use cannot block",
  NOTE, [M, X, B, MS], [("bounds checks while parsing", M + " from_local")], [], ["survival and delivery among regular endpoints"])
p("C24", "Concurrent first joins form exactly one bus",
  "However many processes and threads call join on an unused identifier at the same time, and whichever of them crash half-way, all joins that can succeed do succeed and end up on one bus with exactly one controller: every endpoint's messages reach every other matching endpoint. "
  "Endpoints without controller affinity never become the controller and join as soon as one exists.",
  ["schedules", "crash_points"], "up to 8 simultaneous joiners, kills between bind, listen and the first accept, delayed threads",
  NOTE, [X, L], [("bind on an abstract name is atomic; IdentifierInUse loops back to look_up", L + " Rule::join; " + X + " register")], [], ["join results, probe messages"])
p("C25", "Dropping and rejoining in one process works in any order",
  "A process may join, drop either or both halves, and join again any number of times on the same identifier, including when its earlier endpoint hosts the controller; the controller it started keeps serving the bus until the process dies. "
  "An endpoint whose receiver was dropped receives nothing more and its messages go to other matching endpoints, while its sender keeps working.",
  ["schedules", "histories"], "random sequences of join/drop/rejoin in several processes under traffic",
  "examples/rejoin.rs shows one such sequence and is never run.", [L, B, X], [("controller thread outlives its endpoint", B + " run"), ("reader_close", L)], [], ["recv results"])
# properties no schedule, clock or fault bears on
p("C30", "Label expressions evaluate as boolean algebra",
  "For every label and label expression the match result equals evaluating the expression as boolean algebra with each leaf replaced by membership of its element in the label.",
  ["inputs"], "all labels and expressions", "Unit tests sample one value per operator.", [LB], [("LabelOp::validate", LB)], [], ["LabelOp::validate"])
p("C26", "A message that cannot be carried harms nobody else",
  "A message that is too large for the transport (its payload, or more attachments than the kernel passes at once) is either refused with an I/O error to its sender or silently not delivered; it is never delivered altered, in part or twice, and a send that returned an error delivers nothing. "
  "Either way nobody is disconnected or blocked: every other message, sent before, during or after by anyone, keeps its delivery guarantees, and whatever the message carried is released by the sender, the controller and every process it passed through.",
  ["inputs", "schedules", "histories", "crash_points"], "payloads and attachment counts on both sides of every limit, sent by clients and by the controller's process, unicast, multicast and buffered, mixed with ordinary traffic, small buffers, crashes of any process",
  NOTE, [M, B, L], [("classification of sendmsg errors", M + " send"), ("an endpoint stays registered unless it is disconnected", B + " handle_message"), ("SendError::IoError", L + " send")], [], ["EndpointSender::send results", "EndpointReceiver::recv results", "open descriptors"])
p("C31", "Mapping a region yields exactly the requested window",
  "Mapping any range within a region yields a view of exactly that range, in the process that created the region and in every process it was sent to; views of the same bytes alias: what one process writes every other reads, until the last view is gone and whoever dies. "
  "A mapping that the system refuses is reported as an error, leaves the handle and all other views intact, and the next attempt may succeed. A range that is not within the region is refused in the same way, and a region whose size the system cannot hold is not created; nothing panics. The size a handle reports is the requested one.",
  ["inputs", "schedules", "fault_sequences", "crash_points"], "random ranges around page boundaries, every form of range, regions of 0 bytes to 5 GiB shared by 1-3 processes that map, write, clone, drop and die while mmap and descriptor duplication fail at random", "No test maps a region.", [R, "ipmb/src/util/mod.rs"], [("range_to_offset_size, page truncation", R)], [], ["MemoryRegion::map"])
p("C32", "The macOS and Windows backends give the same guarantees",
  "All of the above holds for the macOS (Mach port) and Windows (named pipe) transports.",
  ["configurations", "schedules", "fault_sequences"], "both platforms", "The tests do not run there.", ["ipmb/src/platform/macos/mod.rs", "ipmb/src/platform/windows/mod.rs"], [("platform modules", "ipmb/src/platform")], [], [])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for r in P: f.write(json.dumps(r) + "\n")
print(len(P), "properties;", "max title", max(len(r["title"]) for r in P))
