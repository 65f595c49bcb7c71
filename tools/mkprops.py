#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=list(observe), hook_needed=hook)))

prop("C01", "ARQ link delivers messages exactly once, unmodified and in order",
 "Over a channel that may lose, repeat or delay whole frames but keeps their order, the messages an ARQ endpoint hands to its upper layer are exactly the messages the peer's upper layer sent, each once, in sending order, without gaps and with unchanged content. This holds for messages sent in pieces, sent from within a receive callback, longer than any sequence-number cycle, and in both directions at once. When an endpoint is reset, only the messages it had queued itself may be dropped and only the one message its peer had under way may be delivered a second time.",
 ["schedules", "histories", "fault_sequences"],
 "All interleavings of sends, frame deliveries, losses, duplications, (bounded) delays, retransmission triggers and endpoint resets, for message counts that wrap the 6-bit sequence number.",
 "The unit tests exchange a handful of frames with at most one loss per test; the property is about every loss/duplication/reset schedule, including sequence-number wrap.",
 ["src/protocol.cpp", "include/libstored/protocol.h"],
 [("sequence numbers, ACK bit, NOP flag, encode queue and retransmit", "ArqLayer::decode/encode/transmit in src/protocol.cpp"), ("reset handshake", "ArqLayer::reset, decodes of sequence 0")],
 [("encode queue", "unacknowledged messages, in order", "ArqLayer::m_encodeQueue"), ("send/receive sequence", "next sequence to send / expected", "ArqLayer::m_sendSeq, m_recvSeq")],
 ["upper layer decode()", "lower layer encode()"])

prop("C02", "ARQ link always recovers: sent data is eventually delivered",
 "Whatever frames were lost, repeated or delayed before, and whichever endpoint was reset, once frames get through again and the endpoints are triggered to retransmit, every message that is still queued is delivered and acknowledged, the send queue drains and the link becomes idle without endless frames. A reset or a restarted peer always leads to a re-established connection that is reported to both upper layers, and a dead link is reported by the retransmission count and event. (While a connection is being established, endpoints are assumed to retransmit only when no frame is in flight.)",
 ["schedules", "fault_sequences", "histories"],
 "All fault prefixes (loss, duplication, delay, resets of either side) followed by a fair, loss-free suffix.",
 "Liveness after an arbitrary fault prefix; tests only check a few hand-written prefixes.",
 ["src/protocol.cpp", "include/libstored/protocol.h"],
 [("retransmission of the head of the queue on flush/keep-alive/new data", "ArqLayer::flush, transmit"), ("reset frames and connected() events", "ArqLayer::decode, connected, event")],
 [], ["ArqLayer::didTransmit/waitingForAck/retransmits", "upper layer decode()/connected()"])

prop("C03", "Debug ARQ: every request is executed once and answered correctly",
 "When a debug client retransmits its (possibly multi-frame) request because request or response frames got lost, delayed or duplicated, the server side executes the request exactly once and answers every complete retransmission with exactly the same response frames again, unless that response was declared purgeable or did not fit the retransmission buffer, in which case the request is executed again and the new response starts with the reset flag and a new sequence number. A response to an old request is never delivered as the answer to a new one (for purgeable responses: as long as retransmissions are not sent while frames are in flight), fragments of different messages are never mixed, the client's next request is always accepted, and a client that starts over with the reset sequence number is always acknowledged and served.",
 ["schedules", "fault_sequences", "inputs"],
 "All loss/duplication schedules of request and response frames, message sizes over any number of frames, sequence numbers through the one-, two- and three-byte encodings and the wrap, purgeable and normal responses.",
 "Tests cover a few fixed frame exchanges; the property ranges over all schedules and sequence numbers up to 2^27.",
 ["src/protocol.cpp", "include/libstored/protocol.h", "sphinx/doc/cpp_protocol.rst", "tests/DebugArqLayer.pml"],
 [("sequence comparison, response buffer and retransmit", "DebugArqLayer::decode/encode in src/protocol.cpp")],
 [("decode/encode sequence windows", "begin and end of the last request/response", "DebugArqLayer::m_decodeSeqStart, m_decodeSeq, m_encodeSeqReset...")],
 ["upper layer decode()", "lower layer encode()"])

prop("C04", "Framing layers are transparent for every message and every chunking",
 "A message that is sent through escaping, segmentation, buffering, terminal framing and checksum layers, with any payload bytes, any split into partial writes, any maximum transmission unit and any chunking of the byte stream on the receiving side, is delivered by the matching layers exactly as it was sent, with the message boundaries preserved. Every frame passed down respects the maximum transmission unit of the layer below, and escaped data never contains the bytes that are reserved by the layer below.",
 ["inputs", "configurations", "schedules"],
 "All payloads, write splits, MTUs, receive chunkings and compositions of AsciiEscapeLayer, TerminalLayer, SegmentationLayer, BufferLayer, Crc8Layer, Crc16Layer, PrintLayer, CallbackLayer, IdleCheckLayer and loopbacks.",
 "Tests exercise fixed strings on single layers; combinations of chunking, MTU and payload are unbounded.",
 ["src/protocol.cpp", "include/libstored/protocol.h", "sphinx/doc/cpp_protocol.rst"],
 [("escape/unescape", "AsciiEscapeLayer::encode/decode"), ("segment end markers", "SegmentationLayer::encode/decode"), ("frame detection", "TerminalLayer::decode"), ("collecting partial messages", "BufferLayer::encode")],
 [], ["ProtocolLayer::encode/decode at both ends of the stack"])

prop("C05", "Corrupted frames are never delivered and do not block later frames",
 "A frame protected by a checksum layer that was changed on its way within the error class the checksum guarantees to detect (any burst no longer than the checksum, in any frame up to the layer's MTU), or that is too short to hold its checksum, is dropped without anything being passed to the upper layer. A frame that arrives unchanged is always delivered with exactly the payload that was sent, regardless of what was received or sent before.",
 ["inputs", "fault_sequences"],
 "All payloads and partial-write splits, all burst errors up to the checksum width at every position, truncations, and any sequence of good and bad frames in both directions.",
 "Tests check one or two corrupted examples; the guarantee is over all burst errors and all histories of the layer.",
 ["src/protocol.cpp", "include/libstored/protocol.h"],
 [("CRC computation and comparison", "Crc8Layer/Crc16Layer encode/decode")],
 [], ["upper layer decode() of the CRC layers"])

prop("C06", "Synchronized stores converge to the same content",
 "When stores of the same type on different nodes are connected in any tree of synchronization links and writing stops, then after all nodes have processed their connections and all messages are delivered, all stores hold identical content, and every object holds a value that was actually written to it by one of the nodes (or its initial value), where a sole writer's last value wins unless the full copy of a handshake done after the write replaced it. (Excluded, as documented: objects of which changes crossed each other in opposite directions on a link. Links keep the order of messages, and are reset when messages are lost.) This holds for every interleaving of writes, processing and deliveries, for connecting and disconnecting nodes at any moment, for reconnects after lost messages, and for any number of updates.",
 ["schedules", "histories", "configurations", "fault_sequences"],
 "All interleavings of writes, process() calls and in-order message deliveries, on tree topologies, for all object types and store sizes, and for connects/disconnects/restarts at any point.",
 "The tests synchronise two or three stores through immediate loopbacks in a few fixed orders.",
 ["src/synchronizer.cpp", "include/libstored/synchronizer.h", "sphinx/doc/cpp_synchronizer.rst"],
 [("journal of changes with sequence numbers", "StoreJournal::changed/encodeUpdates/decodeUpdates"), ("per-connection last-seen sequence", "SyncConnection::process/decode"), ("Hello/Welcome/Update/Bye handshake", "SyncConnection::decode")],
 [("journal", "last change sequence per object", "StoreJournal::m_changes"), ("connection state", "ids and sequence per store", "SyncConnection::m_store")],
 ["store buffers", "messages on the sync links"])

prop("C07", "Synchronization sends every change, and only changes, to the others",
 "Processing a connection sends an update for a store if and only if an object of that store changed since the last update or full copy exchanged over that connection, other than by data received over that very connection. The update contains all objects so changed with their current values and no object that was not written since, and a second processing without changes in between sends nothing. Writing the value an object already holds is not a change; a received update counts as a change for the other connections, and a received full copy counts as a change of exactly the objects that differ. (A connection that lags more than about 32 thousand generations of changes behind may be sent more objects than necessary, never less.)",
 ["histories", "inputs", "schedules"],
 "All sequences of writes (of equal and different values), received updates and process() calls, over journals that age through sequence-number windows and over any number of connections.",
 "Tests check that a change arrives, not that nothing else does, and not over long histories in which journal sequence numbers wrap or get cleaned up.",
 ["src/synchronizer.cpp", "include/libstored/synchronizer.h", "include/libstored/types.h"],
 [("per-object and subtree-highest sequence numbers", "StoreJournal::update/iterateChanged"), ("short sequence numbers and clean up", "StoreJournal::bumpSeq/clean"), ("change detection in setters", "Variable::set, Variant::set")],
 [], ["frames passed down by SyncConnection", "Synchronizer::process() result"])

prop("C08", "Malformed or foreign sync messages never damage stores or other links",
 "A byte sequence received on a synchronization connection either is a complete valid message for a store that is known and connected there, or it changes no store content at all before the connection is dropped or the message is ignored (of an update, the leading entries that are complete and valid may be applied); it never writes outside the addressed objects, never affects another store or another connection, and never crashes the program. After a rejected message, a new handshake on the same connection restores normal synchronization.",
 ["inputs", "histories", "fault_sequences"],
 "All byte strings (truncated, extended, wrong hash, unknown id, out-of-range key or length, wrong direction, any command byte) at any state of the connection.",
 "The fuzz target only looks for crashes in one two-store setup, and it is not a test that can state what the stores must still hold.",
 ["src/synchronizer.cpp", "include/libstored/synchronizer.h"],
 [("bounds checks on keys and lengths", "StoreJournal::decodeUpdates, keyToBuffer"), ("id and hash lookup", "SyncConnection::decode, Synchronizer::toJournal")],
 [], ["store buffers", "frames passed down"])

prop("C09", "Debugger answers each request with exactly one correct response",
 "For every request the debugger sends exactly one complete response, which is what the protocol documentation prescribes: the stored value for a read, an acknowledgement and the new value in the store for a write, the echoed text, the complete list of objects with their type and size, the capability set, the identification and version, the requested memory content. An unsupported, malformed or out-of-range request is answered with the error response and changes nothing in any store (a value for a string or blob that is longer than the object is cut off).",
 ["inputs", "histories", "configurations"],
 "All request byte strings, all object types, sizes and values, any number of mapped stores with or without renaming, any sequence of requests.",
 "Tests check selected commands with selected values; the request space and its histories are unbounded.",
 ["src/debugger.cpp", "include/libstored/debugger.h", "sphinx/doc/cpp_debugger.rst"],
 [("command dispatch", "Debugger::process/decode"), ("hex and binary value conversion", "Debugger::encodeHex/decodeHex, DebugVariantTyped::get/set"), ("store lookup", "Debugger::find/list")],
 [], ["Debugger::decode() with the response captured in the layer below"])

prop("C10", "Debugger aliases and macros behave as the commands they stand for",
 "An alias denotes the object it was last assigned to until it is reassigned or removed, and running a macro yields the same effects and the concatenation of the same responses as running its commands one after another, in order. Definitions are limited to the documented maxima, a rejected definition leaves all earlier aliases and macros usable as they were, and removing one affects no other; a macro that runs itself does not recurse without end.",
 ["histories", "inputs"],
 "All histories of alias and macro definitions, redefinitions, removals and uses, including nested macros, exhausted limits and every separator byte.",
 "Histories of definitions and uses up to the limits are not sampled by the few fixed tests.",
 ["src/debugger.cpp", "include/libstored/debugger.h", "sphinx/doc/cpp_debugger.rst"],
 [("alias map", "Debugger::aliases, find"), ("macro map and size accounting", "Debugger::macros, runMacro")],
 [("macro size", "total size of all definitions", "Debugger::m_macroSize")], ["debugger responses"])

prop("C11", "Debugger streams and traces return what was written, in order, once",
 "The data that is read from a debugger stream, after decompression where enabled, is the data that was written to it, in order and without duplication, where only the part of a write that does not fit the buffer (as reported by the write's return value) may be missing. Tracing executes its macro once per configured number of trace calls (unless the buffer is full) and appends exactly that macro's output as one piece, and stops, without affecting other streams, when it is disabled.",
 ["histories", "inputs"],
 "All interleavings of stream writes, reads with suffixes, flushes, trace configuration and trace calls, for compressed and uncompressed streams and all sizes around the buffer limit.",
 "Tests read back a few writes; ordering, overflow and decimation over arbitrary histories are not covered.",
 ["src/debugger.cpp", "include/libstored/debugger.h", "src/compress.cpp", "include/libstored/compress.h"],
 [("stream buffers and swap on read", "Stream::encode/buffer/swap/flush"), ("decimation and overflow check", "Debugger::trace"), ("heatshrink encoder/decoder", "CompressLayer")],
 [], ["'s' command responses", "Debugger::stream() return values"])

prop("C12", "Name lookup finds exactly the intended object",
 "Looking up an object by its full name returns that very object with its type, size and location, looking up an unambiguous abbreviation of a full name returns that same object, and looking up a name that no object has, or an ambiguous one, never returns a wrong object silently: an object is found only if the given name agrees with that object's full name in every character needed to tell it from the other objects. Listing a store enumerates every object exactly once under its full name, and lookups through the debugger with multiple stores resolve the store prefix in the same way.",
 ["inputs", "programs"],
 "All store definitions (any set of names the grammar accepts) and all lookup strings, including truncated and over-long ones.",
 "Tests use one fixed store; directory encoding is generated per store definition, so the property ranges over all store definitions.",
 ["src/directory.cpp", "include/libstored/directory.h", "python/libstored/generator/dsl/types.py"],
 [("compact directory search", "stored::impl::find"), ("directory generation and abbreviation", "Directory.generate/stripUnambig in types.py"), ("listing", "stored::list")],
 [], ["store.find(), store.list(), Debugger read/list"])

prop("C13", "A generated store matches its definition",
 "For every valid store definition, the generated store contains exactly the objects defined (after expansion of arrays and scopes), each with its defined type and size, aligned and in memory that overlaps no other object, with the initial value given in the definition or zero, and reading, writing and array accessors reach that very object. Writing any object changes no other object, and a generated description (documentation listings, hash, synchronisation keys) is consistent between independent generations of the same definition.",
 ["programs", "inputs"],
 "All store definitions accepted by the grammar (names without C++ comment delimiters or backslashes), all initial values, all objects.",
 "One test store is compiled; store definitions form an unbounded program space.",
 ["python/libstored/generator/dsl/types.py", "python/libstored/generator/dsl/grammar.tx", "python/libstored/generator/__main__.py", "include/libstored/store.h.tmpl", "src/store.cpp.tmpl"],
 [("buffer layout", "Buffer.generate"), ("initial values", "Variable.encode"), ("array expansion and accessors", "Store.expandArrays, ArrayLookup")],
 [], ["generated store accessors", "store.list()"])

prop("C14", "Store accesses are bracketed by hooks and changes are reported exactly",
 "Every read or write of a variable through any accessor (typed variable, variant, debugger, copy) calls the entry hook before and the matching exit hook after touching the data, never nested for an object, with the object's own type, address and a length that covers what is accessed, and transfers the value itself. The exit hook of a write reports a change, and the object's change callback runs, exactly when the stored bytes differ from before, and never for a read; functions get exactly one callback per access, with the requested direction and value. A synchronizer brackets every object it sends by the read-only hooks, and runs the change callback of exactly the objects it receives.",
 ["inputs", "histories"],
 "All accessor kinds, object types and value sequences, including strings of every length and content, floating-point special values and partial writes.",
 "Tests check hooks for some accessors with some values, not that changes are reported exactly for all.",
 ["include/libstored/types.h", "include/libstored/store.h.tmpl", "src/debugger.cpp", "src/synchronizer.cpp"],
 [("entry/exit calls around data access", "Variable<T,C,true>::get/set, Variant::get/set/copy"), ("default hooks", "store.h.tmpl __hookExitX/__hookChanged")],
 [], ["overridden hook functions of a store"])

prop("C15", "Bounded FIFOs return exactly the queued elements, in order",
 "Any sequence of operations on a FIFO or message FIFO, bounded or unbounded, returns the elements and messages that were put in, in that order, each once and unmodified; a push is refused exactly when there is no room, in which case nothing changes, and the reported emptiness, fullness, size and free space agree with the content. Messages written in pieces become visible only when completed, and never mix with others, including zero-length and capacity-filling messages, wrap-around and resets.",
 ["histories", "configurations", "inputs"],
 "All operation histories on all capacities and element types of Fifo and MessageFifo.",
 "The tests use one or two capacities and short scripts; wrap-around corner cases depend on capacity and history.",
 ["include/libstored/fifo.h"],
 [("ring pointers", "Fifo push_back/pop_front, Buffer reserve"), ("message table", "MessageFifo append_back/push_back/pop_front")],
 [], ["public FIFO operations"])

prop("C16", "FIFO and message FIFO are safe for one producer and one consumer thread",
 "With one thread only producing and one thread only consuming, without further locks, every interleaving of the two yields the same result as some sequential order: the consumer sees the produced elements in order, exactly once and completely written, and the producer never overwrites an element that is not consumed yet. Whatever one side wrote before publishing is visible to the other after it observes the publication, also on weakly ordered memory.",
 ["schedules"],
 "All interleavings of producer and consumer at the granularity of single memory accesses, with the memory orders the code actually uses.",
 "A thread test only samples schedules of one machine with a strong memory model.",
 ["include/libstored/fifo.h"],
 [("release store / acquire load of the ring pointers", "fifo.h Fifo<T,Capacity>::m_wp, m_rp")],
 [("m_wp/m_rp", "write and read positions", "fifo.h")], ["std::atomic operations of the FIFO (instrumented in the harness)"])

prop("C17", "Scratch pad allocations never overlap and roll back exactly",
 "Every block handed out by the scratch pad is aligned as requested, does not overlap any other live block, and keeps its content until it is released by a reset or a roll back to a snapshot taken before. Rolling back to a snapshot releases exactly the blocks that were allocated after it and keeps all earlier ones intact, the reported size and capacity agree, and once the pad has grown to the needed size, repeating the same allocations needs no further growth.",
 ["histories", "inputs"],
 "All histories of allocations, resizes, snapshots, nested roll backs, reserves, shrinks and resets.",
 "Tests run a few short scripts; corner cases depend on exact fill levels of chunks.",
 ["include/libstored/spm.h"],
 [("chunk chain and snapshot", "ScratchPad::alloc/snapshot/rollback/reset")],
 [], ["pointers returned by alloc", "size()/max()/capacity()"])

prop("C18", "Signals call exactly the connected callbacks",
 "Calling a signal for a key invokes every callback that is connected to that key, as many times as it is connected, with the given arguments, and no other callback; calling it without key invokes every connected callback. Disconnecting everything, a key, or a key and token pair removes exactly the matching connections and releases their callbacks, and connecting with an already used key and token pair is independent of other keys and tokens. The callable objects that hold the callbacks keep, copy, move and release what was assigned to them, whatever its kind or size.",
 ["histories", "inputs"],
 "All histories of connect, disconnect and call over any keys and tokens, including the default ones.",
 "Tests use a few connections; the selection rules interact over histories.",
 ["include/libstored/signal.h", "include/libstored/allocator.h"],
 [("multimap of connections", "Signal::connect/disconnect/call")],
 [], ["callback invocations"])

prop("C19", "A poller reports exactly the pollables that have requested events",
 "A poll returns every registered pollable for which a requested event is pending, with only the pending requested (or error) events, no pollable that is not registered or that has nothing pending, and each at most once. Adding and removing pollables in any order only affects those pollables, a failing addition of several leaves none of them registered, and an empty result is reported as a timeout.",
 ["histories", "configurations"],
 "All histories of add, remove, clear and poll over any number and mix of pollables (files, callbacks, sockets) and all readiness patterns, for each available poll backend.",
 "Tests use one or two pollables in fixed order.",
 ["src/poller.cpp", "include/libstored/poller.h"],
 [("parallel lists with swap-remove", "InheritablePoller::add/remove/event"), ("event translation", "PollPoller/ZmqPoller/LoopPoller doPoll")],
 [], ["Poller::poll() result, Pollable::revents"])

prop("C20", "Pipes pass every injected value through all segments in order",
 "A value injected into a pipe passes through its segments in the order in which they were composed, each applied exactly once, the result is the pipe's output and is forwarded once to the connected next pipe; extracting or triggering returns the value the stateful segments hold without injecting anything anew beyond what triggers are documented to forward. Forwarding-on-change segments forward exactly the values that differ from the previous one, rate-limited segments forward injected changes at most once per interval and hold the last change for a trigger after the interval, multiplexers, gates, maps, casts and constraints yield what they are defined to yield for every input, and connecting, extending and disconnecting affect only where output goes.",
 ["histories", "inputs", "configurations"],
 "All pipe compositions, all values and all histories of inject, extract, trigger, connect, extend and disconnect.",
 "Tests use fixed compositions and values; histories with reconnects and state are not sampled.",
 ["include/libstored/pipes.h", "src/pipes.cpp"],
 [("segment chain", "Segments::inject/extract/trigger"), ("forwarding", "SpecificOpenPipe::connect/forward"), ("stateful segments", "Buffer, Changes, Triggered, RateLimit, Mux, Transistor")],
 [], ["pipe inject/extract/trigger results, callbacks"])

prop("C21", "Python and C++ protocol implementations interoperate",
 "Whatever a Python protocol stack encodes is decoded by the equivalent C++ stack to the same messages, and vice versa, for every payload and chunking, including checksums, escapes, segmentation and the debug ARQ with its sequence-number encodings and retransmissions. A Python client's retransmission never makes a C++ server execute a request twice and never yields a response to another request.",
 ["inputs", "schedules", "configurations"],
 "All payloads, chunkings, MTUs, sequence numbers and frame loss schedules, over all equivalent stacks.",
 "Python and C++ are tested separately and mostly with fixed strings.",
 ["python/libstored/protocol.py", "src/protocol.cpp", "sphinx/doc/cpp_protocol.rst"],
 [("Python layers", "python/libstored/protocol.py"), ("C++ layers", "src/protocol.cpp")],
 [], ["encoded bytes and decoded messages on both sides"])

prop("C22", "Stream compression is lossless for every write pattern",
 "Data that is passed through the compression layer in any sequence of writes, message ends and flushes is restored exactly, in order and complete, by the decompressing side (C++ layer and Python decoder alike), in any chunking of the compressed data, and after each flush or message end everything written before can be restored from what has been output so far.",
 ["inputs", "histories"],
 "All data, write splits, flush positions and receive chunkings.",
 "Tests compress a few fixed texts.",
 ["src/compress.cpp", "include/libstored/compress.h", "python/libstored/heatshrink.py"],
 [("heatshrink encoder state machine driving", "CompressLayer::encode/flush/encoderPoll"), ("decoder", "CompressLayer::decode, HeatshrinkDecoder")],
 [], ["CompressLayer encode output and decode output"])

prop("C23", "OS-level channels carry the byte stream and messages unchanged",
 "Data sent through a file-descriptor, named-pipe, double-pipe, stdio, in-memory FIFO loopback or ZeroMQ layer arrives at the other end completely, unmodified and in order, whatever the sizes and interleavings of writes and reads, with message boundaries where the transport has them. Receiving without data returns the documented would-block status without side effects, and closing, peer disappearance and reopening are reported and never yield stale or duplicated data.",
 ["schedules", "inputs", "fault_sequences"],
 "All write/read size sequences and interleavings, peers that close and reopen at any point.",
 "Tests send one or two short strings per layer.",
 ["src/protocol.cpp", "src/zmq.cpp", "include/libstored/protocol.h", "include/libstored/zmq.h"],
 [("non-blocking read/write loops", "FileLayer::encode/recv, NamedPipeLayer, DoublePipeLayer"), ("message-wise FIFO loopback", "FifoLoopback"), ("request/response socket", "DebugZmqLayer, SyncZmqLayer")],
 [], ["layer encode()/recv() and OS file descriptors"])

prop("C24", "Control components honour their enable, override and limit settings",
 "The store-backed components (amplifier, digital input and output, ramp, pulse wave, PID and the others) compute from the current content of their store objects: an override that is set always determines the output, a disabled component passes its input through or holds its documented idle value, outputs always stay within the configured limits (a ramp never moves faster or accelerates harder than configured and does not overshoot its target, a PID controller's integrator does not wind up beyond the output limits), and values that were read back from the store equal what the component last computed. Changing one setting has no effect other than documented, whatever the history.",
 ["histories", "inputs"],
 "All histories of setting changes and evaluations, for discrete-valued behaviours (enables, overrides, limits, exact integer-valued arithmetic).",
 "Tests evaluate short fixed sequences with default settings.",
 ["include/libstored/components.h"],
 [("evaluation functions", "Amplifier, PinIn, PinOut, PID, PulseWave, Sine, FirstOrderFilter, Ramp operator()")],
 [], ["component outputs and store objects"])

prop("C25", "Numeric control accuracy of filters, PID and wave generators",
 "The discrete-time results of the PID controller, first-order filters, sine generator and ramp approximate the continuous-time behaviour they are defined by within floating-point accuracy for every sampling frequency and parameter set.",
 ["inputs"], "All parameters, sampling frequencies and input signals over the reals.",
 "Tests compare a handful of samples against constants.",
 ["include/libstored/components.h"],
 [("difference equations", "PID, FirstOrderFilter, Sine, Ramp in components.h")], [], ["component outputs"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p) + "\n")
