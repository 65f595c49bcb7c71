TV = 'TLA+/TLC: exhaustive design model, behaviours replayed into the code, recorded traces validated against the spec'
CLAIMS = {
 'C01': (TV, 'Design model (two endpoints, lossy/duplicating FIFO channels, resets) checked exhaustively for small constants; the real ArqLayer is driven by behaviours of the model, exhaustive short schedules and random long schedules, and every execution is accepted by the trace spec or reported. Assumes FIFO channels.'),
 'C02': (TV, 'Liveness of the design under fairness by TLC; on the code every schedule ends in a fair loss-free suffix after which the trace spec requires a settled link. Assumes that endpoints do not retransmit into a handshake in flight (known finding otherwise).'),
 'C03': (TV, 'The target is specified as a function (DebugArqSrv.tla) that is used by both the design model (client, lossy/duplicating channel, target; safety and liveness, exhaustive for small constants) and the trace spec, which must reproduce every frame, delivery and response of the real DebugArqLayer for behaviours of the model, all short frame sequences, random ones, and long runs across all sequence-number encodings and the wrap.'),
 'C04': (TV, 'Wire formats as TLA+ functions (Framing.tla), round trip/MTU/reserved bytes checked by TLC for all short messages; on the code, every frame of the real encoders must decode by the specification to the message sent and respect the MTU, and streams made by the specification as well as the real frames must be decoded by the code, for random stacks, payloads, partial writes and chunkings.'),
 'C05': (TV, 'The CRC as bitwise TLA+ function; TLC checks that bursts are detected; the code must deliver exactly the frames that are valid by the specification (damaged, truncated, extended), and all bursts and bit pairs are injected into frames of all sizes.'),

 'C06': (TV, 'Design model of nodes in a tree of links (SyncCore/Sync): handshake, updates, resets, reconnects; TLC checks that quiet states are established and equal, values genuine, a sole writer wins, and that it becomes quiet under fairness. On the code: behaviours of the model and random histories with real Synchronizers, several object types and protocol stacks, where the byte level trace spec must explain every message, every store content and every connection state after every step, and the equality at the end.'),
 'C07': (TV, 'The trace spec keeps, per connection, the set of positions that must and that may be sent; every update message of the code must contain these with the current content, for random histories of writes, processing and deliveries, and for very long ones that wrap the short sequence numbers.'),
 'C08': (TV, 'A node that sends anything in the design model (SyncAtk) must not disturb the others; on the code, valid, mutated, truncated, spoofed and random messages are injected at any state, under ASan, and the byte-level trace spec gives the only allowed effects on stores, connections and messages, including recovery by a new handshake.'),

 'C09': (TV, 'Debugger.tla gives the set of allowed outcomes (response and next state) of any request, including the name lookup rules (Names.tla); a small instance is checked by TLC (bounded resources, a rejected request changes nothing, read/write round trip, requests that may be repeated), its behaviours and random request histories are replayed into the real Debugger with several stores and configurations, and every response and all values and memory must be allowed.'),
 'C10': (TV, 'As C09: macros are defined in the specification as the sequence of their commands; random histories of alias/macro (re)definitions up to and beyond the limits, in several configurations, must be explained by the specification.'),
 'C11': (TV, 'Streams as sequences in the specification (order, no loss of accepted data, limits, checked by TLC); compressed streams by a heatshrink decoder in TLA+ (StreamZ.tla) that is applied to the chunks given to the client. Random histories of writes, reads, flushes and traces of the real Debugger must be explained.'),

 'C12': (TV, 'Directory.tla is the generator\'s directory encoding and the search on it; TLC checks for all small sets of names and all short lookups that it implements the meaning of names (Names.tla). On the code: random store definitions are generated and compiled, and every lookup (full, abbreviated, damaged, bounded length) and list must be explained by Names.tla.'),
 'C13': (TV, 'Store.tla/StoreTrace.tla give the meaning of a definition (read by an independent parser); random definitions are generated, compiled and used by list, typed members, array accessors, functions and variants; every observed type, size, value, layout and document must be explained by the specification.'),
 'C14': (TV, 'HooksTrace.tla states which hook calls, with which arguments, and which result an access of any kind must have; random histories of accesses through all accessors, on aligned and unaligned buffers, in several store configurations (unaligned access or not, big endian), are recorded and validated. Bounded by the number of random histories; the specification of one access is checked for any combination of entry values.'),
 'C15': (TV, 'Fifo.tla gives FIFO and message FIFO as sequences with exact refusal; TLC checks the ring/message layouts of the design against it for small capacities; the code is run on every short history for small capacities and random long ones (including capacities around 127/255, unbounded, zero-length and full messages, views, iterators and loopbacks) and validated event by event.'),
 'C16': (TV, 'Design: release/acquire queue (SpscMC, SpscMsg) with stale reads and weak memory, checked exhaustively for small constants. Code: compiled with the race-instrumentation ABI against an own runtime that schedules two threads at every memory access and returns stale values where the C++ memory model allows it; all accesses are validated by a TLA+ vector clock specification (FifoRace) for absence of races and for FIFO order. Random schedules and all schedules with one context switch; bounded number of operations.'),
 'C17': (TV, 'Spm.tla specifies the chunked scratch pad (allocation, growth, snapshots, rollback) with addresses as (chunk, offset); TLC checks that live allocations never overlap and that roll back restores. Random and short exhaustive histories on the real ScratchPad (several size types and maxima, addresses reduced to ranks) must be explained by the specification, contents included.'),
 'C18': (TV, 'Signal.tla gives callables and signals as multisets of bindings; TLC explores connect/disconnect/call histories; histories on the real Callable and Signal, with counted live functor copies and throwing callbacks, must be explained event by event.'),
 'C19': (TV, 'Poller.tla states which events must be reported for resources in a given state per polling backend; PollerMC checks the registration design (swap removal, reset of returned events). Random and exhaustive short histories on the real pollers (poll, zmq, loop, deprecated interface) with pipes, ZeroMQ sockets and callbacks must be explained.'),
 'C20': (TV, 'Pipes.tla is an executable semantics of segments and networks; random networks are generated, compiled and driven by random histories, whose observed results, callbacks and store contents must be those of the specification; PipesMC checks the semantics of small networks.'),
 'C21': (TV, 'The wire formats (Framing.tla, model-checked) and the debug ARQ design (DebugArq.tla) are those that C01-C05 bind to C++; here the Python stacks are connected to the C++ ones. For random stacks, MTUs, payloads and chunkings, every frame of either side must decode, by the specification, to what was sent, within the MTU, and be delivered by the other side; requests of the Python client to a real C++ target over a channel that loses and duplicates frames, in all short and random long schedules of deliveries and time-outs, must be executed once and answered correctly, and always be answered in the end (InteropTrace.tla). ZeroMQ and serial front ends are not included.'),
 'C22': (TV, 'Heatshrink.tla gives the compressed format; TLC checks that any encoder that uses it, with any choice of symbols, chunking and padding, is decoded to a prefix and finally all of the input, for small sizes. The real layer is run with random texts, write splits and message sequences, the Python decoder with the same data in random chunks; all outputs must be as decoded by the specification.'),
 'C23': (TV, 'Channel.tla specifies the channels as queues of bytes or messages with errors; ChannelMC explores writes, reads, peers that close and reopen, partial writes and failing calls, ChannelBlk that a blocking call does not return without data. Random histories on the real file, named pipe, double pipe, simulated, stdio, FIFO loopback and ZeroMQ layers, with short writes and errors injected below them, must be explained event by event. Bounded by the number of random histories and POSIX only.'),
 'C24': (TV, 'Components.tla gives output, store content and next state of amplifier, pins, PID, pulse, sine, low/high pass and ramp as functions of their store objects, in exact fixed-point integers; RampMC checks on it that a ramp respects speed and acceleration limits, never overshoots and arrives, also when parameters are changed in motion. Random histories of settings and evaluations of the real components, with parameters for which single precision is exact, must give exactly the specified results and store content (sine and filters within 2/1024).'),
}
NA = {
 'C25': 'Numeric accuracy of floating-point filters and conversions: the state space is real-valued and the oracle is an error bound; TLC has neither reals nor floats, so a TLA+ specification cannot decide it.',
}
