"""Source of properties.jsonl and MANIFEST.json (run: python3 tools/props.py)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

def P(id, title, statement, over, text, why, files, mech, observe=(), state=(), hook=None):
    return dict(id=id, title=title, statement=statement,
        quantifier=dict(over=list(over), text=text), why_tests_cant=why,
        anchors=dict(files=list(files),
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=list(observe), hook_needed=hook))

I = 'include/libstored/'
PROPS = [
P('C01', 'Every object of any store is found by its name',
  "For every valid store description, listing the store yields each declared object (arrays and scopes expanded) exactly once with its full name, type and size, and looking up any of those names, or an abbreviation of one (cut to a prefix that no other name has, or with every scope in it cut to one or more characters that none of its siblings start with), yields exactly that object. Looking up any other byte string, with any length limit, never reads outside the name and the directory and gives nothing or an object of that same store.",
  ['programs', 'inputs'], 'all store descriptions (name sets, scopes, arrays, type mixes) x all lookup strings',
  'test_directory looks up some 60 fixed names in one fixed store; the binary directory is a different program for every store.',
  [I+'directory.h', 'src/directory.cpp', 'python/libstored/generator/dsl/types.py', I+'store.h.tmpl'],
  [('binary directory generation (pivots, skips, jumps)', 'python/libstored/generator/dsl/types.py:Directory'), ('find()', I+'directory.h'), ('list()', 'src/directory.cpp')],
  ['store.find(), store.list(), Debugger list']),
P('C02', 'Generated stores: initial values, separate storage, no side effects',
  "In every generated store each variable starts at its declared initial value (zero when none is given), is aligned for its type, and has storage of its own inside the store, so that writing any object to any value leaves every other object's value unchanged. The named member, the array accessor, lookup by name, and the store's key-to-type query for one object all refer to that same storage, with the same type and size.",
  ['programs', 'inputs'], 'all store descriptions x all objects x all written values',
  'test_init and test_array check a few initial values of the one TestStore.',
  ['python/libstored/generator/dsl/types.py', 'src/store.cpp.tmpl', I+'store.h.tmpl', I+'types.h'],
  [('buffer layout and initializer image', 'python/libstored/generator/dsl/types.py:Buffer'), ('accessors', I+'store.h.tmpl')],
  ['member accessors', 'find()', 'list()', 'bufferToType()']),
P('C03', 'What is written to an object is what is read back, by every access path',
  "A value written to a variable through any access path (typed, run-time typed variant, or bound free object) reads back as the same value through all paths, whether the store keeps its data little or big endian; a string keeps the longest prefix that fits, up to the first NUL, and is always NUL-terminated within its own storage, and a shorter blob write changes only the bytes given. Reading a number (not NaN) as another integer type rounds it to the nearest integer and saturates at the limits of that type.",
  ['inputs', 'histories', 'configurations'], 'all sequences of accesses x all values of every type x both byte orders',
  'test_types checks sample values; boundary values, string overlaps and interleaved paths are not enumerated, and the opposite byte order is never built.',
  [I+'types.h', I+'util.h', 'src/util.cpp', I+'store.h.tmpl'],
  [('Variable/Variant get and set', I+'types.h'), ('endian conversion, string copy, saturated_cast', I+'util.h')],
  ['get()', 'set()', 'as<>()']),
P('C04', 'Access hooks are balanced, exact about changes, and functions run once',
  "Every read or write of a variable calls the store's entry and exit hooks as one matching pair for that variable's storage, exclusive for writes and read-only for reads; the change notification (and the variable's own changed callback) is given for a write exactly when the stored bytes differ afterwards. Calling a function object invokes exactly that function's callback, exactly once per call, with the right direction and value.",
  ['histories', 'inputs'], 'all sequences of accesses through all access paths, values equal or unequal to the current one (including NaN and signed zero)',
  'test_hooks covers a handful of accesses of selected variables.',
  [I+'types.h', I+'store.h.tmpl'],
  [('entryX/exitX/entryRO/exitRO', I+'types.h'), ('hook forwarding and changed dispatch', I+'store.h.tmpl')],
  ['__hookEntryX/__hookExitX/__hookEntryRO/__hookExitRO/__hookChanged/__x__changed overrides']),
P('C05', 'The debugger survives any request and answers each exactly once',
  "For every sequence of non-empty debugger requests, whatever their bytes and lengths, and with stores being mapped, unmapped and destroyed in between, the debugger makes no invalid memory access, does not crash or hang, and produces exactly one complete response per request. Requests other than writes, memory writes and macros leave the values of the application's variables unchanged, and a write that is answered with an error changes no variable.",
  ['inputs', 'histories'], 'all byte strings and sequences of them, including nested macros, long inputs and every capability combination',
  'test_debugger sends some hundred well-formed requests.',
  ['src/debugger.cpp', I+'debugger.h'],
  [('command parsing', 'src/debugger.cpp:Debugger::process'), ('macro execution', 'src/debugger.cpp:Debugger::runMacro')],
  ['Debugger decode() and the layer below']),
P('C06', 'Debugger commands do what the protocol says, in every order',
  "For every history of capabilities, echo, list, find/alias, macro, read, write, identification, version and memory read/write requests over any set of mapped stores, each response and the resulting store contents are those that the documented protocol prescribes. In particular a read returns the current value of exactly the named object, a write changes exactly that object to exactly that value, an alias or macro keeps its meaning until it is redefined, and memory access touches exactly the addressed bytes.",
  ['histories', 'inputs'], 'all command sequences x values of all types x 1..n mapped stores',
  'the tests exercise each command separately, on one or two stores.',
  ['src/debugger.cpp', I+'debugger.h', 'sphinx/doc/cpp_debugger.rst'],
  [('command implementations', 'src/debugger.cpp:Debugger::process'), ('value encoding', 'src/debugger.cpp:encodeHex/decodeHex')],
  ['responses', 'store contents']),
P('C07', 'Debug streams and traces deliver exactly the data that was accepted',
  "For every interleaving of stream writes, flushes, reads, stream listings and trace samples, what a client reads from a stream (after decompression, when compression is on) is exactly the concatenation, in order, of the bytes the debugger reported as accepted, with nothing lost, repeated or mixed between streams. A trace yields one complete execution of its macro for each decimation period while enabled and nothing otherwise.",
  ['histories', 'inputs', 'configurations'], 'all interleavings of producer and reader operations over multiple streams, with and without compression',
  'tests read back two or three short streams.',
  ['src/debugger.cpp', I+'debugger.h', 'src/compress.cpp'],
  [('Stream', I+'debugger.h'), ('Debugger::stream()/trace()', 'src/debugger.cpp')],
  ['Debugger::stream()', 's/S/t requests']),
P('C08', 'Compressed streams decompress to the original bytes',
  "For every sequence of non-empty messages, every way each is split over encode calls, and also when a layer responds or receives from within an encode or decode, what the compression layer emits decodes, with the library's own decoder and with the Python client's decoder, to exactly the original bytes of each message. A reset drops only the unfinished message. Decoding never reads or writes outside its buffers, whatever bytes are offered to it, and does not affect later messages.",
  ['inputs', 'histories'], 'all byte strings x splits x flush points; all byte strings as compressed input',
  'test_heatshrink decodes a few fixed strings.',
  ['src/compress.cpp', I+'compress.h', 'python/libstored/heatshrink.py'],
  [('heatshrink encoder/decoder glue', 'src/compress.cpp'), ('Python decoder', 'python/libstored/heatshrink.py')],
  ['CompressLayer encode/decode', 'HeatshrinkDecoder']),
P('C09', 'Protocol stacks deliver every message intact, however it is split',
  "For every stack of protocol layers composed as documented, every sequence of messages, every way of splitting a message over encode calls, and any fragmentation or grouping of the byte stream where the layers permit it, the peer's stack delivers exactly the same messages, in order. No layer hands a larger chunk to the layer below than that layer's MTU, given that the layer above respects the MTU it is told.",
  ['inputs', 'configurations', 'histories'], 'all layer stacks x MTUs x message contents and partial encodes x stream fragmentations',
  'test_protocol encodes fixed strings through one layer at a time.',
  ['src/protocol.cpp', I+'protocol.h', 'sphinx/doc/cpp_protocol.rst'],
  [('layer encode/decode', 'src/protocol.cpp'), ('mtu()', 'src/protocol.cpp')],
  ['bytes below the bottom layer', 'messages above the top layer']),
P('C10', 'A damaged frame is never delivered as a message',
  "A frame protected by the 8 or 16 bit CRC layer that is truncated, extended or changed in transit is not delivered unless its checksum still matches; every single-bit error, every burst no longer than the checksum, and every two-bit error within the documented block length is rejected. An undamaged frame of any length is accepted, and damage to one frame never affects the acceptance of a later one.",
  ['inputs', 'fault_sequences'], 'all messages x all error patterns up to the guaranteed class, exhaustively for short frames',
  'tests flip a few bits in fixed frames.',
  ['src/protocol.cpp', I+'protocol.h'],
  [('Crc8Layer, Crc16Layer', 'src/protocol.cpp')],
  ['decode() above the CRC layer']),
P('C11', 'Terminal layer separates application output from debug messages',
  "For every interleaving of application text and debug messages on one byte stream, and every fragmentation of that stream into received chunks, the application data and the debug messages come out separately, each complete, in order and unmodified. Debug data never leaks into the application stream, or the other way around.",
  ['inputs', 'histories'], 'all texts, messages (with any bytes) and chunkings',
  'tests use a few fixed chunkings.',
  ['src/protocol.cpp', I+'protocol.h'],
  [('TerminalLayer, AsciiEscapeLayer', 'src/protocol.cpp')],
  ['nonDebugDecode', 'decode() above']),
P('C12', 'ARQ delivers every message exactly once and in order over a lossy channel',
  "Once two peers that use the general ARQ layer are connected, over a channel that loses, duplicates or delays whole frames in any pattern (within the range of the sequence numbers), each delivers exactly the messages the other side sent, once, in order and unmodified; once the channel stops failing, everything is delivered and acknowledged within a bounded number of flush/keep-alive rounds. When one side resets (nothing of the old session being in transit) the peers connect again in a bounded exchange, after which this holds again; only the message that was not yet acknowledged to the other side may come once more.",
  ['fault_sequences', 'histories', 'schedules'], 'all loss/duplication/delay patterns x traffic in both directions x message splits x resets',
  'tests drop selected frames of short exchanges.',
  ['src/protocol.cpp', I+'protocol.h'],
  [('ArqLayer sequence numbers, acks, retransmit', 'src/protocol.cpp')],
  ['decode() above both ends', 'frames in between'],
  [('m_sendSeq/m_recvSeq', 'next sequence numbers', I+'protocol.h')]),
P('C13', 'Debug ARQ: a request takes effect once and gets its own response',
  "Over a channel that loses request or response frames in any pattern, a debug client as documented, that retransmits until it gets a reply, sees for every request exactly the complete response of one execution of that request, and the target executes each request exactly once, except that one whose response is marked purgeable, or does not fit the configured buffer, may be repeated. For requests with a kept response this also holds when frames are duplicated or retransmitted too early. Any lengths, sequence number ranges and MTUs are supported, and after a reset by the client nothing of an earlier request is executed.",
  ['fault_sequences', 'histories', 'inputs'], 'all loss/duplication patterns x request/response sizes x MTUs',
  'tests script a handful of retransmissions.',
  ['src/protocol.cpp', I+'protocol.h', 'python/libstored/protocol.py'],
  [('DebugArqLayer', 'src/protocol.cpp'), ('Python DebugArqLayer', 'python/libstored/protocol.py')],
  ['Debugger requests', 'client responses']),
P('C14', 'Protocol layers survive any received bytes',
  "Whatever byte sequences are received, in whatever chunks, every protocol layer and documented stack makes no invalid memory access, has no undefined behaviour, does not hang, and uses no more memory than is proportional to what it received and has to send since its last reset; after a reset, it behaves the same as a fresh stack.",
  ['inputs', 'histories'], 'all byte sequences and chunkings x stacks',
  'the tests do not send garbage; the fuzz drivers are not run without AFL.',
  ['src/protocol.cpp', 'src/compress.cpp'],
  [('decode() of each layer', 'src/protocol.cpp')],
  ['sanitizer reports', 'decode() above']),
P('C15', 'Synchronized stores converge to the same contents',
  "For every tree of synchronizers and connections, every schedule of local writes, synchronizer rounds and message deliveries, once writing stops and messages are exchanged all copies of a store become identical, and each variable that was written by one owner only holds the last value that owner wrote, however many hops away. A copy never shows a value of a variable that no one wrote to it and which it did not hold initially.",
  ['schedules', 'histories', 'configurations'], 'all topologies (chains, stars, trees) x connect orders x write/process/deliver interleavings',
  'test_synchronizer tests a few fixed topologies with immediate delivery.',
  ['src/synchronizer.cpp', I+'synchronizer.h'],
  [('StoreJournal change log', 'src/synchronizer.cpp'), ('SyncConnection hello/welcome/update', 'src/synchronizer.cpp')],
  ['store contents', 'messages on the connection']),
P('C16', 'Updates are complete: nothing changed is missed, order is kept',
  "For every history of changes and synchronization rounds of any length (including counter wrap-around), an update sent to a peer contains every variable changed since the previous update to that peer with its current value, and contains no byte that was not the current value when it was sent. A peer therefore never sees an older value after a newer one of the same owner, and never sees a later write of one synchronization round without the earlier writes of earlier rounds.",
  ['histories', 'schedules'], 'all change/update histories, number of peers, sequence counter values and wrap-arounds, store sizes of each key width',
  'tests make a few changes; the internal counters never wrap and stores are small.',
  ['src/synchronizer.cpp', I+'synchronizer.h'],
  [('StoreJournal::changed/hasChanged/encodeUpdates', 'src/synchronizer.cpp'), ('short/long sequence numbers', 'src/synchronizer.cpp')],
  ['update messages']),
P('C17', 'The synchronizer survives any received message',
  "Whatever messages a peer sends, in whatever order, a synchronizer makes no invalid memory access, does not crash or hang, and writes nothing outside the data of the stores that are synchronized over that connection. A well-behaved peer that connects afterwards is served correctly.",
  ['inputs', 'histories'], 'all byte strings and mutated valid messages, in all connection states',
  'the tests send well-formed messages only.',
  ['src/synchronizer.cpp'],
  [('SyncConnection::decode and StoreJournal::decodeUpdates bounds checks', 'src/synchronizer.cpp')],
  ['sanitizer reports', 'store contents']),
P('C18', 'Synchronization sessions can be opened, closed and resumed at any time',
  "With any number of stores mapped in any order on either side, connecting, disconnecting, reconnecting, saying goodbye for a store and destroying any participant, at any point of any exchange, never affects the contents or synchronization of other stores or connections, and leaves no dangling reference. After both sides (re)connect and resume, the stores concerned converge again to the value of the side that serves as the source plus what is written afterwards.",
  ['histories', 'schedules'], 'all sequences of map/unmap/connect/disconnect/bye/destroy interleaved with writes and delivery',
  'tests connect once and mostly never disconnect.',
  ['src/synchronizer.cpp', I+'synchronizer.h'],
  [('SyncConnection source/drop/bye', 'src/synchronizer.cpp'), ('Synchronizer map/unmap/connect/disconnect', I+'synchronizer.h')],
  ['store contents', 'sanitizer reports']),
P('C19', 'FIFOs pass data between one producer and one consumer without loss or race',
  "For every interleaving of one producer and one consumer thread, element and message FIFOs deliver every accepted item exactly once, in order and intact, never exceed their capacity, refuse items only when there is no room, and their size queries never report more than was put in or miss what was; there is no data race. The thread-safe FIFO loopback connects two protocol stacks with the same guarantee.",
  ['schedules', 'histories', 'configurations'], 'all thread interleavings and operation mixes (single, bulk, iterator, partial message, pop-back) x capacities including unbounded',
  'test_fifo is mostly single-threaded with fixed sizes.',
  [I+'fifo.h'],
  [('read/write pointers with acquire/release', I+'fifo.h')],
  ['push/pop/append results', 'race reports']),
P('C20', 'Scratch pad allocations never overlap and roll back exactly',
  "For every sequence of allocate, reserve, shrink, snapshot, rollback and reset operations, every live scratch pad allocation is aligned as requested, disjoint from all other live allocations, and keeps its contents until it is released; a rollback (also by scope exit) releases exactly what was allocated since its snapshot, and the accounted size matches what is live.",
  ['histories', 'inputs'], 'all operation sequences x sizes and alignments x counter widths',
  'test_spm does a few allocations per test.',
  [I+'spm.h'],
  [('ScratchPad', I+'spm.h')],
  ['returned pointers', 'size()/max()/capacity()']),
P('C21', 'All dynamic memory goes through the configured allocator, and is returned',
  "Whatever parts of the library are used, every dynamic allocation is made through the allocator of the configuration, is released exactly once with the size and alignment it was requested with, and nothing remains once all objects are destroyed; callable, signal and container wrappers keep the wrapped object's copies, moves and destructions balanced. A failing allocation surfaces as an exception or an error code, never leaks, and leaves every object destructible; callables, signals, FIFOs, and pollers also remain usable. (Not claimed for allocations by heatshrink, ZMQ, or std::function themselves, and for failures where the interface does not allow an exception.)",
  ['histories', 'fault_sequences', 'inputs'], 'all use histories x every allocation as point of failure',
  'test_allocator checks some containers; no test fails an allocation.',
  [I+'allocator.h', I+'config.h', I+'util.h'],
  [('Allocatable operators new/delete, Callable', I+'allocator.h')],
  ['allocator calls', 'global operator new']),
P('C22', 'Signals call each connected slot, once per matching call, and no other',
  "For every history of connects, disconnects and calls, with any mixture of keys and tokens and with copies and destruction in between, a signal call invokes exactly those callbacks that are connected and match the call's key, each as often as it is connected, passing the given arguments; a disconnected callback is never called again. A signalling store calls a variable's callbacks once for every local write that changes it, and these may access the store. (Connecting to or disconnecting from a signal while it is calling is not considered.)",
  ['histories'], 'all connect/disconnect/call sequences over keys and tokens',
  'test_signal covers one short history per function.',
  [I+'signal.h'],
  [('Signal', I+'signal.h')],
  ['callback invocations']),
P('C23', 'The poller reports exactly the pollables that are ready',
  "For every set of pollables added to, removed from and modified in a poller, and every pattern of readiness of their descriptors, a poll returns, once per registration, every pollable that has a requested event (or an error or hang-up) pending and none that has not or is not registered, with exactly those events, and its revents tell the same; it waits for something to become ready, and returns after the timeout when nothing does (the loop poller, which has no clock, does not wait for a positive timeout). The deprecated interface, where the poller owns the pollables, acts alike.",
  ['histories', 'inputs', 'configurations'], 'all add/remove/modify/ready sequences over descriptors, pollable callbacks and ZMQ sockets, for each poll back end that builds here',
  'test_poller polls one or two descriptors.',
  [I+'poller.h', 'src/poller.cpp'],
  [('Poller and poll back ends', I+'poller.h'), ('poll_once', 'src/poller.cpp')],
  ['poll() result, Pollable::revents']),
P('C24', 'Pipes compute the composition of their segments',
  "For every pipe composed of the library's segments (casts, tee, triggers, gates, mux, changes, bounds, scales, conversions, maps, store get/set, callbacks, splits and joined pipes) and every sequence of injected and extracted values, triggers and connects/disconnects, injecting and extracting return, every callback, store variable and connected pipe gets, and a trigger reports, what the composition of the documented segment functions prescribes; every value is forwarded exactly once and in order. This holds for pipes with at most one trigger segment, without cyclic connections and for values without NaN.",
  ['inputs', 'histories', 'programs'], 'all value sequences over a family of compositions, dynamic pipe creation and destruction',
  'test_pipes injects a few values per segment type.',
  [I+'pipes.h', 'src/pipes.cpp'],
  [('segments and pipes', I+'pipes.h')],
  ['inject/extract results, sinks']),
P('C25', 'Control components compute the documented function of their inputs',
  "For every sequence of inputs and parameter changes, at any sample frequency, the store-backed components (amplifier, input and output pins, PID, sine, pulse wave, first-order filter, ramp) produce the output their documentation defines, within floating point tolerance, for any subset of the optional objects in the store and for any type the component supports: a parameter or limit that is absent behaves as its documented default; enable and override are honoured at every step and the input and output objects hold the input and output; parameters that need a reset are applied at the first run and at a reset, only; the PID keeps its output and integral within the bounds and reports an unhealthy integral; the generators keep their phase while running; a ramp keeps to its speed and acceleration limits (apart from one step when it arrives or is reset), does not overshoot when it starts at rest, arrives at its target and stays there, and does not lose its speed at a reset.",
  ['inputs', 'histories', 'configurations'], 'all input/parameter histories x available-object combinations',
  'test_components checks short fixed sequences.',
  [I+'components.h'],
  [('component run()', I+'components.h')],
  ['operator() results, store contents']),
P('C26', 'File, pipe and ZMQ transports carry messages without loss or corruption',
  "Data sent through the file, named pipe, double pipe, Xsim, standard I/O, serial and ZMQ transports arrives complete, in order and unmodified at the other end, whatever the message sizes, the reader's speed, partial writes, full pipes and interrupted calls; receiving waits for data as long as the given timeout tells and no shorter. Sending to a lost peer is reported as an error, and does not crash or leak descriptors; named pipes then accept a next peer; data that a peer sent before it left is still received. (SIGPIPE for descriptors that the application passes is the application's; a layer that closes itself upon a failing write need not deliver what is unread.)",
  ['inputs', 'schedules', 'fault_sequences'], 'all message sequences x kernel buffer fills x reader schedules x peer loss points',
  'test_poller/test_zmq use short messages, and pipes never fill up.',
  ['src/protocol.cpp', 'src/zmq.cpp', I+'zmq.h'],
  [('FileLayer, PolledFileLayer::block', 'src/protocol.cpp'), ('NamedPipe/DoublePipe reopen', 'src/protocol.cpp'), ('ZmqLayer multi-part messages', 'src/zmq.cpp')],
  ['bytes at the other end']),
P('C27', 'The Python client and the C++ target agree on every value',
  "For every object type and representable value, and every history of (asynchronous) reads and writes, aliases, macros, polling, tracing, streams and memory accesses through the Python client, with and without event loop and also when another client (with multi=True) uses the same target, the client lists exactly the objects of the target, the value that it reads, shows and formats is the value that the C++ store held when the target handled the request, a value that is written with success arrives in the store and nothing else is written, a polled or traced object gets the actual value, readMem/writeMem access exactly the given bytes, streams give exactly the bytes that were sent, saved polling and formats are restored, and aliases, macros and traces never give a value to another object or a sample to another time, also when the target has no room for (more) aliases or macros.",
  ['inputs', 'histories', 'configurations'], 'all values of all types x client operation histories x schedules of the responses',
  'test_ZmqClient covers a few objects and values.',
  ['python/libstored/zmq_client.py', 'src/debugger.cpp'],
  [('Object encode/decode, alias and macro management, tracing', 'python/libstored/zmq_client.py')],
  ['client object values, signals', 'store contents and accesses']),
P('C28', 'Python and C++ protocol layers interoperate',
  "For every message and every stack of layers that exists in both languages (escaping, terminal, segmentation, debug ARQ, CRC), what the Python stack encodes the C++ stack decodes to the same message and the other way around, for any fragmentation of the byte stream, and neither accepts a frame that the other considers corrupt; frames fit in the MTU of the layer below. Over a channel that loses frames, a Python client with debug ARQ gets exactly one response to every request, which is that of the C++ server to this request, after a bounded number of retransmissions once frames arrive again; a request with a response that can be retransmitted is executed exactly once.",
  ['inputs', 'configurations', 'histories'], 'all messages x stacks x fragmentations x losses',
  'no test runs a Python layer against a C++ layer.',
  ['python/libstored/protocol.py', 'src/protocol.cpp'],
  [('layer implementations', 'python/libstored/protocol.py')],
  ['messages above both stacks']),
P('C29', 'The FPGA store and synchronizer behave as the C++ ones',
  "For every store description the generated VHDL store, connected through the VHDL synchronizer, converges with the C++ store for any schedule of writes at either side, keeps the same memory layout and initial values, and its AXI slave gives access to exactly the addressed variables.",
  ['programs', 'schedules'], 'all stores x write schedules at both sides',
  'needs a VHDL simulator; the repository tests it with Vivado only.',
  ['fpga/rtl', 'python/libstored/generator/__main__.py'],
  [('store.vhd.tmpl and sync VHDL', 'fpga/rtl')]),
]

# property: (technique, level note)
CLAIMS = {
'C27': ('differential monitor of the real Python client against a real C++ debugger, with stand-ins for ZMQ and Qt',
    'The client runs in one process with a ZMQ socket that enforces the REQ protocol and an event loop that the harness schedules; the target is the real Debugger with generated stores, of which the access hooks tell which object every request really accessed. Assurance is for the sampled histories; Qt and ZMQ themselves are replaced.'),
'C01': ('reference-model monitor over generated stores, under ASan/UBSan',
    'Random and handwritten store descriptions are expanded by an independent model; every listing and lookup of the real generated directory is compared with it. Assurance is for the stores and queries generated from the seed.'),
'C02': ('shadow-memory monitor over generated stores, under ASan/UBSan',
    'The whole store buffer is compared before and after each access by each access path with an independent model of the description. Little and big endian, and unaligned access builds.'),
'C03': ('read-back model monitor over all access paths, under ASan/UBSan',
    'Every write is read back by another random path and conversions are compared with long double arithmetic. NaN is not converted (the result is not specified).'),
'C04': ('hook trace monitor: online checker of hook and callback sequences',
    'The generated store is instantiated with recording hooks and functions; each access must yield exactly the prescribed hook sequence. Locking by the application is not exercised.'),
'C05': ('hostile-input stress of the debugger under ASan/UBSan, with a response-count and store-snapshot monitor',
    'Random, mutated and nested requests (also via macros, traces and streams) over random stores in four configurations. Memory commands are excluded here, as they address any memory by design.'),
'C06': ('reference-model monitor of the debugger protocol (online)',
    'An independent model of the documented protocol predicts every response and the contents of all stores and of an arena for memory access; compared after each request. Stream and trace commands are left to C07.'),
'C07': ('stream conservation and order monitor, with an independent heatshrink decoder as client',
    'Everything that was accepted must come out once, in order. A trace sample may only be missing when the stream was blocked, or when there may be no room for it.'),
'C08': ('round-trip monitor with an independent decoder, under ASan/UBSan; the Python decoder on the recorded output',
    'Every emitted stream is decoded by an independent decoder, by the library, and (a part) by the Python decoder. Empty messages are excluded, as they have no compressed form. The flush of debug streams is covered by C07.'),
'C09': ('delivery and MTU monitors (online) over random stacks, under ASan/UBSan',
    'Probes between the layers check every frame against the announced MTU; both ends record messages. Frames above a lossy point are left to C12 and C13; stacks with fewer bytes of MTU than their layers need are excluded.'),
'C10': ('fault injection with an independent CRC as oracle (online), under ASan/UBSan',
    'Damage of all classes is injected in frames; all single-bit errors exhaustively for short ones, otherwise sampled. One known finding (the CRC-8 polynomial) is listed.'),
'C11': ('separation monitor over random interleavings and chunkings of one byte stream, under ASan/UBSan',
    'Text, messages and chunk boundaries are random, with many escape characters. An ESC at the very end of what was received may be held back.'),
'C12': ('fault-injecting channel with an exactly-once, in-order history monitor, under ASan/UBSan',
    'Loss, duplication and delay are random. While (re)connecting the channel works, as the handshake itself does not survive loss (known finding, which is replayed in each run).'),
'C13': ('fault-injecting channel with an exactly-once monitor and an independent client written from the documentation, under ASan/UBSan',
    'The monitored target is the real stack, with an application that numbers executions, or a real Debugger with streams. Duplicates are excluded for responses that the protocol cannot distinguish (purgeable, or carrying the reset flag).'),
'C14': ('hostile-input stress under ASan/UBSan with memory accounting, and a differential monitor against a fresh stack',
    'Random, mutated and spliced byte streams of real encoders, in random chunks, over all layers and documented stacks. After a reset the stack must yield what a fresh one does.'),
'C15': ('convergence and written-value history monitor over simulated synchronizer trees, under ASan/UBSan',
    'Every written value is unique per owner, so any value seen is traced to its write; schedules of writes, rounds and deliveries over queued or immediate connections are random. One known finding (a very long silence) is listed.'),
'C16': ('online checker of captured update messages against a change log',
    'Every Update on the wire is parsed by an independent decoder and compared with the changes since the previous update; journals are aged so that counters wrap. Simulated connections; no threads.'),
'C17': ('hostile-peer stress of the synchronizer under ASan/UBSan, with a shadow of uninvolved stores',
    'Random, mutated and reordered messages in all connection states; afterwards a regular peer must still converge.'),
'C18': ('session history monitor over randomly mapped, connected, reset and destroyed synchronizers, under ASan/UBSan',
    'Uninvolved stores and connections are watched during the session churn; afterwards all remaining pairs reconnect and must converge. Owners without a path to the source are excluded from the value claim.'),
'C19': ('ThreadSanitizer and sequence-number monitors over two threads; reference-queue monitor under ASan/UBSan',
    'About 20 element, message and loopback FIFO types. Data races are decided by TSan (happens-before); the histories by per-item sequence numbers. Interleavings are those that the scheduler and injected pauses give.'),
'C20': ('live-allocation model monitor under ASan/UBSan, and without sanitizers',
    'Contents, disjointness, alignment and accounting of all live allocations are checked against a model after random operation sequences, with sizes at chunk and counter limits.'),
'C21': ('recording allocator with injected failures, under ASan/UBSan/LSan; lifetime monitor for wrapped functors',
    'Every request is recorded with size and alignment and matched with its release; malloc and operator new are intercepted to catch what bypasses the allocator. Every allocation is eligible as point of failure, chosen at random.'),
'C22': ('reference-model monitor of slot invocations, under ASan/UBSan',
    'Random histories over six signal types (key, token and argument types) and a signalling store; each call is compared with a model of the connections. Includes nested calls, slots that throw, and copies of signals.'),
'C26': ('transfer monitor over real descriptors, pseudo-terminals and ZMQ sockets, with injected partial, interrupted and failing system calls, under ASan/UBSan',
    'The other end is a plain reader/writer (or another layer) in a thread or process with its own pace; kernel buffers are made small such that they fill up. All bytes or messages are compared. Linux only; the Windows implementation cannot run here.'),
'C24': ('reference-model monitor over generated compositions of pipes, under ASan/UBSan',
    'Compositions are generated and compiled at random, per run about 100 (400 in the thorough tier), next to an independent dynamically typed model that gets the same operations. Comparisons of floats that are borderline are skipped; C++17 only.'),
'C25': ('reference-model and limit monitors over generated stores with random subsets of objects, under ASan/UBSan',
    'Every component runs next to a model in double precision, which is aligned to observed values where rounding may decide. The limits of ramps are monitored on the trajectory, not compared with a planned path. Negative frequencies, and NaN other than as override, are excluded.'),
'C28': ('differential monitor between a Python and a C++ stack over a lossy channel, under ASan/UBSan at the C++ side',
    'Random stacks, messages, fragmentations, corruptions and losses. The crcmod module is not available here, and replaced by a bitwise implementation of the same interface.'),
'C23': ('differential monitor: kernel and ZMQ readiness before and after each poll, under ASan/UBSan',
    'Random histories over pipes, sockets, event descriptors, file layers, ZMQ sockets and layers, and callbacks, with the ZMQ, poll() and loop back ends. The time that a poll takes is only checked to be long enough.'),
}
NOT_APPLICABLE = {
'C29': 'Deciding it needs executions of VHDL, and there is no VHDL simulator in this sandbox (nor in the repository, which uses Vivado), so runtime monitoring cannot observe it.',
}

def write_manifest():
    m = dict(version=1, setup_cmd='python3 tools/setup.py',
        checks=[dict(property=p['id'], quick_cmd='python3 check.py ' + p['id'], thorough_cmd='VERIF_TIER=thorough python3 check.py ' + p['id'],
            evidence_file='evidence/%s.json' % p['id'], technique=CLAIMS[p['id']][0], level=(CLAIMS[p['id']] + ('exploration',))[2],
            level_note=CLAIMS[p['id']][1]) for p in PROPS if p['id'] in CLAIMS],
        not_applicable=[dict(property=p['id'], reason=NOT_APPLICABLE.get(p['id'], 'The monitor for it is not built yet.'))
            for p in PROPS if p['id'] not in CLAIMS],
        notes='The checks read VERIF_TIER (quick, thorough) and VERIF_SEED. Everything is built from /repo at each run, in /verif/build (ignored by git).')
    with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')

if __name__ == '__main__':
    with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
        for p in PROPS:
            assert len(p['title']) <= 80, p['title']
            f.write(json.dumps(p) + '\n')
    write_manifest()
    print(len(PROPS), 'properties')
