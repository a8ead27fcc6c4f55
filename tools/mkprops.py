#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run it to regenerate the file)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

p("C01", "A component is never executed by two threads at once",
  "However many threads send messages, port events, timeouts and control events to a component, at most one thread executes its handlers at any instant, and, leaving aside wake-ups of futures it blocks on, it is not queued for execution twice at the same time. Handlers therefore always see the state left by the previous handler.",
  ["schedules", "histories"], "all interleavings of concurrent senders with the component's own executions, all scheduler choices",
  "Unit tests run a handful of fixed interleavings; overlap needs a sender to act in a particular window between an execution's last queue check and its release of the component.",
  ["core/src/component/lifecycle.rs", "core/src/component/actual_component.rs", "core/src/component/core.rs", "core/src/runtime/scheduler.rs"],
  [("work counter decides who schedules", "LifecycleState::increment_work / decrement_work"), ("execution loop", "Component::execute")],
  ["handler entry/exit", "Scheduler::schedule calls"])
p("C02", "No work is lost: an active component drains all its queues, then goes idle",
  "Every message, port event and due timeout accepted by an active component is eventually handled without any further external stimulus. Once nothing is left to handle, the component stops being scheduled.",
  ["schedules", "histories"], "all sequences of sends, triggers, timer expirations, cancellations and lifecycle changes, under all scheduler choices and throughput settings",
  "A lost wake-up or a leaked work count needs a specific order of enqueue, execution end and state change; tests only wait for the results of one order.",
  ["core/src/component/lifecycle.rs", "core/src/component/actual_component.rs", "core/src/timer/timer_manager.rs", "core/src/actors/refs.rs", "core/src/ports.rs"],
  [("work accounting", "LifecycleState"), ("rescheduling decision", "Component::execute return value")],
  ["scheduler queue", "handled events"])
p("C03", "Local messages arrive exactly once and in the order each sender sent them",
  "For every sender and every local actor that stays alive, the actor handles each message sent to it exactly once, and handles messages from one sender in the order they were sent. This holds for strong and weak references, recipients, asks and self-sends alike.",
  ["schedules", "histories", "programs"], "all message graphs, reference kinds and schedules",
  "Existing tests send a few messages over one path; loss, duplication or reordering depends on batch limits and interleavings they never vary.",
  ["core/src/actors/refs.rs", "core/src/component/actual_component.rs"],
  [("lock-free message queue", "TypedMsgQueue / msg_queue"), ("batch execution", "Component::execute")],
  ["receive_local"])
p("C04", "Port events reach exactly the connected peers, once each, in trigger order",
  "An event triggered on a port is delivered exactly once to every component whose opposite port is connected to it at that moment, and to no other; indications travel from provider to requirer and requests the other way. Events triggered on one port are handled by a given peer in trigger order, and disconnecting one channel affects only that channel.",
  ["schedules", "histories", "programs"], "all connection topologies and sequences of connect, trigger and disconnect",
  "Tests use one or two fixed connections; duplicate, missing or misdirected deliveries depend on topology and on the connect/disconnect history.",
  ["core/src/ports.rs", "core/src/component/mod.rs", "macros/component-definition-derive/src/lib.rs"],
  [("channel lists", "CommonPortData"), ("disconnection", "ProviderChannel/RequirerChannel, disconnect_component"), ("port execution order", "derive(ComponentDefinition) execute")],
  ["Provide::handle / Require::handle"])
p("C05", "Components handle events only while started; callbacks follow commands",
  "A component handles no message, event or timeout before its start handler, while stopped, or after being killed; what arrives while it is passive is kept and handled in order once it is started again. Each start, stop and kill command invokes the matching callback once, in command order, and nothing runs after the kill callback. Only a start makes a component start handling events.",
  ["schedules", "histories"], "all sequences of create, start, stop, kill and traffic, with any number of commands pending in one batch",
  "Tests issue one command at a time and wait; bugs appear when several commands or traffic are queued together.",
  ["core/src/component/lifecycle.rs", "core/src/component/actual_component.rs", "core/src/runtime/lifecycle.rs"],
  [("state flags", "LifecycleState"), ("control queue", "Component::execute / ControlEvent")],
  ["on_start/on_stop/on_kill", "receive_local"])
p("C06", "Lifecycle notifications complete, and only after the transition happened",
  "The futures returned when starting, stopping or killing a component complete only after the corresponding callback has finished (including what it blocked on), and always complete once it has finished successfully. A component that was never started can be killed too, and its notification still completes.",
  ["schedules", "histories"], "all orders of lifecycle commands with notifications, on fresh, active, passive and faulty components",
  "Tests only await the happy path of one command on a healthy component.",
  ["core/src/supervision.rs", "core/src/runtime/system.rs", "core/src/component/actual_component.rs"],
  [("supervisor listeners", "ComponentSupervisor"), ("notify events", "SupervisionMsg")],
  ["start_notify/stop_notify/kill_notify futures"])
p("C07", "A fault destroys only the faulty component and triggers one recovery",
  "A panic, a recoverable or an unrecoverable error in any handler or callback permanently silences that component and leaves every other component and the system working. A panic or recoverable error runs the recovery function registered last exactly once, an unrecoverable one runs none. A benign error leaves the component running with all its remaining events.",
  ["fault_sequences", "schedules", "histories"], "all placements of panics and fault results in handlers and callbacks, with any recovery action",
  "Tests inject one fault in one handler kind; isolation must hold for each handler kind and queue content.",
  ["core/src/component/actual_component.rs", "core/src/supervision.rs", "core/src/component/mod.rs"],
  [("panic containment", "Component::execute catch_unwind"), ("recovery handler", "RecoveryHandler / ComponentSupervisor")],
  ["recovery function", "fault handler calls", "later handler invocations"])
p("C08", "While a handler is blocked on a future the component handles nothing else",
  "After a handler returns a blocking future, no other message, event, timeout or lifecycle command of that component is handled until the future completes; then handling continues with the queued work in its original order. The future always resumes when it becomes ready.",
  ["schedules", "histories"], "all placements of blocking handlers and all orders of future completion against other traffic and lifecycle commands",
  "Tests block once and release once; the races between readiness, incoming work and lifecycle changes are not sampled.",
  ["core/src/component/future_task.rs", "core/src/component/actual_component.rs", "core/src/component/lifecycle.rs", "core/src/component/context.rs"],
  [("blocking flag", "LifecycleState blocking"), ("future polling", "BlockingFuture / run")],
  ["handler order"])
p("C09", "Spawned component-local tasks run to completion, exclusively with handlers",
  "Every task spawned on a component makes progress whenever it is woken and the component is active, runs to completion exactly once, and never runs at the same time as a handler of that component. Its effects on component state are seen by all later handlers.",
  ["schedules", "histories"], "all interleavings of several tasks, wake-ups (also repeated or early ones) and messages",
  "Tests spawn a single task with one await point.",
  ["core/src/component/future_task.rs", "core/src/component/context.rs", "core/src/component/actual_component.rs"],
  [("non-blocking futures map", "ComponentMutableCore.non_blocking_futures"), ("wake message", "ExecutionReady / msg queue")],
  ["task side effects"])
p("C10", "Timers fire once per period, never early, in order, and never after cancel",
  "A one-shot timeout is delivered exactly once, not before its delay has elapsed on the clock of the timer, which ticks in milliseconds; a periodic one is delivered once per period after its initial delay until cancelled; timeouts of a component are handled in deadline order. A timer that its component cancels before the handler ran never fires afterwards, not even if its expiry was already queued, and cancelling never disturbs other timers or leaves the component busy.",
  ["schedules", "histories"], "all sets of timers, cancellations (also from within handlers, also repeated) and clock advances",
  "Timer tests use a few fixed delays and wall-clock sleeps; the queued-then-cancelled window is not exercised.",
  ["core/src/timer/timer_manager.rs", "core/src/timer/mod.rs", "core/src/default_components.rs", "core/src/component/actual_component.rs"],
  [("handle map", "TimerManager"), ("cancellation", "cancel_timer")],
  ["timeout handlers", "manual clock"])
p("C11", "An ask is answered with its own reply or fails, never left hanging or mixed up",
  "Each ask completes with exactly the value passed to its own reply handle, whatever the order in which replies are given. If the responder drops the request, or is destroyed and no longer referenced, the asker gets an error instead of waiting forever.",
  ["schedules", "histories", "fault_sequences"], "all orders of asks, replies, drops, responder kills and faults",
  "Tests answer immediately and in order.",
  ["core/src/messaging/mod.rs", "core/src/utils/mod.rs", "core/src/utils/ask.rs", "core/src/actors/refs.rs"],
  [("promise/future pair", "Ask, KPromise, KFuture")],
  ["KFuture result"])
p("C12", "Shutdown completes, kills every running component, runs nothing afterwards",
  "Shutting a system down completes whatever state its components are in, calls the kill handler of every component that has completed its start and is not yet destroyed exactly once, and after it completed no handler of that system runs. Waiting for termination then returns.",
  ["schedules", "histories"], "all component populations (never started, active, stopped, faulty, killed) and pending work at shutdown time",
  "Tests shut down small healthy systems.",
  ["core/src/runtime/lifecycle.rs", "core/src/runtime/system.rs", "core/src/supervision.rs"],
  [("shutdown protocol", "KompactRuntime::shutdown_notify, SupervisionMsg::Shutdown")],
  ["shutdown future", "on_kill"])
p("C13", "A dedicated component runs all its handlers on its own thread",
  "Every lifecycle callback, message handler, port handler and timeout of a component created as dedicated executes on that component's own thread and never on a pool thread, no matter who triggered the work. Its work is processed to completion just like that of a pooled component.",
  ["schedules", "histories"], "all mixes of messages, port events and timeouts from any thread",
  "The tests only send messages to dedicated components and never trigger ports or timers on them while checking the thread.",
  ["core/src/dedicated_scheduler.rs", "core/src/component/actual_component.rs", "core/src/ports.rs", "core/src/actors/refs.rs", "core/src/timer/mod.rs"],
  [("custom scheduler", "DedicatedThreadScheduler"), ("schedule dispatch", "CoreContainer::schedule")],
  ["thread id in handlers", "Scheduler::schedule calls"])
p("C14", "Executions are bounded and starve neither messages nor port events",
  "In one scheduling of a component at most the configured throughput of events is handled, and with both messages and port events pending the split follows the configured message priority, with at least one message and, for a throughput of two or more, at least one event. With several busy ports, every port makes progress as long as the component's handlers run to completion without blocking it.",
  ["schedules", "configurations", "histories"], "all throughput/priority settings, port counts and backlog shapes",
  "Tests run with default settings and shallow queues.",
  ["core/src/component/actual_component.rs", "core/src/runtime/config.rs", "macros/component-definition-derive/src/lib.rs"],
  [("batch limits", "max_events/max_messages in Component::execute"), ("round-robin skip", "derived execute")],
  ["events handled per Scheduler execution"])
p("C16", "Futures run on the system pool yield their result exactly once",
  "A future spawned on the system or off a component runs to completion independently of any component, and its handle yields its value exactly once. A panic in it or in the awaiting component does not affect other components.",
  ["schedules"], "all orders of completion and awaiting",
  "Tests await one future that is ready immediately.",
  ["core/src/runtime/system.rs", "core/src/component/mod.rs", "core/src/utils/mod.rs", "core/src/utils/ask.rs"],
  [("spawn", "KompactSystem::spawn, ComponentDefinition::spawn_off")],
  ["JoinHandle result"])
p("D01", "Textual actor paths round-trip and denote the same actor",
  "Formatting any valid system path or actor path and parsing the text back gives an equal path, for every transport, IPv4 and IPv6 address, port, unique id and named path. Building a path piece by piece and parsing its text are equivalent.",
  ["inputs"], "all addresses, ports, ids and valid name segments",
  "Tests parse a few IPv4 examples.",
  ["core/src/actors/paths.rs"],
  [("Display/FromStr", "SystemPath, NamedPath, UniquePath, ActorPath")], ["Display, FromStr"])
p("D02", "Malformed actor paths are rejected with an error, never accepted or panicking",
  "Any string that is not a well-formed actor path is rejected with an error, and any sequence of segments is accepted exactly when every segment is non-empty, free of the reserved separator and (except for a trailing wildcard in lookups) of the routing markers. No input makes the parser panic.",
  ["inputs"], "all strings, in particular near-valid ones",
  "Tests list about ten malformed strings.",
  ["core/src/actors/paths.rs"],
  [("validation", "parse_path, validate_lookup_path, validate_insert_path")], ["FromStr, push, with_system"])
p("D03", "Actor paths survive serialisation unchanged",
  "Serialising any valid actor path or system path and deserialising the bytes gives an equal path that resolves to the same actor, including the path of the system itself. Exactly the bytes that were written are consumed; paths too long for the encoding are refused.",
  ["inputs"], "all actor paths, including IPv6, the empty (system) path and long names",
  "Tests round-trip two IPv4 paths.",
  ["core/src/messaging/net_message.rs", "core/src/actors/paths.rs", "core/src/serialisation"],
  [("Serialisable/Deserialiser for paths", "core/src/messaging/framing.rs")], ["serialise/deserialise"])
p("D04", "The actor store answers lookups like a map from paths to actors",
  "After any sequence of registrations, updates, removals and clean-ups, looking up a path returns exactly the actor most recently registered there and not removed since, or nothing. Registering under one path never changes what other paths resolve to.",
  ["histories", "inputs"], "all operation sequences over overlapping path prefixes, unique ids and aliases",
  "Tests cover single inserts and removals.",
  ["core/src/dispatch/lookup/mod.rs", "core/src/dispatch/lookup/path_trie.rs"],
  [("trie and id map", "ActorStore, PathTrie")], ["ActorLookup API"])
p("D05", "Routing groups deliver to the right members and never take the dispatcher down",
  "A message to a broadcast path reaches every member registered below it exactly once; a message to a select path reaches exactly one member, round-robin visiting all members evenly and hashing sending equal keys to the same member while membership is unchanged. Routing to a group without members loses only that message.",
  ["histories", "inputs"], "all memberships, policies, senders and message sequences, with members joining and leaving",
  "Tests use one policy with a fixed group of live members.",
  ["core/src/routing/groups.rs", "core/src/dispatch/lookup/mod.rs", "core/src/default_components.rs"],
  [("policies", "BroadcastRouting, RoundRobinRouting, SenderHashBucketRouting, FieldHashBucketRouting"), ("group lookup", "ActorStore::get_by_named_path")], ["receive of group members"])
p("D06", "Registration binds a path to one actor and reports duplicates truthfully",
  "After a successful registration every message to the returned path reaches that actor; a second plain registration of the same path is refused and changes nothing, while an update replaces the target from then on. Messages to unknown paths go to the dead letter box; messages to deallocated actors are dropped; neither affects anything else.",
  ["histories", "schedules"], "all sequences of registrations by id and alias, updates, kills and sends",
  "Tests register once or twice and send one message.",
  ["core/src/default_components.rs", "core/src/runtime/system.rs", "core/src/dispatch/lookup/mod.rs", "network/src/dispatcher.rs"],
  [("registration handling", "LocalDispatcher::register_actor / register_policy")], ["registration futures", "receive"])
p("D07", "Garbage collection removes exactly the dead registrations",
  "Cleaning up the registration table removes every entry whose actor has been deallocated and no entry whose actor is still reachable, and reports how many it removed. The clean-up interval always stays within its configured bounds.",
  ["histories", "configurations"], "all mixes of live and dropped actors and all strategy settings",
  "Tests drop one actor.",
  ["core/src/dispatch/lookup/gc.rs", "core/src/dispatch/lookup/mod.rs"],
  [("reaper", "ActorRefReaper, FeedbackStrategy")], ["ActorRefReaper::run"])
p("S01", "Built-in serialisers round-trip every value and announce the right size",
  "For every built-in serialisable type, deserialising what was serialised gives the same value and consumes exactly what was written, from any buffer and with any bytes following. Strings, numbers, units, system paths and unique actor paths write exactly as many bytes as their size hint announces. Serde-based serialisation round-trips arbitrary nested values in the same way.",
  ["inputs"], "all values of the supported types, including boundary and empty ones",
  "Tests use one sample value per type.",
  ["core/src/serialisation", "core/src/messaging/serialised.rs"],
  [("Serialisable/Deserialiser impls", "core/src/serialisation/*.rs")], ["serialise/deserialise"])
p("S02", "How a message is sent does not change what the receiver gets",
  "A network-capable message sent lazily, eagerly, pre-serialised or by plain local dispatch is received as an equal value with the same sender path, receiver path and type id. The receiver can obtain it by value or by deserialisation with the same result.",
  ["inputs", "programs"], "all payloads, sizes and sending modes",
  "Tests check each mode with one short message.",
  ["core/src/actors/paths.rs", "core/src/messaging/dispatch.rs", "core/src/messaging/net_message.rs", "core/src/serialisation/ser_helpers.rs"],
  [("DispatchData", "into_local / into_serialised"), ("preserialisation", "ser_helpers")], ["receive_network"])
p("S03", "Forwarding a message preserves its content, type and original sender",
  "A message forwarded any number of times, locally or onto the wire, reaches the final receiver with the original bytes, type id and sender. This holds whether the message came from a local send, from a pre-serialised buffer or from the network.",
  ["inputs", "programs"], "all payloads, chunk layouts and forwarding chains",
  "Tests forward one small message once.",
  ["core/src/messaging/net_message.rs", "core/src/serialisation/ser_helpers.rs", "core/src/net/buffers", "core/src/messaging/dispatch.rs"],
  [("embedding", "embed_msg"), ("chunk chaining", "ChunkLease/ChunkRef append_to_chain")], ["receive_network at the last hop"])
p("S04", "Deserialising as the wrong type fails cleanly and loses nothing",
  "Asking for a type other than the one sent returns an error that still contains the untouched message, so it can be tried as another type, and matching on several types always takes the arm of the sent type. A message is never handed out as a type it was not sent as.",
  ["inputs", "programs"], "all pairs of sent and requested types, boxed and serialised, and all arm orders",
  "Tests try one wrong type.",
  ["core/src/messaging/net_message.rs", "core/src/messaging/deser_macro.rs"],
  [("type id check", "NetMessage::try_deserialise / try_into_deserialised"), ("match_deser!", "core/src/messaging/deser_macro.rs")], ["try_deserialise results"])
p("S05", "Truncated or corrupted messages yield an error, never a panic",
  "Deserialising any truncated or damaged byte sequence as a network message or as a built-in type returns an error or some value, and never panics, reads outside its buffer or allocates without bound.",
  ["inputs", "fault_sequences"], "all prefixes and mutations of valid encodings and arbitrary bytes",
  "Tests deserialise only what was serialised correctly.",
  ["core/src/serialisation", "core/src/messaging/framing.rs", "core/src/serialisation/ser_helpers.rs"],
  [("bounds checks", "Deserialiser impls")], ["deserialise results"])
p("B01", "Encoded messages keep their bytes until they are released",
  "The bytes of every message encoded into a shared buffer stay exactly as written for as long as anyone holds the result, whatever is encoded afterwards and however messages straddle chunk boundaries. No two live messages ever share memory.",
  ["histories", "inputs", "configurations"], "all sequences of encodes and releases of any sizes, under all valid buffer configurations",
  "Tests encode a few messages with the default configuration and never exhaust the pool.",
  ["core/src/net/buffers/encode_buffer.rs", "core/src/net/buffers/buffer_pool.rs", "core/src/net/buffers/mod.rs"],
  [("chunk swap and padding", "BufferEncoder / EncodeBuffer"), ("leases", "ChunkLease")], ["lease contents"])
p("B02", "The buffer pool respects its limit and gets back every released chunk",
  "A buffer pool never holds more chunks than its configured maximum, and once all messages that used them are released the whole capacity is usable again, no matter which requests failed in between. A request that can be satisfied within the limit succeeds.",
  ["histories", "configurations"], "all sequences of reservations, encodes, failures and releases",
  "Tests check the happy path of one or two chunks.",
  ["core/src/net/buffers/buffer_pool.rs", "core/src/net/buffers/encode_buffer.rs"],
  [("pool accounting", "BufferPool pool_size / locked_chunks / drain_returned")], ["get_pool_sizes, encode results"])
p("B03", "Chunk chains behave like one contiguous byte sequence",
  "Reading a message held in one or several chunks, in any mix of partial reads, copies, skips, clones and chaining, yields exactly the bytes of the equivalent contiguous buffer, with a matching remaining length at every step. Splitting, cloning or appending never exposes bytes already consumed or belonging to another message.",
  ["histories", "inputs"], "all chain shapes and read sequences",
  "Tests read a chain of two chunks front to back.",
  ["core/src/net/buffers/chunk_lease.rs", "core/src/net/buffers/chunk_ref.rs"],
  [("Buf implementations", "ChunkLease, ChunkRef")], ["Buf API"])
p("B04", "Buffer settings are validated and take effect as configured",
  "Every buffer configuration given in code or in a configuration source is either rejected, because its values are inconsistent, or takes effect exactly as given. Missing values take their documented defaults.",
  ["configurations"], "all combinations of the buffer settings around their limits",
  "Tests read one configuration.",
  ["core/src/net/buffers/mod.rs"],
  [("validation", "BufferConfig::validate, from_config")], ["BufferConfig getters, pool sizes"])
p("F01", "Frame decoding is independent of how the byte stream was cut",
  "Feeding the bytes of any sequence of frames to the decoder in any fragmentation, with buffers swapped at any point, yields exactly that sequence of frames with their payloads. Nothing is dropped, duplicated or merged.",
  ["inputs", "schedules"], "all frame sequences, payload sizes, cut points and buffer swaps",
  "Tests feed whole frames.",
  ["core/src/net/buffers/decode_buffer.rs", "core/src/net/frames.rs"],
  [("frame extraction", "DecodeBuffer::get_frame, swap_buffer")], ["decoded frames"])
p("F02", "Arbitrary bytes never crash the frame decoder",
  "For every byte sequence received from a peer the frame decoder yields frames, asks for more data or reports an error, and never panics or loops. Damaged headers are reported as errors.",
  ["inputs", "fault_sequences"], "all byte sequences, in particular mutations of valid streams",
  "Tests never feed damaged bytes.",
  ["core/src/net/frames.rs", "core/src/net/buffers/decode_buffer.rs"],
  [("header validation", "FrameHead::decode_from, DecodeBuffer")], ["get_frame result"])
p("F03", "Every frame encodes to its announced length and decodes to itself",
  "Encoding any frame writes exactly its announced length, and decoding those bytes gives an equal frame with the same addresses, session and payload. Encoding always terminates.",
  ["inputs"], "all frame kinds, addresses and payload sizes",
  "Tests encode one instance of some frame kinds.",
  ["core/src/net/frames.rs"],
  [("FrameExt impls", "core/src/net/frames.rs")], ["encode_into / decode_from"])
p("F04", "Packed header fields never interfere with each other",
  "Storing any value in one field of a packed bit field and reading it back gives that value and leaves all other fields unchanged. Values that do not fit are handled as documented for every field position.",
  ["inputs"], "all field values and store orders",
  "Tests store a few values.",
  ["core/src/messaging/bitfields.rs", "core/src/messaging/framing.rs"],
  [("BitField", "core/src/messaging/bitfields.rs")], ["store/get"])
p("G01", "Configuration sources merge in order and lookups agree with the merged tree",
  "Loading several configuration sources is equivalent to overriding values key by key in load order, tables merging recursively. Every path lookup returns exactly the value at that path or an error naming what is missing or mistyped, never a panic.",
  ["inputs", "configurations"], "all configuration trees, source orders and paths",
  "Tests merge two fixed snippets.",
  ["core/src/config/mod.rs", "core/src/runtime/config.rs"],
  [("merge and traversal", "Config::merge, Config::select, ConfigLookup")], ["Config API"])
p("G02", "Typed settings convert faithfully and invalid ones are refused",
  "Writing any value of a typed setting into a configuration and reading it back gives the same value; a value of the wrong type or outside the setting's allowed range is refused with an error; a missing one yields the documented default. A system built from a configuration behaves as configured or fails to build.",
  ["inputs", "configurations"], "all values of all setting types and validators",
  "Tests convert one value per type.",
  ["core/src/config/converters_for_config_values.rs", "core/src/config/converters_for_other_types.rs", "core/src/config/mod.rs", "core/src/runtime/config.rs"],
  [("value converters", "ConfigValueType impls"), ("validators", "kompact_config!")], ["ConfigEntry::read, KompactConfig::build"])
p("N01", "Remote messages arrive intact, once and in order over TCP",
  "While a connection is up, messages sent from one actor to a remote actor arrive exactly once, unmodified and in sending order, for every message size, sending mode and buffer configuration that can hold the message. The sender path seen by the receiver can be used to answer.",
  ["inputs", "configurations", "schedules"], "all message sequences, sizes, modes and buffer configurations",
  "Tests exchange ping-pong messages of one size.",
  ["network/src/dispatcher.rs", "network/src/transport/network_channel.rs", "network/src/transport/network_thread.rs", "core/src/net/buffers"],
  [("channel write/read", "TcpChannel::try_drain, read_frame")], ["receive_network at the remote actor"])
p("N02", "Closing and re-opening connections neither loses nor reorders messages",
  "Messages sent before, during and after a graceful close of the connection arrive exactly once and in order on the re-established connection. Connection status reports alternate between established and closed or lost, each session with its own id.",
  ["histories", "schedules", "fault_sequences"], "all sequences of sends and disconnects on either side",
  "Tests disconnect once with no traffic in flight.",
  ["network/src/dispatcher.rs", "network/src/queue_manager.rs", "network/src/transport/network_thread.rs", "network/src/transport/network_channel.rs"],
  [("closing protocol", "Bye / ClosedAck"), ("retry queues", "QueueManager")], ["receive_network", "NetworkStatusPort"])
p("N03", "After an abrupt connection loss the peer still sees only whole, ordered frames",
  "When a peer drops the connection at any point of the stream and accepts a new one, every connection it sees starts with a clean handshake and carries only complete well-formed frames. Messages are delivered in sending order without duplicates beyond what was in flight at the loss.",
  ["crash_points", "fault_sequences"], "all cut points of the byte stream and reconnect sequences",
  "Tests kill a whole system at quiet moments.",
  ["network/src/transport/network_channel.rs", "network/src/transport/network_thread.rs", "network/src/dispatcher.rs"],
  [("rejected frame requeueing", "reject_outbound_for_channel, RejectedData")], ["raw TCP peer"])
p("N04", "A misbehaving peer cannot disturb traffic between other systems",
  "Whatever bytes an unrelated peer sends over TCP or UDP, messages between well-behaved systems keep being delivered intact and in order, and later connections still work. The system never stops serving because of malformed input.",
  ["inputs", "fault_sequences"], "all byte streams and datagrams from a hostile or broken peer, at any time",
  "Tests never send malformed data to a running system.",
  ["network/src/transport/network_thread.rs", "network/src/transport/udp_state.rs", "core/src/net/frames.rs", "core/src/serialisation/ser_helpers.rs"],
  [("error handling of reads", "NetworkThread::read_tcp, UdpState::try_read")], ["well-behaved pair's deliveries"])
p("N05", "Blocking and allowing systems and networks follows the last rules given",
  "After any sequence of block and allow requests, connections to and from a peer are possible exactly when the rules allow it, explicit rules for a system taking precedence over rules for addresses and networks. Traffic with other peers is unaffected.",
  ["histories", "configurations"], "all sequences of block/allow requests over systems, addresses and networks",
  "Tests issue one block and one allow.",
  ["network/src/transport/network_thread.rs", "network/src/dispatcher.rs"],
  [("rule set", "BlockList")], ["deliveries", "NetworkStatusPort"])
p("N06", "UDP messages arrive unmodified or not at all; one failure stops no others",
  "Every UDP message that arrives equals one that was sent, whatever its size, and messages that cannot be sent or decoded affect no later message. On an idle loopback link all messages below the datagram limit arrive.",
  ["inputs", "histories"], "all sequences of UDP messages including oversized and malformed ones",
  "Tests send a few short datagrams.",
  ["network/src/transport/udp_state.rs", "network/src/transport/network_thread.rs"],
  [("datagram queue", "UdpState::try_write/try_read")], ["receive_network"])
p("N07", "Connection limits hold and simultaneous connection attempts converge",
  "The number of open connections never exceeds the hard limit, and exceeding the soft limit closes the least recently used one without losing messages. Connections that ended no longer count, and whoever waits for one connects once there is room. When two systems connect to each other at the same time they end up communicating in both directions, with every message delivered once and in order.",
  ["schedules", "configurations"], "all limits and connection patterns",
  "Tests use one limit and fixed delays.",
  ["network/src/transport/network_thread.rs", "network/src/dispatcher.rs"],
  [("limits", "check_soft_connection_limit / check_hard_connection_limit"), ("merging", "handle_start")], ["NetworkStatusPort, deliveries"])
p("E01", "Typed and type-erased references to an actor are interchangeable",
  "Messages sent through any kind of reference to an actor, be it strong, weak, narrowed to a recipient or obtained from a type-erased component, are handled the same way and keep one common order per sender. References to a destroyed actor never fail or block the sender.",
  ["programs", "histories"], "all mixes of reference kinds and component states",
  "Tests send one message per reference kind.",
  ["core/src/actors/refs.rs", "core/src/actors/mod.rs", "core/src/component/mod.rs"],
  [("recipients", "Recipient, ActorRef::recipient"), ("erased creation", "create_erased")], ["receive_local"])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        if len(x["title"]) > 80: print("LONG", x["id"], x["title"])
        for a in x["anchors"]["files"]:
            if not os.path.exists("/repo/" + a): print("missing", x["id"], a)
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")
