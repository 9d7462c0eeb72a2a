#!/usr/bin/env python3
"""Writes properties.jsonl from the table below (kept as code so that it is easy to review)."""
import json, os
P = []
def p(id, title, st, over, q, why, files, mech, state=None, obs=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if obs: a["observe_at"] = obs
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": st, "quantifier": {"over": over, "text": q},
              "why_tests_cant": why, "anchors": a})

p("P01", "Handler chains run in order and stop at the first error",
  "Executing an event's handler chain runs the before-handlers in order, then the main handler, then the after-handlers in order, each at most once and each with the same message. If one of them fails, nothing after it runs and the chain returns exactly that error; if none fails, all run and the chain reports success.",
  ["inputs"], "every number of before/after handlers and every pattern of handler outcomes",
  "Tests use chains with one handler and no failing middleware; the number of handlers and the position of a failure are unbounded.",
  ["core/actor/actor_chain.go"], [("chain execution loop", "core/actor/actor_chain.go Execute")])
p("P02", "Actor mailbox delivers every message exactly once and in order",
  "Whatever producers run concurrently with the single consumer, the mailbox hands out exactly the messages pushed, each once, in the order in which their pushes took effect (so one producer's messages keep their order), and never invents, duplicates or drops one. Whenever all pushes have returned and messages remain, the consumer's wake-up signal is pending, so no message is stranded.",
  ["schedules", "histories"], "every interleaving of any number of producers with one consumer",
  "Tests push a handful of messages under whatever schedule the runtime picks; lost wake-ups and lost nodes need a particular interleaving.",
  ["lib/mpsc/mpsc.go"], [("atomic head swap then link", "lib/mpsc/mpsc.go Push"), ("consumer pop", "lib/mpsc/mpsc.go Pop"), ("count and signal", "lib/mpsc/mpsc.go setCount")])
p("P03", "A mailbox accepts a message only when the actor may process it",
  "Delivering a message to an actor that originated it, or to an actor that has begun shutting down, fails with an error and has no effect at all: nothing is queued and the pending-work count does not change. Every other delivery succeeds, registers exactly one unit of pending work and queues that message exactly once, with the work registered before the message becomes visible to the consumer.",
  ["inputs", "histories"], "every message header, actor identity and lifecycle state",
  "Tests deliver to live actors only; the rejection paths and the order of counting and queueing are never observed.",
  ["core/actor/actor_runtime_impl.go"], [("self-call and closed checks, count then push", "core/actor/actor_runtime_impl.go Received")])
p("P04", "Each queued message is dispatched once and always marked complete",
  "For every message an actor takes from its mailbox, the handler chain registered for exactly that event runs once (none if no chain is registered) and the message's unit of pending work is released exactly once, whether the handler succeeds, fails or panics. A panic in a message handler or a timer callback never ends the actor: it goes on to the next message.",
  ["inputs", "histories"], "every message, handler outcome (value, error, panic) and history of the event loop",
  "Tests exercise handlers that succeed; a completion lost on a panic or error path only shows as a caller waiting for its timeout.",
  ["core/actor/actor_runtime_impl.go"], [("event loop", "core/actor/actor_runtime_impl.go update"), ("deferred recover and Done", "core/actor/actor_runtime_impl.go update")])
p("P05", "An event name keeps the first handler registered for it",
  "Registering a handler for an event that already has one is refused with an error and leaves every registration unchanged. Registering a new event succeeds, installs exactly the chain built by the given constructor for that event, and leaves all other events' handlers untouched.",
  ["inputs", "histories"], "every set of previously registered events and every new event name",
  "Tests register distinct events only.", ["core/actor/actor_runtime_impl.go"], [("duplicate check and insert", "core/actor/actor_runtime_impl.go OnEvent")])
p("P06", "A future completes once and runs every continuation exactly once",
  "The first completion of a future fixes its result; later completions change nothing. Every continuation attached to it, before or after completion, is started exactly once with that result and never before completion, and the future returned when attaching a continuation completes with the same result after that continuation has run.",
  ["schedules", "histories"], "every order and number of attach and complete operations, including attaching after completion",
  "The test attaches one continuation before completion; attaching after completion and completing twice depend on the schedule.",
  ["core/actor/actor_reenter_impl.go"], [("completion under the mutex", "core/actor/actor_reenter_impl.go Complete"), ("attach", "core/actor/actor_reenter_impl.go Then")])
p("P07", "A reentrant call makes one call and resolves with its outcome",
  "A reentrant call issues exactly one call, to the given target with the given request and event, without blocking the caller. When the call fails, the future resolves with the request wrapper carrying that error; when it succeeds, with the response the callee produced; and the outcome is applied on the calling actor's own event loop. If the request's context ends first, the future resolves with the context's error.",
  ["inputs", "schedules", "fault_sequences"], "every target, outcome of the call and order of call completion and context cancellation",
  "Tests have one success and one timeout case with fixed timing.",
  ["core/actor/actor_runtime_impl.go", "core/actor/actor_reenter_impl.go", "router/msg/msg.go"], [("reentrant call goroutines and callback", "core/actor/actor_runtime_impl.go ReenterCall"), ("request copy for the call", "router/msg/msg.go Swap")])
p("P08", "A blocking local call reports success only after the work is done",
  "A top-level blocking call to a local actor returns success only if all work registered for that message has been completed; it returns an error if the target refuses the message, if the caller's context ends first, or if the system's call timeout passes with work outstanding. A nested call (made while work is outstanding) only hands the message over and returns the target's verdict.",
  ["schedules", "fault_sequences"], "every handler duration, refusal, context deadline and timeout order",
  "Tests have fast handlers; the timeout and refusal paths depend on timing.",
  ["core/node/system_impl.go"], [("root detection, wait goroutine and select", "core/node/system_impl.go localCall")])
p("P09", "Calls and sends are routed to the addressed actor and delivered once at most",
  "A call or send with an empty target fails without effect. Otherwise the message header records the given event, target and type, and the message goes to exactly one place at most: the local actor with that id, or for 'prefer local' any local actor of that type, or for 'any' the actor the address book selects, and only if no such local actor exists to the node the address book names. When no target can be resolved the operation fails with an error and nothing is delivered, and a record that names this node for an actor that is not here is removed and reported as an error instead of being sent over the network.",
  ["inputs", "histories"], "every target id or symbol, type, set of local actors and address-book answer",
  "Tests cover one node with all targets present; unresolved, stale and remote records, and unknown actor types are not reached.",
  ["core/node/system_impl.go"], [("routing switch", "core/node/system_impl.go Call"), ("routing switch", "core/node/system_impl.go Send"), ("local-first search", "core/node/system_impl.go findLocalOrWildcardActor")])
p("P10", "Messages keep their original sender and record the latest hop",
  "When an actor calls another one, the message's origin id and type are set to the caller only if no origin was recorded yet and are never overwritten afterwards, while the previous-hop type is always set to the caller's type. The call is then passed on exactly once with the given target, type and event, and its result is returned unchanged; the same header rule holds for reentrant calls.",
  ["inputs"], "every prior header content and caller identity",
  "Tests never inspect the headers across more than one hop.",
  ["core/actor/actor_runtime_impl.go", "core/actor/actor_context_impl.go"], [("origin rule", "core/actor/actor_runtime_impl.go Call"), ("origin rule", "core/actor/actor_runtime_impl.go ReenterCall"), ("context forwarding", "core/actor/actor_context_impl.go")])
p("P11", "The node's RPC entry point hands each request to its target faithfully",
  "Each incoming routing request is turned into exactly one local call addressed by the target id, target type and event in its header and carrying the request message itself. The reply carries the response the call produced, and when the call fails the remote caller receives an error rather than an empty success.",
  ["inputs", "fault_sequences"], "every request and every outcome of the local call",
  "Tests run all actors in one node and never go through the acceptor with a failing call.",
  ["core/node/system_acceptor.go", "core/node/system_impl.go"], [("acceptor", "core/node/system_acceptor.go Routing"), ("remote call and send", "core/node/system_impl.go handleRemoteCall, handleRemoteSend")])
p("P12", "The address book reflects exactly the registered actors",
  "After a successful registration the actor is found by id and among its type with the registering node's address, and after a successful removal it is found by neither; no other actor's records change. A registration with an empty id or type, or of an id this node already holds, fails without changing anything, and a registration or removal that fails leaves the node's own view unchanged; lookups report an unknown id as unknown.",
  ["inputs", "histories", "fault_sequences"], "every sequence of registrations and removals on any contents of the store, with the store failing or not",
  "Tests run a few registrations against one empty in-memory store and never let it fail.",
  ["core/addressbook/addressbook_impl.go"], [("register pipeline", "core/addressbook/addressbook_impl.go Register"), ("unregister pipeline", "core/addressbook/addressbook_impl.go Unregister"), ("lookups", "core/addressbook/addressbook_impl.go GetByID, GetByType, GetActorTypeCount")])
p("P13", "Node weight accounts exactly for the actors registered on the node",
  "Registering an actor adds its weight once to the registering node's total and per-type weight; removing it subtracts the weight once from the node that the record belongs to. A refused registration or removal (an empty id or type, an id this node already holds, an id that is not registered) and every lookup leave all weights as they were, and no other node's weights change.",
  ["inputs", "histories", "fault_sequences"], "every weight, node, and sequence of operations",
  "Tests do not read the weights back after removal from another node.",
  ["core/addressbook/addressbook_impl.go"], [("HIncrBy in register and unregister pipelines", "core/addressbook/addressbook_impl.go Register, Unregister")])
p("P14", "Load-aware selection picks a least-loaded candidate",
  "Choosing an actor of a type for the 'any' target returns a candidate of that type whose node's recorded weight is minimal among the sampled candidates with a readable record and weight, and fails when there is none. Choosing a node for placement returns a registered node whose own recorded weight is minimal among the nodes with a readable weight.",
  ["inputs"], "every set of candidates, nodes and weights, in every iteration order",
  "Tests have one node or equal weights; pairing weights with the wrong node only shows for some map iteration orders.",
  ["core/addressbook/addressbook_impl.go"], [("min loop", "core/addressbook/addressbook_impl.go GetWildcardActor"), ("pipeline and min loop", "core/addressbook/addressbook_impl.go GetLowWeightNodeForActor")])
p("P15", "A node registers an actor only under its placement rules",
  "Registration fails, without constructing an actor or changing the node, when id or type is empty, when the id is already on the node, when the type is limited to one per node and one is present, or when its global limit is reached. Otherwise the address book is told first, the actor is constructed once and initialised once, and it becomes reachable under its id; if the address book refuses, no actor is constructed.",
  ["inputs", "histories", "schedules"], "every builder configuration, set of present actors, global count and concurrent registration",
  "Tests register each id once; the limits and the concurrent registration of one id are not tested.",
  ["core/node/system_impl.go"], [("registration", "core/node/system_impl.go Register")])
p("P16", "Unregistering an actor stops it once and forgets it everywhere",
  "Unregistering a present actor stops it exactly once and then removes it, and only it, from the node; the address-book record for that id is removed with the weight its type declares. An unknown type is reported as an error, and an id that is not on the node is only removed from the address book.",
  ["inputs", "histories"], "every id, type and set of present actors",
  "Tests unregister one actor once.", ["core/node/system_impl.go"], [("unregister", "core/node/system_impl.go Unregister")])
p("P17", "Clearing a node's records removes all of them and nothing else",
  "When a node leaves, after its records are cleared no id, type or node record in the address book refers to that node, and every record of every other node is exactly as before. The clearing runs under the node's distributed lock, which is released on every path, and does nothing if the lock is not obtained.",
  ["inputs", "fault_sequences"], "every content of the address book and every failing store operation",
  "The test clears a store that holds one node's records only.",
  ["core/addressbook/addressbook_impl.go"], [("clear", "core/addressbook/addressbook_impl.go Clear")])
p("P18", "Publishing appends exactly one entry to the topic",
  "Publishing an event to a topic appends exactly one entry, holding that event and that body unchanged, to that topic's stream, whether or not this node has a subscriber to it, and reports the store's error if it fails. Publishing without an event name fails and appends nothing.",
  ["inputs", "fault_sequences", "configurations"], "every topic, event and body, with or without local subscribers",
  "Tests publish to a topic that was subscribed on the same node first.",
  ["lib/pubsub/ps_topic.go", "core/node/system_impl.go", "lib/pubsub/ps_mgr.go"], [("append", "lib/pubsub/ps_topic.go Pub"), ("topic lookup", "core/node/system_impl.go Pub")])
p("P19", "Stream entries reach the subscriber once and are acknowledged only after",
  "Every entry a subscription reads is put into the subscriber's mailbox exactly once, in reading order, with the entry's id and event and its body unchanged and one unit of pending work registered. It is acknowledged and removed only after it is in the mailbox, and only that entry is.",
  ["inputs", "histories", "crash_points"], "every sequence of entries and every point at which the process stops",
  "Tests deliver one message; acknowledging before queueing only shows when the process stops in between.",
  ["lib/pubsub/ps_channel.go"], [("read loop", "lib/pubsub/ps_channel.go loop"), ("delivery loop", "lib/pubsub/ps_channel.go addHandlers")])
p("P20", "The unbounded buffer is a FIFO that loses nothing",
  "Items put into the unbounded buffer come out of its read side exactly once and in the order they were put, as long as the reader asks for the next item after each read. No put blocks, and an item is always available to read while any is stored.",
  ["histories", "schedules"], "every sequence of puts, reads and loads",
  "It has no test of its own.", ["lib/unbounded/unbounded.go"], [("put", "lib/unbounded/unbounded.go Put"), ("load", "lib/unbounded/unbounded.go Load")])
p("P21", "Adding custom fields keeps the fields already there",
  "Adding custom fields to a request or response yields a message whose custom fields are the previous ones, with the given keys set to the given values (the last one wins for a repeated key) and nothing else changed in the message. If existing fields cannot be decoded or the new ones cannot be encoded, the message carries an error and its custom data stays as it was.",
  ["inputs"], "every existing field set and list of fields",
  "Tests set fields once on an empty message.", ["router/msg/msg_custom_map.go"], [("merge", "router/msg/msg_custom_map.go WithReqCustomFields, WithResCustomFields")])
p("P22", "Typed field extraction returns the stored value or the zero value",
  "Reading a custom field as a given type returns the stored value when it has that type, the stored number converted to that type when an integer or 32-bit float type is asked for and the stored value is a number, and the type's zero value when the field is absent, of another kind or the message has no readable custom data. It never panics and does not change the message.",
  ["inputs"], "every key, stored value and requested numeric, string or boolean type",
  "Tests read one string and one int.", ["router/msg/msg_custom_map.go"], [("typed extraction", "router/msg/msg_custom_map.go GetReqCustomField, GetResCustomField")])
p("P23", "Messages are built and copied faithfully",
  "Building a message from a given header yields a request header equal to it in every field, and the builder's body and response setters store exactly what they are given. The copy used for a reentrant call carries the same request, response and serialisation settings but its own empty work counter, and a message built from a context with a work counter shares that counter.",
  ["inputs"], "every header, body and context",
  "Tests check one or two header fields.", ["router/msg/msg.go"], [("builder", "router/msg/msg.go WithReqHeader, NewBuilder"), ("copy", "router/msg/msg.go Swap")])
p("P24", "Tokens parse back to the identity they were created for",
  "A token is created for every non-empty identity, and only for those; parsing a string succeeds only if the string is a validly signed token under the service's key whose identity is non-empty, and returns exactly the identity it carries. Every created token for an identity made of valid text parses back to that identity.",
  ["inputs"], "every identity and every presented string", "The test makes one round trip with one identity.",
  ["lib/token/token.go"], [("create and parse", "lib/token/token.go Create, Parse")])
p("P25", "Error codes survive wrapping and compare by code",
  "Two error codes are equal exactly when their numeric codes are, with a missing code counting as success; the code of an error is that of the code it wraps at its root, success for no error, and the generic failure code carrying the error's text otherwise. Business codes can only be created with a positive number.",
  ["inputs"], "every code, error and wrapping depth", "It has no tests.",
  ["lib/errcode/errcode.go"], [("equality and cause", "lib/errcode/errcode.go Cause, Equal, EqualError, String, New")])
p("P26", "The RPC client bounds concurrent calls and never leaks a slot",
  "Each bounded call (Call) takes one of the configured number of slots before it touches the network and gives it back exactly once on every path, success, error or panic; when no slot is free and the caller's context ends, it fails without invoking anything. Every call, bounded or not (CallWait), invokes the remote method at most once and exactly once when it reports success, with the given method, arguments and options on the connection for the given address, and an invocation's error is reported.",
  ["inputs", "fault_sequences", "schedules"], "every outcome of connecting and invoking, every option list",
  "Tests make a few calls against a healthy server; a leaked slot shows only after about a thousand failures.",
  ["lib/grpc/client.go"], [("worker slots", "lib/grpc/client.go Call"), ("call with connection creation", "lib/grpc/client.go CallWait")])
p("P27", "The distributed lock is granted only when free and released only by its owner",
  "Acquiring the distributed lock succeeds only if this attempt atomically created the lock entry with a fresh owner value and the configured expiry, and returns that value; otherwise it fails after a bounded number of attempts and leaves the existing entry alone. Releasing removes the entry exactly when it holds the caller's value, and reports success exactly then.",
  ["inputs", "fault_sequences", "histories"], "every prior lock state, token, owner value and store failure",
  "It has no test of its own.", ["lib/dismutex/dismutex.go"], [("SetNX with retries", "lib/dismutex/dismutex.go Lock"), ("compare-and-delete script", "lib/dismutex/dismutex.go Unlock")])
p("P28", "Actor timers keep their schedule state and cancel safely",
  "A new timer is active with the given interval and runs its callback with the given argument, handing back the callback's result. Stopping or cancelling a timer is safe at any time, makes it inactive and reports true only for the call that stopped it; resetting with a positive interval makes it active with that interval and resetting without any positive interval is refused without effect; an interval of zero never crashes the process. A started timer triggers its callback first after its due time and then at most once per tick of its ticker, never while it is inactive, and its goroutine ends when the actor shuts down; shutting down stops every timer of the actor.",
  ["inputs", "histories"], "every due time and interval (zero included) and every order of start, stop, reset and cancel",
  "Timer tests use positive values and cancel after the first tick (and fail at the pinned commit).",
  ["core/actor/actor_timer.go", "core/actor/actor_runtime_impl.go"], [("timer object", "core/actor/actor_timer.go"), ("timer goroutine", "core/actor/actor_runtime_impl.go OnTimer")])
p("P29", "Version upgrades visit the next registered version",
  "Asking for the version after a given one returns the smallest registered version greater than it, or the same version when there is none, whatever the order of registration. Looking up a strategy returns the first one registered for exactly that version, or a not-found error when there is none.",
  ["inputs", "histories"], "every list of registered strategies and every version", "It has no tests.",
  ["core/entity.go"], [("version list search", "core/entity.go GetNextVersion, GetVerStrategy")])
p("P30", "The store convenience layer runs exactly the command it names",
  "Each helper of the store layer issues exactly one store command of its own name, with the caller's arguments unchanged and in order, and hands back that command's reply and error unchanged. Collecting replies of a batch returns all of them in order, or an error if any of them failed.",
  ["inputs", "fault_sequences"], "every argument and every reply", "Only the helpers other tests happen to use are exercised.",
  ["3rd/redis/client.go", "3rd/redis/client_utils.go"], [("wrappers", "3rd/redis/client.go"), ("batch collection", "3rd/redis/client_utils.go GetCmdsByteSlice")])
p("P31", "Tracing never changes the outcome of a call",
  "With tracing on, an outgoing or incoming RPC invokes the real operation exactly once with the caller's request, target and options and returns its result and error unchanged, even when the trace context cannot be injected or extracted; every span started is finished exactly once. Starting a call span without a valid context and finishing one that was never started are harmless.",
  ["inputs", "fault_sequences"], "every incoming context, and every outcome of injection, extraction and of the operation", "Tests run without tracing.",
  ["lib/span/span_grpc.go", "lib/span/span_call.go"], [("interceptors", "lib/span/span_grpc.go ClientInterceptor, ServerInterceptor"), ("call span", "lib/span/span_call.go")])
p("P32", "Shared registries are only touched under their lock",
  "The node's table of actors, the address book's table of local ids, the table of topics and the subscriptions of a topic, a future's state and the version list can be read and changed from any goroutine without a data race: each access holds the table's lock, writes hold it exclusively, and every lock taken is released on every path.",
  ["schedules"], "every interleaving of the public operations", "Tests run few operations concurrently and without the race detector.",
  ["core/node/system_impl.go", "core/addressbook/addressbook_impl.go", "lib/pubsub/ps_mgr.go", "lib/pubsub/ps_topic.go", "core/actor/actor_reenter_impl.go", "core/entity.go", "lib/unbounded/unbounded.go"], [("embedded mutexes", "core/node/system_impl.go NormalSystem"), ("monitor", "core/addressbook/addressbook_impl.go AddressBook")])
p("P33", "File helpers store and name exactly what they are asked to",
  "After a successful JSON or data write the file holds exactly the bytes given, whatever it held before. The extension helper returns the text from the last dot of the name on and the real-name helper the text before it, both empty when there is no dot.",
  ["inputs"], "every name, content and previous content", "They have no tests.", ["utils/file/file.go"], [("writers", "utils/file/file.go SaveFile, WriteJSON"), ("name helpers", "utils/file/file.go GetFileExt, GetFileRealName")])
p("P34", "Options set on one actor builder stay on that builder",
  "Setting an option on an actor builder makes exactly that option readable from that builder and keeps its other options. It never changes the options of the actor type's template or of any other builder, and works on a template without options.",
  ["inputs", "histories"], "every template and sequence of option settings on several builders", "Tests use one builder per type.",
  ["core/actor/actor_build_impl.go"], [("option setter", "core/actor/actor_build_impl.go WithOpt")])
p("P35", "Configuration options take effect exactly as given",
  "Each configuration option of the node, the RPC client, the RPC server, pub/sub and tracing changes exactly the setting it names to exactly the given value (list options append in order) and nothing else. Options not given keep their documented defaults.",
  ["configurations"], "every option value and every prior configuration", "Tests use the defaults.",
  ["core/node.go", "lib/grpc/client_opt.go", "lib/grpc/server_opt.go", "lib/pubsub/ps_opts.go", "lib/tracer/opts.go"], [("option functions", "core/node.go"), ("option functions", "lib/grpc/client_opt.go")])
p("P36", "The work counter always equals outstanding work",
  "The message's work counter equals units added minus units completed, and waiting on it returns only when that is zero; the readable count never lags behind a completed add or done.",
  ["schedules", "histories"], "every sequence and interleaving of add, done, wait and count", "Tests only see it through finished calls.",
  ["lib/warpwaitgroup/warpwaitgroup.go"], [("counter kept with the wait group", "lib/warpwaitgroup/warpwaitgroup.go")])
p("P37", "A topic name maps to one topic for the life of the node",
  "Asking for a topic returns the same topic object every time, also when several callers ask for a new name at once, and creating one topic never affects another. A topic's stream is initialised at most once and, when a lifetime (in whole seconds, the store's resolution) is given for a new topic, exactly that lifetime is set on it.",
  ["schedules", "inputs"], "every set of existing topics and every interleaving of requests for a name", "Tests create each topic once from one goroutine.",
  ["lib/pubsub/ps_mgr.go", "lib/pubsub/ps_topic.go"], [("double-checked creation", "lib/pubsub/ps_mgr.go CreateTopic, GetOrCreateTopic"), ("stream initialisation", "lib/pubsub/ps_topic.go newTopic")])
p("P38", "Every subscription group of a topic receives every message",
  "When several actors subscribe to the same topic under different channels, each of them receives every message published after it subscribed, independently of how fast the others consume.",
  ["schedules", "histories"], "every number of groups and every relative speed", "The test has one subscriber.",
  ["lib/pubsub/ps_channel.go"], [("ack and delete after delivery", "lib/pubsub/ps_channel.go addHandlers")])
p("P39", "Shutdown drains the work already accepted",
  "A node told to shut down stops its acceptor, then tells each of its actors to exit, once, and returns when all have exited or the shutdown limit has passed. An actor told to exit refuses new messages and reports closed only when every message it accepted has been handled and no handler runs, or its own limit has passed.",
  ["schedules", "histories"], "every queue content and handler duration", "Shutdown is not tested.",
  ["core/actor/actor_runtime_impl.go", "core/node/system_impl.go", "core/node/node_process_impl.go", "core/node/system_acceptor.go", "lib/grpc/server.go"], [("close protocol", "core/actor/actor_runtime_impl.go update, Received, Exit"), ("node shutdown", "core/node/system_impl.go Exit, Actors; core/node/node_process_impl.go WaitClose")])
p("P40", "An actor id is unique across the cluster",
  "At any time at most one node holds a given actor id: of several nodes that register the same id concurrently, at most one succeeds until it is removed.",
  ["schedules", "histories", "crash_points"], "every interleaving of registrations on different nodes", "Tests run one node.",
  ["core/addressbook/addressbook_impl.go"], [("register pipeline", "core/addressbook/addressbook_impl.go Register")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P), "properties")
