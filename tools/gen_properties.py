#!/usr/bin/env python3
"""Writes /verif/properties.jsonl."""
import json, pathlib
P = []
L = "score/mw/com/impl/bindings/lola/"
I = "score/mw/com/impl/"
M = "score/message_passing/"
S = "score/memory/shared/"
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = [{"name": n, "meaning": m} for n, m in state]
    if observe:
        a["observe_at"] = observe
    if hook is not None:
        a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

SLOTFILES = [L + f for f in ("provider_event_data_control_local_view.cpp", "consumer_event_data_control_local_view.cpp",
             "event_data_control_composite.cpp", "slot_collector.cpp", "slot_decrementer.cpp", "event_slot_status.cpp")]
SCHED_WHY = ("The outcome depends on the interleaving of lock-free steps of independent processes; the unit tests run each "
             "class single-threaded or with a few uncontrolled threads, so they sample a handful of schedules.")

p("C01", "A held sample never changes and was completely written before it was seen",
  "A sample obtained by a consumer has exactly the content its provider sent under that publication, and this content does not change until the consumer gives the sample up, however many samples are sent, retrieved and released concurrently. "
  "A buffer handed to the provider for filling is not readable by any consumer, and is not handed out again, until it was sent or discarded. "
  "For consumers of the lower integrity level this holds as long as the provider has not cut them off for misbehaving.",
  ["schedules", "histories"], "every interleaving of provider and any number of consumers, any slot count, any history of send/discard/retrieve/release", SCHED_WHY,
  SLOTFILES + [L + "sample_ptr.h", L + "sample_allocatee_ptr.h", L + "skeleton_event_common.h"],
  [("slot status word CAS (reserve/publish/reference)", L + "provider_event_data_control_local_view.cpp"),
   ("composite allocation over both integrity levels", L + "event_data_control_composite.cpp")],
  [("slot status word", "timestamp and reference count, or being-written, or invalid")], "slot status words and payload reads/writes at every atomic step", False)

p("C02", "Retrieval delivers the newest available samples once, in order, without holes",
  "Each retrieval hands a consumer only samples that were sent and that are newer than everything it got before, in sending order and never twice, at most as many as requested. "
  "If more are available than requested the newest ones are chosen, and a sample that stayed available during the whole call and is newer than the oldest one delivered (or for which there was still room) is not left out. "
  "The reported number of new samples lies between the number available throughout the query and the number available at some moment in it.",
  ["schedules", "histories"], "every interleaving of concurrent sends/retrievals/releases and every history before a retrieval", SCHED_WHY,
  SLOTFILES, [("newest-first collection, in-order delivery", L + "slot_collector.cpp"),
              ("highest timestamp in range reference", L + "consumer_event_data_control_local_view.cpp")],
  [("last retrieved timestamp", "per consumer lower bound")], "return values of retrieval calls against the observed slot words", False)

p("C03", "Sample buffers are reclaimed exactly: none lost, none handed out while in use",
  "A provider asking for a buffer gets one that is neither being filled nor held by any consumer, preferring never-used or the oldest published one, and it gets one whenever some buffer stays free throughout the request. "
  "Releasing a sample gives up exactly one hold of the releasing consumer on exactly that buffer, so that once every consumer has released everything, every buffer is reusable again.",
  ["schedules", "histories"], "every interleaving of allocate/send/discard/retrieve/release with any slot count and any number of consumers", SCHED_WHY,
  SLOTFILES, [("oldest unused slot search", L + "provider_event_data_control_local_view.cpp"), ("dereference", L + "consumer_event_data_control_local_view.cpp")],
  [("slot status word", "reference count of each slot")], "slot words, allocate results", False)

p("C04", "Consumers of lower integrity cannot block or corrupt the safety path",
  "In a provider that serves consumers of two integrity levels, whatever holds the lower-integrity consumers keep, the provider still obtains a buffer whenever one stays free for the higher-integrity consumers, and higher-integrity consumers still receive every publication unmodified. "
  "The lower-integrity consumers are cut off only when no buffer was free for both levels, and once cut off they stay cut off and their bookkeeping is no longer touched by the provider.",
  ["schedules", "fault_sequences"], "every interleaving and every sequence of lower-integrity consumers holding samples forever", SCHED_WHY,
  [L + "event_data_control_composite.cpp", L + "skeleton_event_common.h", L + "provider_event_data_control_local_view.cpp"],
  [("multi-slot allocation, then single-level fallback", L + "event_data_control_composite.cpp"), ("disconnect flag", L + "skeleton_event_common.h")],
  [("lower-integrity ignored flag", "set once, never reset")], "slot words of both control blocks, allocate results", False)

p("C05", "A crashed consumer's holds and subscription are returned exactly once",
  "If a consumer process dies at any instruction while subscribing, retrieving, releasing or unsubscribing, then after it restarts and recovers, every hold and every subscription share it had is given back exactly once, and no hold or share of any other consumer is touched. "
  "If the recovery cannot decide whether an interrupted step took effect, it reports an error instead of guessing.",
  ["crash_points", "schedules", "histories"], "every crash point of a consumer operation, every interleaving with provider and other consumers",
  "The tests build a few hand-made log states; no test kills a consumer between two shared-memory writes and checks every buffer count afterwards.",
  [L + "transaction_log.cpp", L + "transaction_log_local_view.cpp", L + "transaction_log_set.cpp", L + "transaction_log_rollback_executor.cpp", L + "consumer_event_data_control_local_view.cpp", L + "subscription_helpers.cpp"],
  [("begin/commit/abort records around each shared change", L + "transaction_log_local_view.cpp"), ("rollback of marked logs", L + "transaction_log_set.cpp")],
  [("transaction log", "per-consumer record of subscription and per-slot transactions")], "slot words, subscription word and log after recovery", False)

p("C06", "Concurrently registering consumers never share a recovery log",
  "Whenever several consumer elements register, deregister and recover concurrently, every successfully registered element owns a recovery log no other live element uses, a registration fails only if no log stayed free throughout the attempt, and a deregistered log becomes available again. "
  "Recovery for one application only touches logs that were left behind under that application's identity.",
  ["schedules", "histories", "crash_points"], "every interleaving of register/deregister/mark/rollback by any number of consumer processes", SCHED_WHY,
  [L + "transaction_log_set.cpp", L + "transaction_log_registration_guard.cpp", L + "rollback_synchronization.h"],
  [("CAS on the log owner id", L + "transaction_log_set.cpp")], [("log owner id", "identity of the application using the log")], "registration results", False)

p("C07", "Accepted subscriptions never exceed the event's buffers or subscriber limit",
  "At every moment the number of accepted subscriptions and the sum of their sample counts stay within the event's configured limits. "
  "A refused subscription leaves nothing behind and is refused for the right reason, and ending a subscription returns exactly what it took, so that a subscription is only refused if the limits were really exceeded.",
  ["schedules", "inputs"], "every interleaving of subscribe/unsubscribe of any processes, all limits and sample counts", SCHED_WHY,
  [L + "event_subscription_control.cpp", L + "subscription_helpers.cpp"], [("packed counter CAS", L + "event_subscription_control.cpp")],
  [("subscription word", "number of subscribers and of subscribed slots")], "subscription word at every atomic step, subscribe results", False)

p("C08", "A provider may crash anywhere and restart without losing or inventing samples",
  "If the provider process dies at any instruction while allocating, filling, sending or discarding, then after its restart no buffer stays lost in the being-filled state, every sample sent before the crash that a consumer can see keeps its content and order, and new samples are newer than all earlier ones. "
  "Consumers of both integrity levels that stayed alive keep their held samples and continue to receive without error, and the restarted provider can send again.",
  ["crash_points", "schedules", "histories"], "every crash point of a provider operation at any history, with consumers active before, during and after",
  "The partial-restart component tests kill the provider at one or two coarse points; a crash between the two integrity levels' updates is never produced.",
  [L + "skeleton_memory_manager.cpp", L + "event_data_control_composite.cpp", L + "provider_event_data_control_local_view.cpp", L + "skeleton_event_common.h"],
  [("cleanup of slots left being written", L + "provider_event_data_control_local_view.cpp"), ("continuation from the latest timestamp", L + "skeleton_event_common.h")],
  [("slot words of both levels", "may differ after a crash")], "slot words and results after restart", False)

p("C09", "An application identity resolves to exactly one, current process",
  "Registering a process under an application identity never produces two entries for the same identity, returns the previously registered process if there was one, and afterwards the identity resolves to the new process, whichever other processes register concurrently and wherever one dies. "
  "Registration fails only if the table is full, and never disturbs the entries of other identities.",
  ["schedules", "histories"], "every interleaving of registrations by any number of processes with equal or distinct identities", SCHED_WHY,
  [L + "application_id_pid_mapping.cpp", L + "application_id_pid_mapping_entry.cpp"], [("slot claim by CAS and update", L + "application_id_pid_mapping.cpp")],
  [("mapping table", "entries unused/updating/used with identity and process")], "registration results and table content", False)

p("C10", "Subscription state follows the consumer's calls and the provider's presence",
  "A consumer's event is not subscribed, pending or subscribed exactly as determined by the sequence of its subscribe/unsubscribe calls and the provider's disappearing and reappearing: it becomes pending when the provider goes, subscribed again when it returns, and unsubscribed only on request. "
  "A repeated subscription is accepted only with the same sample count, a failed one leaves the state unchanged, and a state-change handler is told each change exactly once in order until it unsets itself.",
  ["histories", "schedules"], "every sequence and interleaving of subscribe, unsubscribe, provider stop/offer, re-offer and handler (un)set",
  "State-machine tests drive each edge once from a fixed start; sequences, reentrant handlers and races with the provider's disappearance are sampled at best.",
  [L + "subscription_state_machine.cpp", L + "subscription_not_subscribed_states.cpp", L + "subscription_subscribed_states.cpp", L + "subscription_subscription_pending_states.cpp"],
  [("state machine under lock", L + "subscription_state_machine.cpp")], [("current state", "NotSubscribed/Pending/Subscribed")], "public event state, results, handler invocations", False)

p("C11", "A consumer never holds more samples than it subscribed for",
  "At every moment the samples handed to the application and not yet released do not exceed the count given at subscription, across concurrent retrievals and releases, and the free count reported equals subscribed minus held when nothing is in flight. "
  "Giving up a sample, in any order and from any thread, makes exactly one more retrievable.",
  ["schedules", "histories"], "every interleaving of retrieval and release by the threads of a consumer", SCHED_WHY,
  [I + "sample_reference_tracker.cpp", I + "plumbing/sample_ptr.h", I + "proxy_event.h"], [("atomic guard accounting", I + "sample_reference_tracker.cpp")],
  [("available guard count", "samples that may still be retrieved")], "retrieval results and free counts", False)

p("M01", "Every message handed to a connection is delivered once, in order, or failed once",
  "On a client connection, one-way messages that were accepted arrive at the server exactly once and in acceptance order; every request with a reply gets its completion invoked exactly once, with the reply belonging to that request or with an error if the connection ended. "
  "No completion is lost, duplicated or swapped whatever the timing of sends, replies, notifications, disconnects and stop.",
  ["schedules", "fault_sequences", "histories"], "every interleaving of sending threads, engine, server replies and connection loss",
  "The tests mock the engine and step a few hand-written orders; races between senders, queue draining and stop are not enumerated.",
  [M + "client_connection.cpp", M + "client_connection.h"], [("waiting-for-reply flag and send queue", M + "client_connection.cpp")],
  [("send queue/pool", "commands waiting for the connection to be free")], "engine calls, callback invocations, send results", False)

p("M02", "A client connection follows its lifecycle and always comes to rest",
  "A connection moves Starting, Ready, Stopping, Stopped in this order only, tells each change once, retries connecting while the server is absent, stops with the reason that caused it, and can be restarted from Stopped. "
  "After stop (by user, peer, error or shutdown) it comes to rest without invoking anything afterwards, and destroying it waits for running callbacks and leaves none behind.",
  ["schedules", "fault_sequences", "histories"], "every sequence/interleaving of start, stop, restart, connect failures, disconnects and destruction",
  "Lifecycle tests cover a fixed list of orders with one thread.",
  [M + "client_connection.cpp"], [("state change under mutex, engine commands", M + "client_connection.cpp")],
  [("connection state", "Starting/Ready/Stopping/Stopped")], "state callback, GetState, engine calls", False)

p("M03", "Messages cross sockets unchanged; malformed input ends only its connection",
  "Every message within the agreed size limit that one side sends over a connection is received by the other side as the same kind with the same bytes, and one exceeding the limit is refused at the sender. "
  "Truncated, oversized or unknown input from a peer never leads to delivery of altered data, out-of-bounds access or termination; it ends that connection only, and other connections go on.",
  ["inputs", "fault_sequences", "histories"], "every message size and kind, every sequence of messages of several connections, every malformed byte stream",
  "Tests exchange a few fixed messages and no malformed frames.",
  [M + "unix_domain/unix_domain_engine.cpp", M + "unix_domain/unix_domain_server.cpp"], [("frame header with kind and size", M + "unix_domain/unix_domain_engine.cpp")],
  (), "bytes sent and received at the sockets, server callbacks", False)

p("M04", "Deferred engine commands run exactly once, when due, unless cleaned up",
  "A command deferred to a point in time runs exactly once, not before that time, and in order of due time (first in first out when equal), or not at all if its owner was cleaned up before; a cleanup is invoked once and after it no command of that owner runs.",
  ["histories", "schedules"], "every sequence of registering timed and immediate commands, cleanup and time steps, from several threads",
  "Unit tests use two or three fixed entries.", [M + "timed_command_queue.cpp", M + "timed_command_queue.h"], [("sorted intrusive list", M + "timed_command_queue.cpp")],
  (), "command invocations", False)

p("M05", "A waiting caller is woken exactly by its value",
  "A wait for a result returns exactly after the value was stored and yields the value stored, for every interleaving of storing and waiting, and the storage is not used any more after the waiter has returned.",
  ["schedules"], "every interleaving of setter and waiter", SCHED_WHY, [M + "non_allocating_future/non_allocating_future.h"],
  [("condition variable handshake", M + "non_allocating_future/non_allocating_future.h")], (), "return values, accesses after return", False)

p("S01", "Address bounds lookups return a region that contains the address, or nothing",
  "A lookup of the shared memory region around an address returns the bounds of a region registered at some moment of the lookup that contains the address, and nothing only if no such region stayed registered throughout; overlapping regions are refused without effect. "
  "This holds for concurrent lookups during registrations and removals, and registrations never become impossible because of finished lookups.",
  ["schedules", "histories"], "every interleaving of lookups with inserts/removes, every set of regions", SCHED_WHY,
  [S + "memory_region_map.cpp", S + "memory_resource_registry.cpp", S + "memory_region_bounds.h"], [("versioned copies with reference counts", S + "memory_region_map.cpp")],
  [("map versions", "copies of the region map and their reader counts")], "lookup results", False)

p("S02", "Relocatable pointers resolve to their object or are refused when out of bounds",
  "A relocatable pointer denotes the same object in every mapping of its region and wherever it is copied (inside the region, to the stack or to another region); arithmetic and conversions preserve this. "
  "Dereferencing one whose target is not completely inside its memory region is detected whenever checking is on, and is never reported for a target completely inside.",
  ["inputs", "histories"], "every location of pointer and target relative to the region, every copy/arithmetics sequence",
  "Tests use a few hand-picked addresses.", [S + "offset_ptr.h", S + "offset_ptr_bounds_check.cpp", S + "pointer_arithmetic_util.cpp"],
  [("offset plus copied-out base", S + "offset_ptr.h"), ("bounds check", S + "offset_ptr_bounds_check.cpp")], (), "resolved addresses, terminations", False)

p("S03", "A shared memory object is opened only fully initialised, created once",
  "When processes create, open or create-or-open the same shared memory object concurrently, at most one creates it, every other one gets the object of that creation and only after its initialisation was finished, and a process dying while initialising does not let others see a half-initialised object as valid. "
  "The object disappears by name exactly when it is removed, and a failed operation leaves neither mapping, descriptor nor lock behind.",
  ["schedules", "crash_points", "fault_sequences"], "every interleaving of creators and openers, every failing or killed system call",
  "Tests mock the system calls in one fixed order.", [S + "shared_memory_resource.cpp", S + "shared_memory_factory_impl.cpp", S + "lock_file.cpp"],
  [("lock file around creation", S + "shared_memory_resource.cpp")], (), "system calls and results", False)

p("S04", "File locks exclude each other and are released with their holder",
  "Of all processes contending for a lock file or file mutex at most one holds it exclusively (or any number shared) at any moment; an attempt without waiting fails only if somebody else holds a conflicting lock; the lock is free again when its holder releases it, and a file mutex also when its holder dies (the lock file of a dead holder stays until somebody removes it).",
  ["schedules", "crash_points", "fault_sequences"], "every interleaving of lock operations and every failing system call",
  "Tests mock flock and cover single calls.", [S + "lock_file.cpp", "score/memory/shared/flock/flock_mutex.cpp"],
  [("exclusive creation", S + "lock_file.cpp"), ("flock modes", S + "flock/flock_mutex.cpp")], (), "lock results", False)

p("S05", "Allocations in a shared region never overlap and never leave the region",
  "Every successful allocation from a shared region is aligned as requested, lies completely inside the region's payload area, and does not overlap any other one, also when several processes allocate concurrently; a request that does not fit fails and takes nothing.",
  ["schedules", "inputs"], "every sequence/interleaving of sizes and alignments, all region sizes", SCHED_WHY,
  [S + "shared_memory_resource.cpp"], [("bump allocation under interprocess lock", S + "shared_memory_resource.cpp")], (), "returned ranges", False)

p("D01", "Service searches see every offer and withdrawal, and nothing else",
  "A running search reports to its handler the set of matching instances currently offered: after the offers and withdrawals come to rest, the last report equals the offered set, each report differs from the previous, and instances not matching service, instance or quality are never reported. "
  "After a search was stopped its handler is not called any more, and several searches for overlapping targets do not influence each other.",
  ["histories", "schedules"], "every sequence/interleaving of offer, stop-offer, search start/stop and file event batches",
  "Tests play one or two fixed event sequences.",
  [L + "service_discovery/client/service_discovery_client.cpp", L + "service_discovery/flag_file_crawler.cpp", L + "service_discovery/known_instances_container.cpp"],
  [("flag files watched by inotify", L + "service_discovery/client/service_discovery_client.cpp")], (), "handler invocations", False)

p("D02", "Offer markers appear and disappear atomically with the offer, whatever fails",
  "An instance is findable exactly while it is offered: offering either makes it findable or fails without a trace, withdrawing removes it, and markers left by a crashed offerer are cleaned by the next offer of the same instance without touching markers of others.",
  ["fault_sequences", "crash_points"], "every failing file operation and every crash point in offering and withdrawing",
  "Tests mock the filesystem with single failures.", [L + "service_discovery/flag_file.cpp", L + "service_discovery/flag_file_crawler.cpp"],
  [("flag file creation/removal", L + "service_discovery/flag_file.cpp")], (), "files in the discovery directory", False)

p("L01", "An event update reaches every registered receiver and no deregistered one",
  "When an event is updated, every receive handler registered before for it, in the same or another process, is called after the update at least once, and handlers of other events are not called; "
  "after deregistration returned its handler is not called any more, and re-registration after a provider restart makes notifications arrive again.",
  ["schedules", "histories"], "every interleaving of notify/register/deregister, several processes, provider restarts",
  "Tests use mocked peers and single registrations.",
  [L + "messaging/message_passing_service_instance.cpp", L + "messaging/message_passing_client_cache.cpp"],
  [("handler and node registries", L + "messaging/message_passing_service_instance.cpp")], (), "handler invocations, messages sent", False)

p("L02", "A method call runs the handler once with its arguments and returns its result",
  "Each method call reaches the handler registered by the provider exactly once, with the caller's own arguments and the queue position it chose, and the caller gets the matching result or an error, never another call's. "
  "Calls are only served for consumers which subscribed in their current process incarnation, and not after unsubscribing or stopping the offer.",
  ["schedules", "histories", "fault_sequences"], "every interleaving of callers, subscriptions, restarts and stops",
  "Tests mock the transport.", [L + "messaging/message_passing_service_instance.cpp", L + "methods/type_erased_call_queue.cpp", L + "methods/offered_state_machine.cpp", L + "proxy_method.cpp"],
  [("call dispatch", L + "messaging/message_passing_service_instance.cpp")], (), "handler invocations and results", False)

p("L03", "A restarted provider reuses shared objects iff somebody still uses them",
  "On (re)offering, a provider reuses the existing shared objects exactly if some consumer still uses them, after cleaning what its crashed predecessor left, and otherwise replaces them by fresh ones; two providers can never offer the same instance at the same time. "
  "On withdrawing, the objects are removed exactly if no consumer uses them.",
  ["crash_points", "schedules", "histories"], "every order of offer/withdraw/crash of provider and connect/disconnect/crash of consumers",
  "Component tests play a few scripted restarts.", [L + "skeleton.cpp", L + "proxy.cpp", L + "skeleton_memory_manager.cpp"],
  [("existence marker and usage marker locks", L + "skeleton.cpp")], (), "shared objects by name", False)

p("T01", "Traced buffers are protected until the trace is done and freed exactly then",
  "A sample handed to tracing by reference stays unmodified until tracing reports completion and is freed exactly then; each element uses only its own share of tracing slots, and when none is free or tracing fails the sample is released at once. "
  "A completion for an unknown or already finished trace changes nothing.",
  ["schedules", "histories", "fault_sequences"], "every order of trace calls, completions, failures", "Tests cover single calls with mocks.",
  [I + "tracing/tracing_runtime.cpp", L + "tracing/tracing_runtime.cpp"], [("per element slot ranges", L + "tracing/tracing_runtime.cpp")], (), "trace calls, sample releases", False)

p("G01", "The gateway transport reassembles exactly the messages sent, from any stream",
  "Whatever way the byte stream is cut, the gateway's receiver gets exactly the messages sent, in order, provided each was accepted by the sender (text fields non-empty and without embedded NUL). A malformed or truncated stream is reported as an error, without crash, out-of-bounds access or delivery of a message that was not sent; nothing is sent when a message cannot be represented.",
  ["inputs", "fault_sequences"], "every message, every fragmentation, every malformed stream", "Tests use a few fixed frames.",
  ["score/mw/com/gateway/transport_layer/sample/message_framer.cpp", "score/mw/com/gateway/transport_layer/sample/messages/serialization.h"],
  [("length-prefixed frames", "score/mw/com/gateway/transport_layer/sample/message_framer.cpp")], (), "delivered messages", False)

p("G02", "Each gateway request is answered once by its own response or an error",
  "Each request sent over the gateway transport completes exactly once: with success if the response carrying its own identifier was received in time, after re-sending before it is given up, or with an error on time-out, send failure or loss of the connection; late, repeated or unknown responses change nothing. "
  "The peer's handler is called for each request it receives, one at a time and in order, and not after Shutdown returned. A lost connection is established again, and Shutdown always comes to an end.",
  ["schedules", "fault_sequences"], "every interleaving of requests, responses, time-outs and disconnects", "Tests cover single orders.",
  ["score/mw/com/gateway/transport_layer/sample/pending_request_tracker.cpp", "score/mw/com/gateway/transport_layer/sample/bidirectional_transport.cpp"],
  [("pending request table", "score/mw/com/gateway/transport_layer/sample/pending_request_tracker.cpp")], (), "request results", False)

out = pathlib.Path(__file__).resolve().parent.parent / "properties.jsonl"
out.write_text("".join(json.dumps(x) + "\n" for x in P))
for x in P:
    
    if len(x["title"]) > 80: print("LONG", x["id"], len(x["title"]))
    for f in x["anchors"]["files"]:
        if not (pathlib.Path("/repo") / f).exists(): print("missing", x["id"], f)
print(len(P))
