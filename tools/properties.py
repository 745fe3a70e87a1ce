#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single place the property texts are edited)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=list(observe), hook_needed=hook)))

SD = "include/stdexec/__detail/"
EX = "include/exec/"
NOTEST = "The stable tests only compile headers one by one; the unit tests that exist sample a handful of schedules on a free-running machine. "

p("P01", "Stop requests and stop callbacks",
  "For one stop source, exactly one stop request reports that it was the first, and every callback that is registered before or concurrently with that request and not deregistered before it runs exactly once; a callback registered after the request runs inside its own registration, on the registering thread. Destroying a callback from another thread waits for a running invocation to finish, destroying it from inside its own invocation does not deadlock, and after destruction the callback never runs. Tokens always report whether stop was requested, and everything written before a successful stop request is visible to the callbacks it runs and to threads that observe the request.",
  ["schedules", "inputs"], "every interleaving of threads that register, deregister and request stop on one source, including callbacks that deregister themselves or others",
  NOTEST + "A race between the last instruction of a callback and its deregistration is a window of a few instructions.",
  ["include/stdexec/stop_token.hpp", SD + "__stop_token.hpp"],
  [("locked state word, callback list, notifying-thread and removed-during-callback handshake", "inplace_stop_source::request_stop, __try_add_callback_, __remove_callback_")],
  [("source state", "stop-requested flag plus lock bit and list of callbacks", "include/stdexec/stop_token.hpp")],
  ["callback invocations", "return values of request_stop", "return of the callback destructor"])

p("P02", "run_loop executes every scheduled operation once, in order, until finished",
  "Every operation whose start precedes the finish request of a run loop, or that is started by the loop's own tasks before run() returns, is completed exactly once, on a thread that is inside run(), with a value (or with stopped if its receiver's stop token was already stopped when it executes), and operations scheduled by one thread execute in the order they were started. run() returns only after finish() was called and every operation enqueued before it returned has executed; it never misses a wake-up, and neither the loop nor an operation is accessed after its owner was told it is done.",
  ["schedules", "histories"], "every interleaving of up to 2 producers, a finisher and a runner; every program of pushes and finish up to the stated depth",
  NOTEST + "Lost wake-ups and drops at shutdown need one particular ordering between the last push, finish and the consumer going to sleep.",
  [SD + "__run_loop.hpp", SD + "__atomic_intrusive_queue.hpp"],
  [("lock-free submission queue plus finishing flag", "run_loop::run / finish / push")],
  [("task queue", "operations not yet executed", SD + "__run_loop.hpp")],
  ["completion of scheduled operations", "return of run()"])

p("P03", "sync_wait returns the result of the work, once, and only when it is over",
  "sync_wait blocks until the sender completed and then returns exactly the sender's values, an empty optional if it was stopped, or throws exactly the error it completed with (error codes as system_error, exception pointers rethrown); the variant form selects the alternative that completed. Work that the sender schedules on the delegation/loop scheduler of its environment runs on the waiting thread while it waits, and after sync_wait returned no thread touches its internal state.",
  ["schedules", "inputs"], "every completion kind (values of 0..2 arguments, error_code, exception_ptr, custom error, stopped) from the waiting thread or from another one at any point of the wait",
  NOTEST + "The completing thread still holds a reference to the waiter's stack frame while the waiter wakes up.",
  [SD + "__sync_wait.hpp", SD + "__run_loop.hpp"],
  [("state on the caller's stack + run_loop finished by the completion", "__sync_wait::__state, __receiver")], (), ["return value / exception of sync_wait", "thread ids of delegated work"])

p("P04", "when_all completes once, after all children, with the combined result",
  "when_all (and its variant and transferring forms) completes exactly once and only after every child that was started completed; with all children's values in argument order if all succeeded, otherwise with the first error, or stopped if no child failed and one was stopped. As soon as one child completes with error or stopped, or the parent requests stop, every child sees a stop request; a stop request never causes a second completion or touches the operation after it completed.",
  ["schedules", "inputs"], "all combinations of completion kinds of 0..3 children, completing inline or from different threads, with and without a concurrent stop request from the parent",
  NOTEST + "The tests complete children one after another from one thread.",
  [SD + "__when_all.hpp"],
  [("atomic child count, atomic disposition, owned stop source and parent stop callback", "__when_all::__state::__arrive / __complete / __forward_stop_request")],
  [("count", "children (and stop forwarding) still outstanding", SD + "__when_all.hpp"), ("disposition", "started / error / stopped, decided once", SD + "__when_all.hpp")],
  ["receiver of when_all", "stop token seen by the children"])

p("P05", "when_any completes once, after all children, with the first result",
  "when_any completes exactly once and only after every child completed; the result is that of the first child to complete, whatever its kind (or stopped, if the parent's stop token was triggered before the last child completed). The first completion, or a stop request from the parent, requests stop on all children; a stop request never causes a second completion or touches the operation after it completed.",
  ["schedules", "inputs"], "all combinations of completion kinds of 1..3 children, completing inline or from different threads, with and without a concurrent stop request from the parent",
  NOTEST + "Which child is first is a race by design.",
  [EX + "when_any.hpp"], [("atomic first-wins flag and child count", "__when_any::__op_base::notify / complete")], (), ["receiver of when_any", "stop token seen by the children"])

p("P06", "split and ensure_started share one run of the source among all consumers",
  "The source of a split sender is started at most once, by the first consumer; ensure_started starts it immediately; every consumer that starts is completed exactly once with the source's result (as const references for split, moved for ensure_started), whether it arrives before, during or after the source's completion, or with stopped if it asked to stop first. When every consumer and handle is gone or asked to stop before the source completed, the source is asked to stop, and the shared state is freed exactly once after the last user.",
  ["schedules", "inputs"], "every interleaving of 2 consumers that start / stop / drop their handles with the source completing on its own thread, for each completion kind",
  NOTEST + "Consumer registration, completion and detachment race on one waiter list.",
  [EX + "detail/shared.hpp", EX + "split.hpp", EX + "ensure_started.hpp"],
  [("waiter list exchanged with a 'completed' tombstone, reference count, stop source of the shared state", "__shared::__shared_state")], (), ["receivers of the consumers", "stop token seen by the source"])

p("P07", "Completions happen on the scheduler that was asked for",
  "continues_on / schedule_from / transfer deliver every completion of their source, of any kind and with its values intact, on an execution agent of the target scheduler; starts_on starts its sender there; on(sched, work) runs the work there and completes back on the scheduler it was started on, and on(sender, sched, closure) runs only the closure there. If the transition itself fails or is stopped, that outcome is delivered instead and nothing is delivered twice or lost.",
  ["schedules", "inputs"], "all nestings (depth up to 3) of the transition adaptors over two contexts driven by different threads, for all completion kinds of the source and all outcomes of the schedule operations",
  NOTEST + "A result delivered on the wrong thread is still the right value, which the value-only tests cannot see.",
  [SD + "__continues_on.hpp", SD + "__schedule_from.hpp", SD + "__starts_on.hpp", SD + "__on.hpp", SD + "__affine.hpp", EX + "reschedule.hpp", EX + "on.hpp"],
  [("results stored and replayed after the schedule operation", "__continues_on / __schedule_from"), ("rewrites of on/starts_on", "__on.hpp, __starts_on.hpp")], (), ["thread on which each callable and receiver runs"])

p("P08", "then, upon_* and let_* act on their own channel and forward the others",
  "then / upon_error / upon_stopped apply their function exactly once to the completion of their own channel and complete with its result, let_value / let_error / let_stopped start the sender their function returns with the completion's values kept alive until that sender completes, and completions on the other channels pass through unchanged. If the function, or storing the values, throws, the operation completes with that exception as error; in all cases exactly one completion is delivered.",
  ["inputs", "programs"], "all pipelines up to depth 3 of these adaptors over sources completing on every channel, inline or from another thread, with every choice of functions that return, throw, or return senders of each kind",
  NOTEST + "Sample tests cover each adaptor alone with a couple of values.",
  [SD + "__then.hpp", SD + "__upon_error.hpp", SD + "__upon_stopped.hpp", SD + "__let.hpp", SD + "__just.hpp", EX + "just_from.hpp"],
  [("completion dispatch by channel tag; set_error from catch", "__then / __let")], (), ["receiver of the pipeline", "arguments seen by the functions"])

p("P09", "bulk visits every index exactly once",
  "bulk, bulk_chunked and bulk_unchunked invoke the function over every index of the shape exactly once (for chunked: over disjoint ranges that cover it), with references to the predecessor's values, and then complete with those values; the predecessor's error and stopped completions skip the function. If an invocation throws, the operation completes with an error. On a thread pool or parallel scheduler the same holds, with the invocations spread over its threads and all of them finished before the completion is delivered.",
  ["schedules", "inputs"], "all shapes 0..6 (sequential), pools of 1..2 threads, every throwing index, every interleaving of the workers within the bound",
  NOTEST + "Partitioning errors appear only for particular shape/thread-count pairs; completion races need particular schedules.",
  [SD + "__bulk.hpp", EX + "static_thread_pool.hpp", EX + "thread_pool_base.hpp", SD + "__parallel_scheduler_default_impl.hpp"],
  [("even-share partition, countdown of finished workers, first exception kept", "static_thread_pool::bulk, __bulk")], (), ["multiset of visited indices", "receiver"])

p("P10", "Result-reshaping adaptors are faithful",
  "into_variant, into_tuple, stopped_as_optional, stopped_as_error, materialize/dematerialize, finally, sequence, unless_stop_requested, variant_sender and create deliver exactly one completion that is the documented function of the child's completion: no value, error or stopped signal is lost, duplicated, swapped or moved to another channel. finally and sequence run their stages in order: once its first sender completed, finally runs its cleanup exactly once (also when the result cannot be stored) and then delivers the original result unless the cleanup fails or is stopped; sequence runs each sender only after the previous one succeeded and stops at the first failure.",
  ["inputs", "programs"], "all completion kinds of every child, inline or asynchronous, stop requested before or not, for all compositions up to depth 2",
  NOTEST + "Tests pick single examples per adaptor.",
  [SD + "__into_variant.hpp", EX + "into_tuple.hpp", SD + "__stopped_as_optional.hpp", SD + "__stopped_as_error.hpp", EX + "materialize.hpp", SD + "__finally.hpp", SD + "__sequence.hpp", EX + "unless_stop_requested.hpp", EX + "variant_sender.hpp", EX + "create.hpp"],
  [("per-adaptor receivers mapping channels", "the files above")], (), ["receiver of the adaptor"])

p("P11", "Repetition adaptors run the right number of fresh iterations",
  "repeat_n(k) runs its child exactly k times one after the other, repeat_until runs it until it yields true, repeat runs it until it is stopped or fails; a stop request ends a repetition before its next iteration; each iteration is a freshly connected operation started only after the previous one completed and was destroyed, an error or stopped completion ends the loop at once with that completion, and exactly one completion is delivered. Inline iterations do not grow the stack.",
  ["inputs", "schedules"], "k and the iteration of termination in 0..4, each iteration completing inline or on another thread, on each channel",
  NOTEST + "Inline and asynchronous completion take different paths, and the re-entrancy handshake between start() returning and completion is a race.",
  [EX + "repeat_n.hpp", EX + "repeat_until.hpp", EX + "repeat_effect_until.hpp"], [("re-connect and restart of the child operation", "__repeat_n / __repeat_until states")], (), ["number and overlap of child operations", "receiver"])

p("P12", "Counting scopes track associations and join exactly when the last one ends",
  "A (simple_)counting_scope admits new associations while it is open and none after it was closed or joined; every join operation completes exactly once, only when no association remains (inline if there is none when it starts, otherwise on its receiver's scheduler), and no association can begin afterwards. A stop request on a counting_scope reaches every associated operation, and associate/nest either ties the sender's whole lifetime to the scope or, if refused, completes with stopped and never starts it.",
  ["schedules", "histories"], "every sequence (to depth 4) of open/close/associate/disassociate/join/request_stop against a reference state machine and every interleaving of 2 users with a closer and a joiner",
  NOTEST + "Joining while the last association leaves is a narrow race.",
  [SD + "__counting_scopes.hpp", SD + "__associate.hpp", SD + "__scope_concepts.hpp"],
  [("count and state packed in one atomic word; list of waiting joiners", "__counting_scopes")], [("scope state", "unused, open, open-joining, closed, unused-and-closed, joined", SD + "__counting_scopes.hpp")], ["join completions", "associate results", "started operations"])

p("P13", "spawn and spawn_future run the work once and account for it",
  "A spawned sender that its scope admits is started exactly once and its memory is returned to the allocator exactly once, after it completed and before the scope's join completes; if refused it is never started. The future returned by spawn_future completes exactly once with the spawned result (stopped if refused), no matter whether it is started before, during or after the work completes; dropping the future unstarted, or stopping it, asks the work to stop, and the future then completes without waiting forever.",
  ["schedules", "inputs"], "every interleaving of the work completing, the future being started, stopped or dropped, and the scope being closed/joined, for every completion kind",
  NOTEST + "Completion, abandonment and consumption race on one state word.",
  [SD + "__spawn.hpp", SD + "__spawn_common.hpp", SD + "__spawn_future.hpp"],
  [("atomic consumer state exchanged between producer and consumer", "__spawn_future state")], (), ["receiver of the future", "allocator balance", "join completion"])

p("P14", "exec::async_scope waits for all nested and spawned work",
  "on_empty()/when_empty completes exactly once and only at a moment when no nested or spawned work of the scope is running; every waiter is completed; spawned work runs exactly once, spawn_future's future delivers its result exactly once even when it is dropped or stopped concurrently, and a stop request on the scope reaches all its work.",
  ["schedules", "inputs"], "every interleaving of up to 2 pieces of work, a waiter and a stop requester, for every completion kind",
  NOTEST + "The unit tests complete work sequentially.",
  [EX + "async_scope.hpp"], [("active count and waiter list under a mutex; future state machine", "async_scope.hpp __impl, __future_state")], (), ["when_empty completions", "futures", "stop tokens"])

p("P15", "Senders and coroutines interoperate without loss",
  "co_await of a sender resumes the coroutine exactly once with the value, throws exactly the error, or unwinds the coroutine as stopped (destroying its locals) — also when the sender completes inline or concurrently with the suspension — and a coroutine used as a sender completes exactly once with its return value, exception or stopped. Frames and locals are destroyed exactly once, tasks resume on the scheduler they are affine to, and actions registered to run at coroutine exit run exactly once, in reverse order, before the awaiter continues.",
  ["schedules", "inputs"], "all completion kinds, inline or from another thread at any point relative to suspension, task nesting up to depth 3, with and without a stop request",
  NOTEST + "Inline-completion detection is a race between await_suspend and the completion.",
  [SD + "__as_awaitable.hpp", SD + "__connect_awaitable.hpp", SD + "__with_awaitable_senders.hpp", SD + "__task.hpp", EX + "task.hpp", EX + "at_coroutine_exit.hpp", EX + "on_coro_disposition.hpp", "include/stdexec/coroutine.hpp"],
  [("inline-completion handshake, continuation and stopped handler chains", "__as_awaitable.hpp, __connect_awaitable.hpp, __task.hpp")], (), ["values returned by co_await", "receivers", "destructor order"])

p("P16", "The static thread pool runs every task once and never loses a wake-up",
  "Every operation started on a static_thread_pool that is not being destroyed is executed exactly once, on one of the pool's threads, or completes with stopped if its stop token is already stopped; a task enqueued while workers go to sleep is still picked up, tasks started from inside and outside the pool alike. Destroying the pool, after all operations completed, terminates and joins all workers.",
  ["schedules"], "pools of 1..2 threads, up to 3 operations from 1..2 submitters, every interleaving within the bound, spurious wake-ups included",
  NOTEST + "Sleep/notify hand-offs, stealing and remote queues are raced only by chance.",
  [EX + "static_thread_pool.hpp", EX + "detail/atomic_intrusive_queue.hpp"],
  [("per-thread state word, remote queues, work stealing, sleep protocol under mutex/condvar", "static_thread_pool_::thread_state")], (), ["completion threads", "termination of the destructor"])

p("P17", "The work-stealing LIFO queue neither loses nor duplicates items",
  "Every item pushed on the block-based work-stealing queue is handed out exactly once, either to the owner (newest first, from the owner's side) or to a thief, with everything written before the push visible to whoever gets it; push reports failure only when the block it would have to reuse still holds an item, pop reports empty only when the owner has no item left, and steal only when no item outside the owner's current block is left.",
  ["schedules", "histories"], "all operation sequences up to depth 8 against a reference model for small geometries, and all interleavings of an owner (up to 6 operations) with 1..2 thieves",
  NOTEST + "Block take-over and grant/reclaim races need exact timing.",
  [EX + "detail/bwos_lifo_queue.hpp"], [("per-block head/tail/steal counters with take-over protocol", "lifo_queue / block_type")], (), ["returned items"])

p("P18", "Intrusive lock-free queues deliver every node exactly once in order",
  "For the lock-free multi-producer queues and the intrusive lists, every enqueued node is dequeued exactly once, nodes of one producer come out in the order they were pushed, the 'queue was empty' / 'is drained' answers given to a producer are exact up to pushes that are in flight at that moment, and everything written before a push is visible after the pop. Sequentially each behaves as its reference container for every operation sequence.",
  ["schedules", "histories"], "2 producers with up to 2 nodes each and one consumer, all interleavings; all sequential histories to depth 6",
  NOTEST + "Half-linked nodes exist only between two instructions of a push.",
  [SD + "__intrusive_mpsc_queue.hpp", SD + "__atomic_intrusive_queue.hpp", EX + "detail/atomic_intrusive_queue.hpp", SD + "__intrusive_queue.hpp", SD + "__intrusive_slist.hpp"],
  [("exchange on tail / CAS on head", "the queue classes")], (), ["popped nodes"])

p("P19", "parallel_scheduler and task_scheduler forward faithfully",
  "An operation scheduled through the parallel scheduler (default backend) or through a type-erased task scheduler is executed exactly once on an agent of the underlying context, or reports stopped if stop was requested before it ran, or error if the backend reports one; bulk work forwarded through them visits every index exactly once; copies of such a scheduler compare equal exactly when they refer to the same underlying scheduler.",
  ["schedules", "inputs"], "every backend outcome, stop before/after start, shapes 0..4, 1..2 backend threads",
  NOTEST + "Backends and erased proxies are only run in one schedule.",
  [SD + "__parallel_scheduler.hpp", SD + "__parallel_scheduler_backend.hpp", SD + "__parallel_scheduler_default_impl.hpp", SD + "__task_scheduler.hpp", EX + "system_context.hpp"],
  [("receiver proxies and pre-allocated operation storage", "__parallel_scheduler.hpp, __task_scheduler.hpp")], (), ["receivers", "visited indices"])

p("P20", "Timers never fire early, fire in order, and can always be cancelled",
  "A timed operation completes with a value no earlier than its deadline on the scheduler's clock, operations complete in deadline order, and every operation completes exactly once, also when a stop request races with its expiry; a stop request makes a pending operation complete with stopped without waiting for its deadline, and a due operation is not delayed by a missed wake-up. Destroying the context completes the operations that are still pending. The priority queue behind it behaves as an ordered multiset with arbitrary erasure for every operation sequence.",
  ["schedules", "histories", "inputs"], "up to 3 timers with all orders of 3 deadlines, stop requests at any point, spurious wake-ups; all heap operation sequences to depth 6",
  NOTEST + "Tests use real clocks and generous delays.",
  [EX + "timed_thread_scheduler.hpp", EX + "timed_scheduler.hpp", EX + "detail/intrusive_heap.hpp"],
  [("command queue to the timer thread, heap keyed by deadline, stop handshake by reference count", "timed_thread_context")], (), ["completion kind, virtual time and order"])

p("P21", "The trampoline scheduler bounds recursion and runs everything once",
  "Operations started on a trampoline scheduler complete exactly once, on the starting thread, before the outermost start returns; the nesting of inline completions never exceeds the configured depth or stack budget; operations deferred past that bound run in first-in first-out order and still honour a stop request.",
  ["inputs", "programs"], "all trees of schedule operations up to 5 nodes, depth limits 1..3, stop before execution or not",
  NOTEST + "Tests use one deep recursion.",
  [EX + "trampoline_scheduler.hpp"], [("thread-local trampoline state with depth, stack estimate and FIFO of deferred operations", "__trampoline_state")], (), ["nesting depth", "completion order"])

p("P22", "Type erasure preserves completions, queries and ownership",
  "A type-erased sender, receiver or scheduler (any_sender, any_receiver, any_scheduler, any_sequence, function-shaped senders) behaves as the object it holds: the same completion with the same values, the same declared queries including the stop token, one connection, and stop requests that arrive through it; moves and copies of the wrapper move and copy the held object, and each held object is destroyed exactly once, also when an operation throws.",
  ["inputs", "histories"], "all completion kinds, small- and heap-stored payloads, all move/copy/assign/destroy histories to depth 5, throwing copies and allocations",
  NOTEST + "Tests cover a few fixed histories.",
  [EX + "any_sender_of.hpp", SD + "__any.hpp", EX + "function.hpp", EX + "sequence/any_sequence_of.hpp"],
  [("small-buffer storage and vtables", "__any.hpp")], (), ["receivers", "live instance count"])

p("P23", "Sequences deliver every item once, in order, before completing",
  "For iterate, empty, transform_each, merge, merge_each, any-sequence and ignore_all_values, every item of the source is delivered to the item receiver exactly once (in order for a single source), the sequence completes exactly once and only after all its item operations completed, and an error or stopped item, a failure of any merged sequence, or a stop request ends the sequence with the corresponding single completion and stops the remaining work.",
  ["schedules", "inputs"], "sources of 0..3 items, up to 2 merged sources, items completing inline or on other threads, every completion kind, stop at any point",
  NOTEST + "Item/sequence completion races are never forced by the tests.",
  [EX + "sequence_senders.hpp", EX + "sequence/iterate.hpp", EX + "sequence/merge.hpp", EX + "sequence/merge_each.hpp", EX + "sequence/transform_each.hpp", EX + "sequence/ignore_all_values.hpp", EX + "sequence/empty_sequence.hpp", EX + "detail/basic_sequence.hpp"],
  [("per-item operations, counts of outstanding items and first-error slot", "merge_each.hpp, ignore_all_values.hpp")], (), ["items and completion seen by the receiver"])

p("P24", "Fire-and-forget work runs once and frees itself once",
  "start_detached, execute, start_now, submit and fork_join start each sender exactly once and destroy its operation exactly once, after it completed and never while it is still running; fork_join runs its shared predecessor once, hands its result to all branches and completes once with all their results; the storage behind start_now outlives every sender started in it and its join completes only after all of them.",
  ["schedules", "inputs"], "all completion kinds, inline or on another thread concurrently with the starter returning",
  NOTEST + "Self-deletion racing with the starter is invisible without a checker.",
  [EX + "start_detached.hpp", EX + "execute.hpp", EX + "start_now.hpp", EX + "fork_join.hpp", SD + "__submit.hpp", SD + "__operation_states.hpp"],
  [("self-owned operation states, join counters", "the files above")], (), ["heap balance", "starts and completions"])

p("P25", "Thread-backed contexts run everything and shut down cleanly",
  "single_thread_context and pools derived from thread_pool_base execute every operation started on them exactly once on their own thread(s); destroying the context after its operations completed joins its thread without deadlock and without dropping an operation started before destruction.",
  ["schedules"], "1..2 submitters racing with the destructor's finish, every interleaving within the bound",
  NOTEST + "Shutdown is exercised only when idle.",
  [EX + "single_thread_context.hpp", EX + "thread_pool_base.hpp", SD + "__run_loop.hpp"],
  [("run_loop driven by an owned std::thread; CRTP pool", "single_thread_context.hpp, thread_pool_base.hpp")], (), ["completions", "destructor returns"])

p("P26", "Reference-counted sharing destroys once, after the last reference",
  "An object managed by the library's intrusive reference counting is destroyed exactly once, by whoever drops the last reference, with all other owners' accesses visible to the destructor; flag bits packed next to the count are read and modified atomically without disturbing it.",
  ["schedules", "histories"], "2..3 owners copying, dropping and flagging concurrently; all sequential histories to depth 5",
  NOTEST + "Memory-order mistakes are invisible on the test machine.",
  [SD + "__intrusive_ptr.hpp"], [("atomic count with packed bits, acq_rel decrement", "__intrusive_ptr.hpp")], (), ["destructor calls", "happens-before of owner writes"])

p("P27", "Failures of user code and allocation surface as one error and leak nothing",
  "If a copy or move of a value, a user function, a connect, or a memory allocation throws at any point inside a pipeline, the failure is either thrown to the caller of connect/spawn before anything was started, or delivered as exactly one error completion; no completion is lost or duplicated, every constructed value is destroyed exactly once, and no memory is leaked.",
  ["fault_sequences", "inputs"], "for a catalogue of pipelines over all adaptors: every single point at which a tracked value's copy/move, a function, or an allocation can throw",
  NOTEST + "The tests throw from one chosen place.",
  [SD + "__let.hpp", SD + "__continues_on.hpp", SD + "__when_all.hpp", EX + "when_any.hpp", EX + "detail/shared.hpp", SD + "__spawn_future.hpp", SD + "__basic_sender.hpp", SD + "__any.hpp"],
  [("noexcept computation and catch blocks that call set_error", "all adaptors")], (), ["receivers", "instance counts", "heap balance"])

p("P28", "Operations may be destroyed by their own completion",
  "The receiver may destroy the operation state (and with it everything the operation owns) from inside its completion, for every sender and adaptor of the library, whether it completes inline or on another thread: the library does not touch the operation, its children, or data stored in them after it delivered the completion.",
  ["schedules", "programs"], "every adaptor and source of the library in a catalogue of pipelines, each completion kind, inline and cross-thread",
  NOTEST + "Reads of freed memory usually go unnoticed.",
  [SD + "__basic_sender.hpp", SD + "__operation_states.hpp", SD + "__let.hpp", SD + "__continues_on.hpp", SD + "__when_all.hpp", SD + "__stop_when.hpp", EX + "when_any.hpp", EX + "repeat_until.hpp", EX + "repeat_n.hpp", SD + "__finally.hpp"],
  [("completion is the last action on the operation state", "all operation states")], (), ["memory accesses after completion"])

p("P29", "The environment of the receiver reaches every sender below it",
  "Stop token, allocator, scheduler and user-defined queries of the final receiver's environment are answered unchanged for every sender in a pipeline, through every adaptor, except where the adaptor documents that it overrides them (write_env, on/starts_on's scheduler, when_all's and when_any's stop token, stop_when, unstoppable); a stop request made by the receiver is therefore observed by every sender that is still running, wherever it is nested.",
  ["inputs", "programs"], "every adaptor up to nesting depth 2, each query, stop requested at every point of the pipeline",
  NOTEST + "Tests check one adaptor at a time for one query.",
  [SD + "__env.hpp", SD + "__write_env.hpp", SD + "__read_env.hpp", SD + "__stop_when.hpp", SD + "__unstoppable.hpp", EX + "env.hpp", SD + "__receivers.hpp"],
  [("forwarding environments", "__env.hpp and the adaptors' receivers")], (), ["read_env results inside the pipeline", "stop tokens"])

p("P30", "stop_when combines stop requests without losing or repeating any",
  "A sender run under an additional stop token observes a stop request as soon as either that token or its receiver's own token is stopped, completes exactly once, and deregisters both subscriptions before it delivers its completion, so that neither source touches the operation afterwards.",
  ["schedules"], "every interleaving of the two stop requesters with the sender's completion and registration",
  NOTEST + "Requires two stop sources racing with completion.",
  [SD + "__stop_when.hpp", EX + "async_scope.hpp"], [("fused stop source fed by two callbacks", "__stop_when.hpp")], (), ["stop token seen by the sender", "receiver"])

p("P31", "The io_uring context completes every operation once and honours cancellation",
  "Every operation started on an io_uring context completes exactly once, on the thread running the context: with a value, or with stopped if it is cancelled or the context is stopped (inline once the context has stopped), and cancelling does not wait for the timer; timers are neither early nor held up by other operations, submissions beyond the ring size are queued and not lost, wake-ups from other threads are not missed. run_until_empty() and a stopped run return only when, and as soon as, everything started before has completed, and the context can be run again.",
  ["schedules", "fault_sequences"], "every order of kernel completions and wake-ups for up to 3 operations",
  NOTEST + "Needs a real kernel ring and chosen completion orders.",
  [EX + "linux/io_uring_context.hpp", EX + "linux/memory_mapped_region.hpp", EX + "linux/safe_file_descriptor.hpp"],
  [("submission/completion rings, eventfd wake-up, pending queue, stop operation", "io_uring_context.hpp")], (), ["receivers", "return of run"])

p("P32", "Pools over TBB, Taskflow, libdispatch and ASIO meet the scheduler contract",
  "On the thread pools over third-party executors, every scheduled operation completes exactly once, on the executor, with stopped if stop had been requested before its task runs. bulk algorithms call the function exactly once per index or with a partition of the range into non-empty chunks, give a reference to the predecessor's values to each call, and complete after all calls: with those values or with one of the errors thrown; errors and stopped of the predecessor and failures to store the values are delivered instead of calls. Any operation may be destroyed by its completion, whatever the submitting thread is still doing.",
  ["schedules", "fault_sequences"], "all orders and overlaps of the submitted tasks, shapes 0 to 3 (6 for chunks), concurrency 1 to 3, every set of throwing indices, every failing move",
  NOTEST + "The libraries are absent from the build, so its tests do not even compile most of these contexts.",
  [EX + "thread_pool_base.hpp", EX + "libdispatch_queue.hpp", EX + "tbb/tbb_thread_pool.hpp", EX + "taskflow/taskflow_thread_pool.hpp", EX + "asio/asio_thread_pool.hpp"],
  [("bulk_shared_state, bulk_receiver::enqueue, opstate", "thread_pool_base.hpp, libdispatch_queue.hpp")], (), ["receivers", "calls of the bulk function"])

p("P34", "ASIO operations become senders that complete once and honour cancellation",
  "An ASIO operation initiated with completion_token or use_sender completes its receiver exactly once when its handler has been invoked (with the values sent), or when the handler and all intermediate handlers on the associated executor are gone: with the first exception the initiation or an intermediate handler threw, else with stopped. Intermediate handlers of one operation and cancellation never run at the same time; a stop request made while the operation is pending emits cancellation exactly once, and the subscription ends before the completion. use_sender turns success codes into values, cancellation codes into stopped and every other code into an exception carrying it.",
  ["schedules", "fault_sequences"], "operations that complete, drop their handler or throw in the initiation, another thread or up to two intermediate handlers, raced by stop requests; every failing conversion of a value",
  NOTEST + "Which thread drops the last handler, and when a stop request arrives, cannot be sampled.",
  [EX + "asio/completion_token.hpp", EX + "asio/use_sender.hpp", EX + "asio/as_default_on.hpp"],
  [("frame_, run_, completion_handler, operation_state::start", "asio/completion_token.hpp"), ("receiver::set_value", "asio/use_sender.hpp")], (), ["receiver", "cancellation slot"])

p("P35", "CUDA streams and the Windows thread pool match the generic semantics",
  "Algorithms run through the CUDA (nvexec) and Windows thread pool contexts give the same results and completions as on the built-in schedulers.",
  ["inputs", "schedules"], "all algorithms customised by those contexts",
  "The stable tests do not build any of these contexts.",
  ["include/nvexec/stream_context.cuh", EX + "windows/windows_thread_pool.hpp"],
  [("per-context customisations", "the files above")], (), [])

p("P33", "Subscriptions to the receiver's stop token end before the completion",
  "Every stop callback an operation registers, directly or through its children, on the stop token of its receiver is deregistered before the operation delivers its completion, whatever the completion is and also when a stop request causes it or races with it: the receiver may end its stop source in the completion, while the operation itself still exists.",
  ["schedules", "programs"], "every adaptor alone and nested, schedulers, tasks, scopes and sequences; no stop request, one before the start, during the operation or at the same time as its completion; inplace_stop_token and other token types",
  NOTEST + "The stop sources of tests outlive the operations.",
  [SD + "__when_all.hpp", EX + "when_any.hpp", EX + "detail/shared.hpp", EX + "task.hpp", SD + "__task.hpp", EX + "async_scope.hpp", SD + "__spawn_future.hpp", SD + "__stop_when.hpp", EX + "timed_thread_scheduler.hpp", EX + "sequence/merge_each.hpp", SD + "__parallel_scheduler_backend.hpp", EX + "any_sender_of.hpp"],
  [("on_stop.reset() before the completion", "all operation states with stop callbacks")], (), ["number of callbacks registered on the receiver's token at completion", "accesses to the stop source after it"])

p("P36", "What a sender advertises about its completions is what happens",
  "A sender that advertises, in a given environment, that its values complete inline, or asynchronously on the starting context, or on a given scheduler, completes them like that in every execution in which its parts do what they advertise; the same holds for what it advertises about all of its channels taken together. Coroutines and generic algorithms rely on it: a sender advertised as inline completes before start returns, one advertised as affine never needs rescheduling, and the next stage of a pipeline finds the scheduler it really runs on. Adaptors may advertise less than what happens, but never something else.",
  ["inputs", "programs"], "every adaptor and its multi-child forms over children of eight kinds (inline, affine, asynchronous elsewhere, unknown; alike or different per channel; with or without a scheduler) x channel x thrown exceptions x stop request before the start x order in which contexts run",
  NOTEST + "Claims are checked at compile time against other claims, not against executions.",
  [SD + "__completion_behavior.hpp", SD + "__queries.hpp", SD + "__schedulers.hpp", SD + "__continues_on.hpp", SD + "__let.hpp", SD + "__when_all.hpp", SD + "__sequence.hpp", SD + "__starts_on.hpp", SD + "__affine.hpp", SD + "__finally.hpp", EX + "sequence.hpp", EX + "variant_sender.hpp", EX + "inline_scheduler.hpp", EX + "trampoline_scheduler.hpp"],
  [("__attrs, __sync_attrs, get_env", "the files above")], (), ["context and call stack at completion", "claims of get_env in the receiver's environment"])

p("P37", "Operations complete only as their completion signatures advertise",
  "Every operation, connected to any receiver, completes with a signal that is one of the completion signatures its sender advertises in the environment of that receiver, and also of those it advertises without an environment if it does: tag, number and types of the arguments, and whether they are lvalues or rvalues, agree. No error or stopped completion arises that was not advertised, whatever its children complete with and whichever user function or copy throws; a failure that is not advertised does not exist.",
  ["inputs", "programs"], "every adaptor over children of twelve sets of signatures (values, references, const references, several arguments, several completions per channel, none) x which of them is used x throwing copies, moves and functions x stop request; two-sender forms, the library's schedulers and their customised algorithms, sources, tasks, type-erased senders",
  NOTEST + "Signatures are compared with expected types for chosen pipelines, never with what the operation really delivers in each case.",
  [SD + "__completion_signatures.hpp", SD + "__transform_completion_signatures.hpp", SD + "__finally.hpp", SD + "__let.hpp", SD + "__when_all.hpp", SD + "__then.hpp", SD + "__continues_on.hpp", SD + "__task_scheduler.hpp", SD + "__as_awaitable.hpp", SD + "__bulk.hpp", EX + "materialize.hpp", EX + "when_any.hpp", EX + "variant_sender.hpp", EX + "repeat_until.hpp"],
  [("get_completion_signatures", "the files above")], (), ["type and value category of every completion", "number of completions"])

p("P38", "Senders are lazy values: each operation made from one does the work afresh",
  "Making, copying, moving, connecting and destroying a sender, and destroying an operation that was not started, run no user function, start no work, complete no receiver and release whatever they acquired; connecting an lvalue leaves the sender as it was even if the connection throws. Every operation made from a sender or any copy of it, in whatever order and however many exist at once, does exactly the work and delivers exactly the result of the first: an operation outlives its sender, and never sees values or function state consumed by another (only split shares one run).",
  ["histories", "inputs"], "every lazy adaptor over five children, sources, coroutines, type-erased senders and sequences x every sequence of up to two (three) moves, copies, dropped connections, failing connections, complete runs, pairs of coexisting operations and operations that outlive their sender, then run, dropped connection or destruction",
  NOTEST + "Tests connect a sender once, usually as an rvalue.",
  [SD + "__basic_sender.hpp", SD + "__just.hpp", SD + "__then.hpp", SD + "__let.hpp", SD + "__when_all.hpp", SD + "__continues_on.hpp", SD + "__starts_on.hpp", SD + "__on.hpp", SD + "__bulk.hpp", SD + "__associate.hpp", SD + "__finally.hpp", EX + "sequence.hpp", EX + "repeat_n.hpp", EX + "repeat_until.hpp", EX + "when_any.hpp", EX + "split.hpp", EX + "variant_sender.hpp", EX + "sequence/iterate.hpp", EX + "any_sender_of.hpp"],
  [("connect", "the files above")], (), ["user functions run and child operations started or alive after every step", "result of every operation"])

p("P39", "Memory comes from the allocator the user chose, aligned, and goes back to it",
  "Every facility that accepts an allocator (environment, attributes, allocator_arg, frame allocator, memory resource or constructor argument) takes what it allocates for that use from that allocator and from no other, suitably aligned for what it puts there, writes only inside it, and returns every block to it with the size and alignment it was asked for, before the completion that promises so. A failing allocation, connection or subscription is reported to the caller or the receiver, starts nothing and keeps nothing, and never terminates the program.",
  ["inputs", "faults"], "allocators that hand out blocks aligned exactly as asked, check every block that returns and fail at any allocation x facilities, coroutine tasks, type-erased functions, memory resources, erased allocators and schedulers, pool sequences and queues x object size and alignment x result x throwing connection x thread",
  NOTEST + "Tests use std::allocator or a counting allocator over operator new, whose blocks are more aligned than asked, and that never fails.",
  [SD + "__any_allocator.hpp", SD + "__memory.hpp", SD + "__spawn.hpp", SD + "__spawn_future.hpp", SD + "__task.hpp", SD + "__task_scheduler.hpp", EX + "__frame_allocator.hpp", EX + "__memory_resource_adaptor.hpp", EX + "function.hpp", EX + "start_detached.hpp", EX + "detail/shared.hpp", EX + "static_thread_pool.hpp", EX + "sequence/transform_each.hpp", EX + "sequence/merge.hpp", EX + "detail/bwos_lifo_queue.hpp"],
  [("allocate", "the files above")], (), ["blocks asked for and returned", "addresses of objects", "result of every operation"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
for x in P:
    assert len(x["title"]) <= 80, x["title"]
    assert x["statement"].count(". ") <= 2, x["id"]
    for fn in x["anchors"]["files"]:
        assert os.path.exists("/repo/" + fn), (x["id"], fn)
print(len(P), "properties")
