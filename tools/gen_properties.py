#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text stays readable)."""
import json, os
B = "portable_concurrency/bits/"
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=[B+f if "/" not in f else f for f in files],
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=list(observe), hook_needed=None)))

prop("C01", "The first result set on a promise is exactly what every reader observes",
 "Whatever value, reference or exception is stored first through a promise (or make_ready_future/make_exceptional_future) is exactly what future::get, shared_future::get (any number of times, from any copy) and continuations observe. Every later attempt to store a result throws future_error(promise_already_satisfied) and does not change what readers observe. Before the first store the future is not ready; after it, it is ready for ever.",
 ["inputs","histories"], "all values (full-width symbolic data) and all bounded histories of set_value/set_exception/share/copy/move/get/is_ready on value, reference and void results",
 "Tests use single constants (42, 100500) and one fixed call order each; a reader that is wrong for one value or one order of two legal calls is not sampled.",
 ["shared_state.h","promise.h","future.hpp","shared_future.hpp","make_future.h","either.h","portable_concurrency.cpp"],
 [("single-assignment check before the result is stored",B+"shared_state.h"),("tagged storage of value / inner state / exception",B+"either.h")],
 [("storage_","the stored result",B+"shared_state.h")], ["future::get","shared_future::get","is_ready"])

prop("C02", "Observing readiness publishes the result without data races",
 "Any thread that learns that a future is ready - through is_ready, wait, get, a timed wait, a notification or a continuation - sees the completely stored result and everything the producer did before storing it, and reading it is not a data race under the C++ memory model. This holds for every interleaving of the producer with any number of readers, and also in builds without assertions.",
 ["schedules"], "all interleavings of one producer with concurrently polling / waiting / attaching readers, within the stated thread and retry bounds, with happens-before computed from the memory orders in the code",
 "Tests run on one schedule of one x86 machine, where a missing acquire or release is invisible.",
 ["once_consumable_stack.hpp","continuations_stack.h","shared_state.h","when_any.h","when_all.h","portable_concurrency.cpp"],
 [("release/acquire consumption of the continuation stack head",B+"once_consumable_stack.hpp")],
 [("head_","continuation list or consumed marker; its consumption publishes the result",B+"once_consumable_stack.h")], ["is_ready","get","notify","then"])

prop("C03", "A continuation or notification runs exactly once, never early, never lost",
 "A function attached to a future with notify, then or next is run exactly once when the future becomes ready, whatever the order or overlap of attaching (by any number of threads) and fulfilling, and never before the result is available. Attaching to an already ready future runs it immediately; attaching never makes another attached function disappear.",
 ["schedules","histories"], "all interleavings of a fulfilling thread with one or two attaching threads; all bounded attach/fulfil histories",
 "The window between reading the stack head and publishing a node or the consumed marker is a few instructions; tests attach either strictly before or strictly after.",
 ["once_consumable_stack.h","once_consumable_stack.hpp","continuations_stack.h","future.hpp","shared_future.hpp","then.hpp","portable_concurrency.cpp"],
 [("compare-exchange push that fails when consumed, then runs inline",B+"once_consumable_stack.hpp"),("single exchange consumption, then run of the whole list",B+"portable_concurrency.cpp")],
 [("head_","continuation list or consumed marker",B+"once_consumable_stack.h")], ["notify","then","next"])

prop("C04", "A blocking wait returns exactly when the result is set, touching no dead memory",
 "future/shared_future wait and get return once the result is stored (by value, exception or abandonment) and not earlier, for every interleaving with the fulfilling thread: no wake-up is lost, spurious wake-ups do not release the waiter, and neither side touches the other's stack frame or the shared state after it is gone.",
 ["schedules"], "all interleavings of waiter(s) and fulfiller, with spurious condition-variable wake-ups",
 "A lost wake-up or a notify after the waiter left needs a preemption between two adjacent statements.",
 ["portable_concurrency.cpp","future.hpp","shared_future.hpp","continuations_stack.h"],
 [("waiter flag set and condition notified under the waiter's mutex",B+"portable_concurrency.cpp")],
 [("ready/mtx/cv","waiter record on the waiting thread's stack",B+"portable_concurrency.cpp")], ["wait","get"])

prop("C05", "Timed waits report ready only when ready and time out only when the time is over",
 "timed_waiter (and future/shared_future wait_for/wait_until) returns ready only if the future has become ready and returns timeout only after the requested time has been reached while the future was not known ready; once the future is ready every later timed wait returns ready. A waiter object may be destroyed, copied or outlive the future in any order relative to fulfilment without touching dead memory.",
 ["schedules","inputs"], "all clock readings (symbolic, monotonic), all durations within the stated range, all interleavings with the fulfiller, spurious wake-ups",
 "Tests use a few fixed durations with large margins and cannot place the deadline between two instructions.",
 ["timed_waiter.h","future.hpp","shared_future.hpp"],
 [("shared waiter record updated under a mutex by a notification",B+"timed_waiter.h")],
 [("notified","set by the readiness notification",B+"timed_waiter.h")], ["timed_waiter::wait_for","timed_waiter::wait_until"])

prop("C06", "Abandoned work always surfaces as broken_promise, never as a hang",
 "If a promise, packaged_task or a task handed to an executor is destroyed, overwritten or dropped before it produced a result, the associated future becomes ready with future_error(broken_promise), its continuations run and its waiters return. Abandoning after a result was produced changes nothing, and moved-from producers never break the promise they handed over.",
 ["histories","schedules"], "all bounded histories of create/move/assign/run/destroy on producers; abandonment concurrent with waiting and attaching",
 "Tests drop each kind of producer once in one state; the interplay of moves, assignment, already-run tasks and concurrent waiters is not sampled.",
 ["shared_state.h","promise.h","packaged_task.h","then.hpp"],
 [("abandon on producer destruction/assignment",B+"promise.h"),("abandon on packaged_task destruction/assignment",B+"packaged_task.h"),("abandon when a scheduled continuation is dropped",B+"then.hpp")],
 [], ["future::get","notify"])

prop("C07", "Dropping the last future cancels exactly the work nobody awaits",
 "When the future (or every shared_future copy) of a not yet started task or continuation is destroyed, the function object is destroyed without being run, however the destruction interleaves with scheduling; is_awaiten is false only if no future can observe the result and is false once every such future has been dropped, and a cancel action given to a promise runs exactly once if the state dies unsatisfied and never otherwise. detach() keeps the detached part of the chain running to completion while work attached after it is still cancelled.",
 ["histories","schedules"], "all bounded histories of attach/share/copy/detach/drop/fulfil; drop concurrent with fulfilment",
 "Tests drop the future strictly before or after; cancellation racing with scheduling and chains of several stages are not sampled.",
 ["then.hpp","packaged_task.h","promise.h","future.hpp","shared_future.hpp","shared_state.h"],
 [("weak reference from producer side to shared state",B+"promise.h"),("weak subscription of continuations",B+"then.hpp"),("self reference held by detach",B+"future.hpp")],
 [], ["promise::is_awaiten","canceler","functor side effects"])

prop("C08", "then/next propagate values and errors and run the function only via the executor",
 "then passes the function a ready future holding the parent's result; next passes the value itself, and when the parent failed the function is not called and the same exception reaches the resulting future. A value returned or exception thrown by the function becomes the result of the returned future, the function is invoked only from within the task posted to the given executor and at most once even if the task is invoked again.",
 ["inputs","histories"], "all parent results (symbolic value or exception), function outcomes (value, exception), future kinds, executors that run, delay, drop or repeat tasks",
 "Tests check one constant per overload; combinations of parent failure, function failure, executor behaviour and chain position are not sampled.",
 ["then.hpp","utils.h","future.hpp","shared_future.hpp","invoke.h","execution.h"],
 [("decorators that test the parent's exception before calling",B+"then.hpp"),("set_state_value capturing function exceptions",B+"utils.h"),("post of a run-once action",B+"then.hpp")],
 [], ["result of then/next","executor queue"])

prop("C09", "A returned future is transparently unwrapped",
 "When a function run by then, next, packaged_task or async returns a future or shared_future, the resulting future becomes ready exactly when the inner one does, with the inner value or exception, whether the inner one was ready before, becomes ready later or concurrently; an invalid inner future yields broken_promise. Dropping the outer future releases the inner one and never leaves a waiter or continuation unserved.",
 ["inputs","histories","schedules"], "inner future kind and state (invalid, ready, failing, later, concurrent), outer kind, drop points",
 "Tests fulfil the inner future at one fixed point on one thread.",
 ["shared_state.h","then.hpp","utils.h","packaged_task.h"],
 [("unwrap: link to the inner state and forward readiness",B+"shared_state.h")],
 [("storage_ alternative 2","link to the inner future's state",B+"shared_state.h")], ["get on the unwrapped future"])

prop("C10", "when_all is ready exactly when every input is ready and preserves the inputs",
 "The future returned by when_all becomes ready exactly once, when the last of its inputs becomes ready (immediately if there are none or all are ready) and never earlier, for every order and overlap of fulfilments. It delivers the very input futures in argument order, each ready with its own value or exception, for tuple, iterator-range and vector forms.",
 ["schedules","inputs","histories"], "number and kind of inputs up to the bound, ready or not at call time, every order/overlap of fulfilment",
 "Tests fulfil inputs sequentially from one thread in two orders.",
 ["when_all.h","future_sequence.h"],
 [("atomic countdown initialised to size+1",B+"when_all.h")],
 [("operations_remains_","number of inputs not ready yet, plus one during set-up",B+"when_all.h")], ["when_all(...).is_ready/get"])

prop("C11", "when_any is ready once an input is, and its index names a ready input",
 "The future returned by when_any becomes ready exactly once, by the time the call that fulfilled the first ready input has returned and never while no input is ready; the reported index is in range and names an input that is ready, and all inputs are handed back in argument order (index size_t(-1) and an empty sequence if there are none). This holds for every order and overlap of fulfilments, including inputs that finish after the result was consumed or dropped.",
 ["schedules","inputs","histories"], "number and kind of inputs up to the bound, ready or not at call time, every order/overlap of fulfilment",
 "Tests make one input ready at a time; two inputs finishing simultaneously are never produced.",
 ["when_any.h","future_sequence.h"],
 [("one-shot flag claimed by the first finished input",B+"when_any.h")],
 [("ready_flag_","claimed by the first input",B+"when_any.h"),("result_.index","position of the ready input",B+"when_any.h")], ["when_any(...).get().index"])

prop("C12", "The thread pool runs every accepted task exactly once and drops the rest whole",
 "A task posted before the pool is closed is executed exactly once by one pool thread if the pool is waited on; after stop() each worker starts at most the one task it was already fetching (a worker that is inside a task starts no further one), and each unexecuted task is destroyed unrun at the latest with the pool, so that its future gets broken_promise. With a single worker tasks start in posting order; tasks posted after close are never run, and a finished task object is released by the worker without holding pool locks. A task that exits via an exception terminates the program instead of being swallowed or leaving attach().",
 ["schedules"], "all interleavings of posting threads, workers, wait() and stop() within the stated bounds",
 "Tests use one worker and one task behind latches, i.e. one schedule.",
 ["thread_pool.h","closable_queue.h","closable_queue.hpp","portable_concurrency.cpp"],
 [("mutex-protected closable FIFO queue",B+"closable_queue.hpp"),("worker loop",B+"portable_concurrency.cpp")],
 [("closed_/queue_","queue state",B+"closable_queue.h"),("stopped_","stop request",B+"thread_pool.h")], ["task side effects","futures of posted tasks"])

prop("C13", "Pool shutdown always terminates and never outlives its threads",
 "static_thread_pool wait() and its destructor return for every interleaving with idle, starting, running, posting and attached threads once the running tasks finish: no worker stays blocked, no wake-up is lost, and no pool or attached thread touches the pool after the destructor returned. attach() returns once the pool is told to stop or is waited on.",
 ["schedules"], "all interleavings of construction, posting, attach, stop, wait and destruction within the bounds",
 "Requires shutdown to hit the few instructions between a worker's queue check and its sleep; tests never time that.",
 ["portable_concurrency.cpp","closable_queue.hpp","thread_pool.h"],
 [("close under the queue mutex with notify_all",B+"closable_queue.hpp"),("attached thread count and its condition",B+"portable_concurrency.cpp")],
 [("attached_threads_","threads inside attach()",B+"thread_pool.h")], ["~static_thread_pool","wait","attach"])

prop("C14", "A latch releases all waiters exactly when its count reaches zero",
 "wait and count_down_and_wait return only after the count has reached zero and always return after that, for every interleaving of the counting and waiting threads; is_ready is true exactly when the count is zero. What a thread did before counting down is visible to released threads, and the latch may be destroyed by a released thread while others are still leaving.",
 ["schedules","inputs"], "initial counts and decrements up to the bound (symbolic), all interleavings of counters, waiters and the destroying thread, spurious wake-ups",
 "Tests only use a latch as a helper with count 2.",
 ["latch.h","portable_concurrency.cpp"],
 [("counter and waiter count guarded by one mutex",B+"portable_concurrency.cpp")],
 [("counter_","remaining count",B+"latch.h"),("waiters_","threads inside a wait",B+"latch.h")], ["latch::wait","latch::~latch"])

prop("C15", "unique_function calls and owns exactly the stored callable",
 "unique_function forwards arguments to, and returns the result of, exactly the callable it was given - small, large, throwing-move, function or member pointer, reference_wrapper - and throws bad_function_call when empty, for every history of construction, move, move-assignment, swap and call. The stored callable is destroyed exactly once, when its owner is destroyed or reassigned, with no copy of it, no leak and no double destruction.",
 ["inputs","histories"], "all argument values, all bounded histories over several unique_function objects and callable kinds on both sides of the small-buffer limit",
 "Tests exercise each constructor once with constants; move/assign sequences across small and heap storage are not enumerated.",
 ["unique_function.h","unique_function.hpp","small_unique_function.h","small_unique_function.hpp","invoke.h"],
 [("small-buffer vtable destroy/move/call",B+"small_unique_function.hpp"),("heap fallback",B+"unique_function.hpp")],
 [("vtbl_/buffer_","type-erased callable",B+"small_unique_function.h")], ["unique_function::operator()","callable destructor counts"])

prop("C16", "Everything handed to the library is destroyed exactly once and nothing leaks",
 "Every value, exception, function object, executor and shared state that passes through promises, futures, continuations, compositions and the pool is destroyed exactly once, memory is returned exactly once, and no freed object is accessed, for every history of operations and every interleaving of fulfilment with dropping of futures and promises. Results are released no later than the last future referring to them, and the function object of a task or continuation is destroyed no later than when its run has ended.",
 ["histories","schedules"], "all bounded histories of producer/consumer operations, in sequence and concurrently",
 "Leaks and double frees hide in rarely combined operations and interleavings; the tests have no leak oracle.",
 ["shared_state.h","either.h","once_consumable_stack.hpp","then.hpp","when_all.h","when_any.h","packaged_task.h","promise.h"],
 [("owning list deleter",B+"once_consumable_stack.hpp"),("tagged destruction in either",B+"either.h"),("weak/shared ownership split",B+"then.hpp")],
 [], ["destructor counts","heap balance at exit"])

prop("C17", "Misuse is reported by the documented error and leaves objects intact",
 "Using an invalid future, shared_future, promise or packaged_task throws future_error(no_state), retrieving a future twice throws future_already_retrieved, running a task twice throws promise_already_satisfied - and the failed call changes nothing. valid() is true exactly for objects that own a result channel: false after move-from, get, share, then, next and detach of a future, and unchanged by operations of a shared_future other than move-from and detach.",
 ["histories"], "all bounded call histories over valid, moved-from, consumed and default-constructed objects of all result kinds",
 "Tests check each error once on a fresh object.",
 ["future.hpp","shared_future.hpp","promise.h","packaged_task.h","portable_concurrency.cpp"],
 [("null-state checks at every entry point",B+"future.hpp")],
 [], ["exceptions thrown","valid()"])

prop("C18", "Exceptions from user code or allocation never corrupt or wedge a result channel",
 "If copying/moving a value into a promise, a task's function, or a memory allocation inside the library throws, the exception reaches the caller or the future as documented, no other waiter or continuation of the same future is lost, nothing leaks, and the other objects stay usable: the promise can still be satisfied or abandoned and the future still becomes ready (a unique future whose then/next/detach fails may have been consumed by the attempt). If a worker of a thread pool cannot be started, the workers already started are joined and the failure is reported by the constructor. An exception thrown by a notification or by an executor's post reaches the promise or task call that made the future ready, after all other continuations were served (inside a continuation, which runs noexcept, it terminates the program, as does an exception thrown by an interruptible continuation).",
 ["fault_sequences","histories"], "every allocation point (fault injected at a symbolic index) and every throwing point of user callbacks in the covered scenarios",
 "Tests inject no allocation failures and no throwing copies.",
 ["either.h","shared_state.h","once_consumable_stack.h","utils.h","packaged_task.h","future.hpp"],
 [("storage emptied before construction",B+"either.h"),("node allocated before it is linked",B+"once_consumable_stack.h")],
 [], ["exceptions thrown","future state afterwards"])

prop("C19", "A custom allocator gets back exactly the memory it gave",
 "When a promise is created with an allocator, the shared state and the nodes allocated through it are obtained from (copies of) that allocator and returned to it exactly once with the same size, for every history of fulfil, attach, detach and drop, and the allocator state travels with the node that uses it.",
 ["histories"], "all bounded histories of set/attach/detach/drop on allocator-aware promises",
 "Tests check that an arena is used, not that every byte returns for every order of operations.",
 ["once_consumable_stack.h","shared_state.h","promise.h"],
 [("allocator-carrying list node",B+"once_consumable_stack.h"),("allocated_state",B+"shared_state.h")],
 [], ["allocator call log"])

prop("C20", "Coroutines awaiting futures resume exactly once with the awaited result",
 "co_await on a future or shared_future suspends only if it is not ready and resumes exactly once after it is, yielding the value or throwing the stored exception, for every interleaving with the fulfilling thread. A coroutine returning a future delivers its co_return value or escaped exception through that future, and the frame is destroyed exactly once.",
 ["schedules","inputs"], "awaited future ready / later / concurrent, value or exception, coroutine outcome",
 "The unit tests do not cover coroutines at all.",
 ["coro.h","future.hpp","shared_future.hpp","promise.h"],
 [("await_suspend pushes the handle as a continuation",B+"future.hpp"),("promise as coroutine promise_type",B+"promise.h")],
 [], ["coroutine side effects"])

prop("C21", "async and packaged_task run the function once with the given arguments",
 "async posts exactly one task to the executor which calls the function once with decay-copied arguments captured at the call, and a packaged_task passes its call arguments through unchanged; the value, void, exception or (packaged_task) reference outcome becomes the result of the associated future and nothing else the caller owns is modified. Running happens only inside the executor's invocation of the task, and the function object is destroyed by the time the run has ended.",
 ["inputs","histories"], "argument values, result kinds, function outcome, executor behaviour (run, delay, drop), moves/swaps of the task before running",
 "Tests use constants and one executor behaviour each.",
 ["async.h","packaged_task.h","utils.h","invoke.h"],
 [("task object with decayed function and argument tuple",B+"async.h"),("run-once task state",B+"packaged_task.h")],
 [], ["future of the task","argument objects"])

prop("C22", "Concurrent use of one shared result by several threads is safe",
 "Copies of one shared_future may be read, waited on, extended with continuations, copied and dropped by several threads concurrently with each other and with fulfilment: every reader gets the same result object, every continuation runs once, and the result is destroyed once after the last user.",
 ["schedules"], "all interleavings of two consumers of a shared_future with the producer",
 "Tests use a shared_future from one thread at a time.",
 ["shared_future.hpp","shared_future.h","continuations_stack.h","once_consumable_stack.hpp"],
 [("const access to the stored result",B+"shared_future.hpp")],
 [], ["shared_future::get","then","notify"])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P), "properties")
