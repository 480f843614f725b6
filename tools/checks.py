"""Configuration of the checks."""
COMPONENTS = {
    "real": ["all of /repo/include/stlab and /repo/src used by the workload, compiled from the working tree "
             "(futures, tasks, executors, default executor pool, timer thread, serial queue, channels, await, pre_exit)",
             "libstdc++ (threads, mutexes, condition variables, shared_ptr, containers), compiled in"],
    "stub": ["pthread mutex/condition variable/thread/once, clocks and sleeps, futex and number of processors: "
             "replaced by the simulator (real threads, one running at a time)",
             "malloc/new: a deterministic arena with use-after-free detection",
             "the C++ memory model is sampled as sequentially consistent executions plus a vector-clock data-race "
             "detector"],
    "assumptions": ["scheduling happens at synchronisation operations (atomics, locks, condition variables, thread "
                    "and timer operations, allocation); between them code is race-free or reported as a data race",
                    "seeded sampling: a clean result is evidence, not proof"],
}
CHECKS = {
    "C01": dict(src=["C01.cpp"], quick=(60000, 60), thorough=(3000000, 600),
                rule="random graphs of up to 3 sources and 8 continuations (then/recover/detach, operator forms, "
                     "lvalue/rvalue, value/move-only/void results, 8 kinds of executor) attached, completed, copied "
                     "and polled by 1-3 client threads; the outcome and the number of runs of each node is compared "
                     "with a sequential model."),
    "C02": dict(src=["C02.cpp"], quick=(60000, 60), thorough=(3000000, 600),
                rule="the future graphs of C01 in which user code throws, executors lose tasks and producers abandon, "
                     "overwrite, drop or fail their packages at random points; each node's outcome (value, the "
                     "original exception, broken promise) and run count is compared with the sequential model."),
    "C10": dict(src=["C10.cpp"], quick=(60000, 60), thorough=(3000000, 600),
                rule="1-5 processors; 1-3 clients submit trees of up to 15 pool tasks at random priorities which spawn "
                     "raw, asynchronous, delayed and chained children and block in up to 8 await/await_for calls on "
                     "children and on externally completed futures; every task must run exactly once and nothing may "
                     "be stuck when all threads are idle. One run in five checks the start order of a single worker."),
    "C11": dict(src=["C11.cpp"], quick=(60000, 60), thorough=(3000000, 600),
                rule="up to 16 pre-exit handlers registered by clients, pool tasks and handlers, some submitting pool "
                     "work; pre_exit is invoked at a random moment relative to running, queued, sleeping, awaiting and "
                     "timed tasks and concurrent submissions; handler order and count, task completion, thread "
                     "termination and late timers are checked."),
    "C13": dict(src=["C13.cpp"], quick=(60000, 60), thorough=(3000000, 600),
                rule="1-3 clients schedule up to 15 tasks with delays of 0-35 ms (ties, near ties, fractions of a millisecond) or too long for the clock on the timer, on "
                     "delayed executors over 5 kinds of target (one executor also for several tasks) and as executors "
                     "of futures; half of the runs have an exact clock and bound lateness to 1 ms, the others add time "
                     "jumps, spurious wakeups and slow tasks. Never early, exactly once, in order of due time."),
    "C12": dict(src=["C12.cpp"], quick=(60000, 60), thorough=(3000000, 600),
                rule="1-2 serial queues in either mode over 6 kinds of executor; 1-3 clients and running tasks submit up "
                     "to 24 tasks by call, async, raw executor and continuation, with slow, waiting, throwing and "
                     "cancelled tasks and queue objects destroyed after submission. No overlap (including unlocked "
                     "shared state under the race detector), submission order, exactly once, cancelled tasks skipped."),
    "C03": dict(src=["C03.cpp"], quick=(60000, 60), thorough=(3000000, 600),
                rule="future graphs of up to 2 sources and 6 continuations whose handles and copies are dropped, reset, "
                     "overwritten or detached by 1-3 threads while producers are queued (also in a paused executor), "
                     "running or not invoked. Nothing may start after its last dependent is gone, captures are released "
                     "at quiescence while the task is still queued, surviving parts get the modelled outcome."),
    "C04": dict(src=["C04.cpp"], quick=(60000, 60), thorough=(3000000, 600),
                rule="when_all over 0-5 inputs in nine list forms (mixed value, move-only, void) and three range forms; "
                     "inputs are packages, executor tasks, chains, ready or failed futures and relays (a task owning the "
                     "package of another input), completed, failed, abandoned or held back by 1-3 threads while the "
                     "combination is built, continued and dropped, on 7 kinds of executor. Call count, position of every "
                     "value, exception really raised, executor, and release of every input at quiescence."),
    "C05": dict(src=["C05.cpp"], quick=(60000, 60), thorough=(3000000, 600),
                rule="when_any over 0-5 inputs in eight list forms (also with an executor passed as an rvalue) and three "
                     "range forms with the inputs of C04. Exactly one call with the value and position of an input that "
                     "succeeded, failure only when all failed, broken promise on an empty range, losers released at "
                     "quiescence."),
    "C06": dict(src=["C06.cpp"], quick=(60000, 60), thorough=(3000000, 600),
                rule="towers of 2-4 tasks each returning the future of the next (package, async, continuation, recovery, "
                     "ready or failed leaf; value, move-only and void results) completed, failed, abandoned or held back by "
                     "1-3 threads in any order while up to 3 continuations are attached and the outer future is dropped; "
                     "outcome, run counts, cancellation and release of every level."),
    "C07": dict(src=["C07.cpp"], quick=(60000, 60), thorough=(3000000, 600),
                rule="1-4 coroutines (value, move-only and void results, nested up to 3 deep, 1-3 co_awaits each, some in "
                     "try blocks or throwing) over futures completed, failed, abandoned or already ready, from clients, "
                     "executors and other coroutines; coroutine futures are continued, awaited or dropped. Each co_await "
                     "resumes exactly once with the modelled outcome, each frame is destroyed exactly once."),
    "C08": dict(src=["C08.cpp"], quick=(60000, 60), thorough=(3000000, 600),
                rule="1-3 client threads and up to 4 pool tasks wait with await, await_for (0-20 ms, fractions, negative, 50 years and too long for the clock, repeated, "
                     "then continued, awaited or dropped) and the deprecated forms on value, move-only and void futures "
                     "(packages, tasks, timers, reductions; copies awaited at once) that are completed, failed or abandoned "
                     "at random simulated moments around the timeouts; half the runs have an exact clock, the others add "
                     "time jumps, stalls, spurious wakeups and thread creation failures. Result exactly once, never early, "
                     "never past the timeout, never lost."),
    "C14": dict(src=["C14.cpp"], quick=(60000, 60), thorough=(3000000, 600),
                rule='chains of up to 7 stages (function, reference to function, function_process, await/yield process, sink; ten annotation forms of executor and buffer size 0-4) behind one channel with 1-3 senders used by 1-3 threads, on 6 kinds of executor, with value and move-only types, slow stages and senders closed or dropped meanwhile. Sequence check per edge against what was produced, overlap, executor, buffer bound, close and release, nothing left undone at quiescence.'),
    "C15": dict(src=["C15.cpp"], quick=(60000, 60), thorough=(3000000, 600),
                rule='2-4 channels or generators with unequal numbers of values, merged (also repeatedly, 2 or 3 inputs) by zip_with, zip, round robin and unordered merges into functions and await/yield processes. Sequence check per edge against what was produced, overlap, executor, buffer bound, close and release, nothing left undone at quiescence.'),
    "C16": dict(src=["C16.cpp"], quick=(60000, 60), thorough=(3000000, 600),
                rule='channels and generators split up to many branches of different speed, executor and buffer size, sinks destroyed in the middle. Sequence check per edge against what was produced, overlap, executor, buffer bound, close and release, nothing left undone at quiescence.'),
    "C17": dict(src=["C17.cpp"], quick=(60000, 60), thorough=(3000000, 600),
                rule="generators and channels over buffers of 0-4 with slow consumers, splits and merges; a producing stage may never run while a consumer's buffer is full and at quiescence nothing with room and work may stand still. Sequence check per edge against what was produced, overlap, executor, buffer bound, close and release, nothing left undone at quiescence."),
    "C18": dict(src=["C18.cpp"], quick=(60000, 60), thorough=(3000000, 600),
                rule='senders copied, moved, assigned, swapped, closed and dropped by 1-3 threads between sends into chains, splits and merges, downstreams dropped meanwhile. Sequence check per edge against what was produced, overlap, executor, buffer bound, close and release, nothing left undone at quiescence.'),
    "C19": dict(src=["C19.cpp"], quick=(60000, 60), thorough=(3000000, 600),
                rule='stages that throw in chosen activations in chains, splits and merges, before functions and processes with and without set_error. Sequence check per edge against what was produced, overlap, executor, buffer bound, close and release, nothing left undone at quiescence.'),
    "C20": dict(src=["C20.cpp"], quick=(60000, 60), thorough=(3000000, 600),
                rule='await/yield processes which need 1-3 values, yield 0-2 results, wait with timeouts of 1 ns-6 ms (once or again and again), yield with delays and flush on close, with senders pausing 0-7 ms, on 6 kinds of executor. Sequence check per edge against what was produced, overlap, executor, buffer bound, close and release, nothing left undone at quiescence.'),
    "C21": dict(src=["C21.cpp"], quick=(60000, 60), thorough=(3000000, 600),
                rule='receivers and copies made ready, moved or dropped by 1-3 threads while values are sent and further sinks are attached. Sequence check per edge against what was produced, overlap, executor, buffer bound, close and release, nothing left undone at quiescence.'),
    "C22": dict(src=["C22.cpp"], quick=(60000, 60), thorough=(3000000, 600),
                rule="1-3 threads wrap, run, copy, move, assign, swap, drop and submit (6 kinds of executor) up to 27 "
                     "tracked tasks, some throwing, with and without callback, also when the tracker itself is dropped. "
                     "steps() equals the wrappers that exist, completed() the calls that returned, one callback each."),
    "C09": dict(src=["C09.cpp"] + ["C09_sub.cpp:SUB_" + x for x in
                                   "GRAPH CANCEL WHEN REDUCE CORO WAIT SERIAL CHAN".split()],
                quick=(60000, 60), thorough=(3000000, 600),
                rule="half of the runs: 2-3 threads each perform up to 9 of 30 operations on their own copies of one "
                     "future, sender, serial queue, delayed executor and package (attach, get, consume, copy, assign, "
                     "drop, combine, wait, send, submit, time) with plain unsynchronised memory handed over in tasks and "
                     "values; the other half: the workloads of C02, C03, C04/C05, C06, C07, C08, C12 and C14-C21. Only "
                     "data races by vector clocks over the C++ memory orders actually used, accesses to freed or dead "
                     "memory, double frees, crashes and misused locks or condition variables count."),
}
