import json
P=[]
def p(id,title,stmt,over,qt,why,files,mech,observe,hook=None,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":hook}
    if state: a["state"]=state
    P.append({"id":id,"title":title,"statement":stmt,"quantifier":{"over":over,"text":qt},"why_tests_cant":why,"anchors":a})
FUT="include/stlab/concurrency/future.hpp"; CH="include/stlab/concurrency/channel.hpp"
DE="include/stlab/concurrency/default_executor.hpp"; AW="include/stlab/concurrency/await.hpp"
SQ="include/stlab/concurrency/serial_queue.hpp"; ST="include/stlab/concurrency/system_timer.hpp"
EB="include/stlab/concurrency/executor_base.hpp"; PE="src/pre_exit.cpp"; DEC="src/concurrency/default_executor.cpp"
TK="include/stlab/concurrency/task.hpp"
p("C01","Continuations run exactly once with the producer's result, on their executor",
  "Every continuation attached to a future runs exactly once with the value (or the failed future) its producer delivered, whether it was attached before, while or after the result arrived, and whether the future was copied, moved or consumed. It runs through the executor it was attached with (or, if none was given, the one it inherited), its own future then holds its result, and a readiness or get query never shows anything but 'not yet' or that final result.",
  ["schedules","programs"],"every program of async/package/then/recover/detach/| /^ over copyable, move-only and void results and every interleaving of attaching, completing, copying, polling and dropping threads",
  "future tests attach from one thread, mostly after or before completion with sleeps; the attach-vs-complete window is hit by luck only",
  [FUT,TK,"include/stlab/concurrency/immediate_executor.hpp"],[("continuation list swapped out under the lock together with the ready flag","shared_base::recover/_detach/proceed"),("type-erased one-shot task","task.hpp")],
  ["future::then/recover/detach/get_try/is_ready","executors passed by the user"])
p("C02","Failures reach every dependent future; no future stays unresolved",
  "If a task throws, or its producer or executor abandons it without running it (including by overwriting the handle that would have run it), every future that depends on it becomes ready with that exception or a broken-promise error: ordinary continuations are skipped, recovery handlers run exactly once and see the failure, and their result replaces it. No future whose producer is gone remains not ready, and what the abandoned task had captured is released.",
  ["schedules","fault_sequences","programs"],"every task graph, every subset of tasks that throw, every executor that drops or refuses work, and every schedule",
  "tests throw from one task in one place; they never drop work inside an executor or abandon promises concurrently with attach",
  [FUT],[("broken promise in packaged_task/promise destructors","packaged_task::~packaged_task, promise::~promise"),("exception propagation","shared_base::_set_exception")],
  ["future::exception/get_try","recover handlers"])
p("C03","Dropping the last future cancels unstarted work and releases it",
  "When the last future that depends on a task is destroyed or reset before the task has started, the task never runs, the package reports itself cancelled, and everything the task captured and all upstream work only it needed is released; work that has already started finishes harmlessly and its result is released. Work that another future or a detached future still depends on is unaffected.",
  ["schedules","fault_sequences"],"every graph, every point at which each handle is dropped, and every schedule",
  "tests cancel at a few fixed points with sleeps; captured-object lifetime races are not observed",
  [FUT],[("weak ownership from packaged task to shared state","packaged_task, promise"),("futures own their upstream","recover captures the parent future")],
  ["user callables' side effects and destruction counts","packaged_task::canceled"])
p("C04","when_all: once, with every value in position, or the first failure",
  "A when_all future (from a list of futures or a range) calls its function exactly once, after all inputs succeeded, with each input's value in its own position; if an input fails the function is not called and the combined future fails with an exception one of the inputs really raised. It resolves for every input timing and executor, also for an empty range, and dropping it releases every input.",
  ["schedules","programs","fault_sequences"],"every number and kind of inputs (void and move-only included), completion order, failing subset, drop point and schedule",
  "tests complete inputs in a few orders; concurrent completion vs attach and double failure are not forced",
  [FUT],[("remaining counter and first-failure flag under one lock","when_all_shared, common_context with all_trigger/single_trigger")],["the combined future","the user function"])
p("C05","when_any: exactly one winner; fails only when every input failed",
  "A when_any future calls its function exactly once with the value and position of one input that really succeeded; if and only if all inputs fail it fails with one of their exceptions, and over an empty range it fails with a broken promise. Later completions never change or repeat the result, the losing inputs' work is given up, and it resolves for every input timing and executor.",
  ["schedules","programs","fault_sequences"],"every number of inputs, completion order, failing subset, drop point and schedule",
  "tests never let two inputs succeed or fail at the same moment",
  [FUT],[("first-success flag and failure counter under one lock","when_any_shared, common_context with single_trigger/all_trigger")],["the combined future","the user function"])
p("C06","A task that returns a future yields that future's final result",
  "A future for a task that itself returns a future resolves exactly once with the inner future's value or exception, in every order of outer completion, inner completion, continuation attachment and recovery, through every nesting depth. Dropping the outer future also cancels inner work that nobody else holds, and an inner future that is broken breaks the outer one.",
  ["schedules","programs","fault_sequences"],"every nesting, inner result kind (copyable, move-only, void), failure and drop point, and schedule",
  "tests use one nesting level with fixed timing",
  [FUT],[("reduction in package(): inner continuation forwards into the outer promise","package()")],["outer future"])
p("C07","Coroutines over futures resume exactly once with the awaited result",
  "A coroutine that co_awaits a future resumes exactly once with its value or its exception, whichever side wins the race between suspending and completion, and the coroutine's own future receives its returned value or escaped exception exactly once. Each coroutine frame is destroyed exactly once after it finishes, also when its future was dropped or the awaited producer vanished.",
  ["schedules","programs","fault_sequences"],"every nesting of coroutines, result kind, failure and schedule",
  "the coroutine tests await already scheduled work with no control over suspension races",
  [FUT],[("awaiter detaches a resuming continuation","operator co_await"),("coroutine promise wraps a packaged task","coroutine_traits specialisations")],["coroutine bodies and futures"])
p("C08","Blocking waits return the result exactly once, in time, without losing it",
  "await returns the future's value or rethrows its exception whenever the producer resolves it, at any moment relative to the wait. await_for returns the resolved result if it arrives in time, never returns before its timeout without the result, never blocks indefinitely past its timeout, and after a timeout hands back a future that still yields the same result exactly once.",
  ["schedules","fault_sequences","inputs"],"every race of completion against waiting and against the timeout, including spurious wakeups and clock jumps",
  "tests use real sleeps far from the timeout boundary",
  [AW,FUT],[("condition variable with predicate, notified under the lock","await"),("shared guarded state with a timed-out flag","blocking_get_guarded")],["await, await_for"])
p("C09","User data passed through the library is never raced on",
  "Whatever a task, continuation, process or timer function wrote before its result, message or task was handed over is visible to whoever receives it, on every receiving thread, and the library never reads, moves or destroys a user object while another thread may still be using it. Concurrent use of distinct copies of a future, sender, executor or queue handle from several threads is free of data races and of accesses to destroyed objects.",
  ["schedules","programs"],"every interleaving and every legal memory ordering of concurrent use through separate handles",
  "tests run on strongly ordered hardware and a missing ordering has no visible effect on the sampled schedules",
  [FUT,CH,DE,SQ,ST,TK],[("locks and acquire/release atomics around every hand-over","throughout include/stlab/concurrency")],["user objects"])
p("C10","The default executor runs every task exactly once and keeps making progress",
  "Every task given to the default executors at any priority, from any thread, runs exactly once, and while tasks block in await the pool keeps running the tasks they wait for as long as no more tasks are blocked than its thread limit allows. A single worker with nothing else to do starts queued tasks of higher priority before lower ones and equal ones in submission order.",
  ["schedules","programs","configurations","fault_sequences"],"every number of hardware threads, submission pattern, nesting of blocking waits within the limit, lock contention and schedule",
  "tests run on one machine's core count; lost wakeups need a precise interleaving with the machine nearly idle",
  [DE,DEC,AW],[("per-worker priority queues with work stealing","notification_queue, priority_task_system::run/execute"),("wake or add a thread before blocking","invoke_waiting, wake, add_thread")],["task execution"])
p("C11","Shutdown runs each pre-exit handler once, in reverse order, and quiesces",
  "pre_exit runs every registered handler exactly once in reverse order of registration, including handlers registered by handlers, from any registering threads. When it returns no task is running in or will be started by the default executors and their threads have ended; every task submitted before it was invoked and that can finish has run, and timers that expire afterwards do no harm.",
  ["schedules","crash_points","programs"],"every moment at which shutdown is requested relative to running, queued, blocked and timed work",
  "the tests shut down once, after everything is idle",
  [PE,DE,DEC,ST],[("handler stack popped under a lock","pre_exit_stack_t"),("pool joined by its handler","priority_task_system::join")],["handlers, threads, tasks"])
p("C12","A serial queue runs its tasks one at a time, in order, all of them",
  "Tasks submitted to a serial queue never overlap, run in submission order (per submitting thread, and overall whenever one submission happened before another), and every task is started eventually, in both scheduling modes, on any executor, with any number of submitting threads, and also when the queue object is destroyed after submission. A task whose future was dropped first is skipped without disturbing the rest, and a throwing task affects only its own future.",
  ["schedules","programs","fault_sequences"],"every number of submitters, executor, mode, task duration, cancellation and schedule",
  "tests measure a few runs; the idle/running hand-over window is a few instructions wide",
  [SQ],[("running flag exchanged under the queue lock","serial_instance_t::enqueue/empty")],["user tasks"])
p("C13","Timed tasks run exactly once, never early, in order of their due time",
  "A task scheduled with a delay is handed to its target executor exactly once and never before its delay has elapsed, even when timers are added while the timer thread is waiting for a later one, when its wait ends spuriously, or when it oversleeps. Tasks are released in order of their due times, and each becomes due without further stimulus; an executor made for delayed execution applies its delay to every task it is given.",
  ["schedules","inputs","fault_sequences"],"every set of delays, insertion order, spurious wakeup, oversleep and schedule",
  "tests use a few real delays and tolerance windows",
  [ST,EB],[("heap of deadlines with timed condition wait","system_timer::timed_queue_run"),("delayed executor","execute_at/execute_delayed")],["execution times of tasks"])
p("C14","A pipeline delivers every value once, in order, one call at a time",
  "Every value sent by one thread into a ready channel is processed exactly once by every downstream stage, in the order sent, and two activations of the same process never overlap or interleave, whatever executors the stages run on and however small or large their buffers are. Each stage's work is done through its own executor.",
  ["schedules","programs","configurations"],"every pipeline shape, buffer size, executor per stage, number of sending threads and schedule",
  "tests use short pipelines with one sender and check sums at the end",
  [CH],[("per-process message queue and run state under a lock","shared_process::enqueue/run/step/task_done")],["process callables"])
p("C15","Merged channels deliver every value according to their strategy",
  "Zipping processes pair the n-th value of every input, round-robin merging alternates strictly between inputs, and unordered merging passes on every value exactly once keeping each input's own order. What is delivered does not depend on the timing of the inputs, and a merge closes once every input is closed (all its values handed to the merge) and its strategy can deliver no more.",
  ["schedules","programs"],"every number of inputs, distribution of values over inputs, sending threads, close order and schedule",
  "tests send to the inputs from one thread in fixed orders",
  [CH],[("merge queue strategies","zip_with/round_robin/unordered queue strategies")],["the merged process"])
p("C16","A split channel gives every downstream the complete sequence",
  "Every downstream attached to a receiver before it was made ready receives every value produced, each exactly once and in production order, independent of how fast the other downstreams are. Destroying one downstream does not take values from the others.",
  ["schedules","programs","fault_sequences"],"every number and speed of downstreams, buffer sizes, drop points and schedule",
  "tests use two equally fast branches",
  [CH],[("broadcast to the downstream list","shared_process::broadcast, downstream")],["downstream processes"])
p("C17","Back pressure bounds buffers but never stops the flow",
  "A process never has more unprocessed values queued by its upstream process than its configured buffer allows (zero meaning unlimited), so a producing process is suspended while its consumer is behind. Whenever the consumer has taken values, the producer resumes: with work remaining and every process able to run, some process always runs. (Joining in step several branches of one source may still need buffers as large as the branches differ.)",
  ["schedules","programs","configurations"],"every buffer size, generator and consumer speed, topology (chain, split, merge) and schedule",
  "tests check one or two buffer sizes with sleeps; a lost resume shows only in rare interleavings",
  [CH],[("suspend counter and clear-to-send","shared_process::task_done/clear_to_send")],["number of produced-but-unprocessed values"])
p("C18","Closing drains: sent values are processed, then everything is released once",
  "After the last sender is closed or destroyed (by any mix of copying, moving, assigning and destroying senders), every value already sent is still processed, each process is closed exactly once after its last value, closure passes on downstream, and all processes and values are released. While a sender copy remains open the channel stays open, and sending to a channel whose receivers are gone is harmless.",
  ["schedules","programs","fault_sequences"],"every history of sender and receiver copies, moves, assignments and destruction on every thread, and schedule",
  "tests close once from the main thread when idle",
  [CH],[("sender and receiver counts","shared_process::add_sender/remove_sender/close")],["process close calls and destruction"])
p("C19","An exception in a process is handed on in sequence, and nothing is left hanging",
  "If a process throws, the exception takes the place of the value that call would have produced: it is delivered, in sequence, to each downstream process that accepts errors, and a downstream process that does not accept errors is closed exactly once; values produced before it are still delivered, and the process that threw goes on with its next input. After a failure no stage is left neither running nor closed, later sends are harmless, and everything is still released.",
  ["schedules","fault_sequences","programs"],"every stage and call that throws, kind of process and schedule",
  "tests throw once in a two stage pipeline",
  [CH],[("variant of value and exception per message","channel step functions, set_process_error")],["set_error/close of downstream processes"])
p("C20","Await/yield processes see every value and obey their timeouts",
  "A process with await and yield receives every value in order while it asks for input, yields every result it has before taking more than its buffer, and is neither activated concurrently nor after close. A timed wait for more input ends in a yield exactly once, no earlier than its timeout, unless input arrives first, which is then taken without waiting for the timeout; a delayed yield is not made early. Results still to be yielded when the input is closed are yielded before the process ends.",
  ["schedules","inputs","fault_sequences"],"every process state machine, timeout, arrival time relative to the timeout and schedule",
  "tests use one timed process with generous real time margins",
  [CH,ST],[("state driven step loop with timer broadcast","shared_process::step, timed variants")],["await/yield/close calls with simulated times"])
p("C21","Values flow once all receivers are ready, and none is lost before",
  "No process function runs before its receiver was made ready; values sent before that moment to a connected channel are kept and processed in order afterwards, regardless of which thread makes which receiver ready and when. Destroying an unready receiver copy or side branch lets the remaining ready ones proceed.",
  ["schedules","programs","fault_sequences"],"every order of connect, set_ready, send, copy, drop and every schedule",
  "tests set everything ready before the first send",
  [CH],[("receiver count and ready flag","receiver, shared_process::set_ready/remove_receiver")],["process callables"])
p("C22","Progress tracking counts every live step and every completed one",
  "A progress tracker counts each wrapped task once as a step while it exists (through copying, moving and assigning it) and each call that returned once as completed, with any number of threads running and dropping wrapped tasks, and its callback is called once per completed task with counts that include that task and never exceed the tasks that were run.",
  ["schedules","programs"],"every number of wrapped tasks, drop point and schedule","tests run it in a single graph and check the end",
  ["include/stlab/concurrency/progress.hpp"],[("atomic counters","tracker_server")],["callback, steps(), completed()"])
p("C23","Priority and order of tree traversals, type erasure, tuples and scopes",
  "The sequential building blocks (forest containers and their traversals, the type-erased task wrapper, tuple algorithms, scope guards, functional helpers) return the results their documentation states for every input.",
  ["inputs"],"every input","unit tests sample inputs",
  ["include/stlab/forest.hpp","include/stlab/forest_algorithms.hpp",TK,"include/stlab/concurrency/tuple_algorithm.hpp","include/stlab/functional.hpp","include/stlab/scope.hpp"],[("sequential code","headers")],["return values"])
p("C24","Platform back ends behave like the portable one",
  "The task systems, timers and main executors for libdispatch, Windows, Qt and Emscripten give the same guarantees as the portable implementation.",
  ["schedules","configurations"],"every supported platform","only one platform's back end is built here",
  [DE,ST,"include/stlab/concurrency/main_executor.hpp"],[("conditional compilation","STLAB_TASK_SYSTEM, STLAB_MAIN_EXECUTOR")],["executors"])
open('/verif/properties.jsonl','w').write("".join(json.dumps(x)+"\n" for x in P))
