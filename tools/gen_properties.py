#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source of the property texts)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     **({'state': [dict(name=x) for x in state]} if state else {}), **({'observe_at': observe} if observe else {}))))
I='include/librf/src/'
p('C01','Channels deliver every value exactly once and in order',
 'For any channel_t (any capacity including 0, any element type, either lock flavour) each value whose write completed is returned by exactly one read or is still buffered, and no read returns a value that was not written. Values leave in the order in which their writes took effect, so the values of one writer are never reordered and a lone reader sees one global order. This holds for coroutine readers and writers on one or several scheduler threads and for reads and writes issued from plain threads.',
 ['inputs','schedules','histories'],'every capacity, element type, mix of readers and writers, and interleaving of their operations across coroutines and threads',
 'The channel tests push a few values through one or two capacities and print them; loss, duplication or reordering depends on which side waits, on wrap-around of the ring and on interleavings that a run does not choose.',
 [I+'channel_v2.inl',I+'channel_v2.h',I+'ring_queue.h',I+'intrusive_link_queue.h'],
 [('channel_impl_v2::try_read_nolock/try_write_nolock',I+'channel_v2.inl'),('read_awaiter/write_awaiter',I+'channel_v2.inl'),('ring_queue::try_push/try_pop',I+'ring_queue.h')],
 ['ring buffer','reader wait queue','writer wait queue'],['values returned by co_await ch / ch.read()','completion of ch.write()'])
p('C02','Channels bound buffering and never strand a waiter',
 'A channel of capacity N never holds more than N completed-but-unread values: a write completes at once exactly when fewer than N values are buffered or a reader is waiting, and a read completes at once exactly when a value is buffered or a writer is waiting. Waiting readers, and waiting writers, are served first come first served. Whenever nothing else can run, no reader is left suspended while a value or a waiting writer is available and no writer is left suspended while there is room or a waiting reader.',
 ['histories','schedules'],'every sequence and interleaving of reads and writes at every capacity',
 'A lost wakeup or an off-by-one in the bound needs a particular alternation of full and empty channel states or a particular interleaving of a waiter registering with a peer arriving; the tests assert neither occupancy nor who is woken.',
 [I+'channel_v2.inl',I+'ring_queue.h',I+'intrusive_link_queue.h'],
 [('awake_one_reader_/awake_one_writer_',I+'channel_v2.inl'),('await_ready/await_suspend of the awaiters',I+'channel_v2.inl')],
 ['ring buffer','wait queues'],['which operations are complete after each step','order of completions'])
p('E01','Events count signals and wake waiters in order, losing none',
 'An event_t behaves as a counting semaphore: signal() releases the longest-waiting waiter if there is one and otherwise adds one credit, a wait consumes one credit if there is one and otherwise suspends, so the number of completed waits equals the credits and signals consumed. signal_all() releases exactly the waiters present and leaves credits alone, reset() drops all credits, and event_t(true) starts with one credit; copies of an event share it. This holds when signals come from other threads.',
 ['histories','schedules'],'every history of wait/signal/signal_all/reset over any number of coroutines, schedulers and threads',
 'The tests use one or two signals in a fixed order; a lost or duplicated wakeup depends on the order of registrations and on signals racing with a waiter that is just suspending.',
 [I+'event_v2.inl',I+'event_v2.h','source/event_v2.cpp',I+'intrusive_link_queue.h'],
 [('event_v2_impl::signal/signal_all/reset/try_wait_one','source/event_v2.cpp, '+I+'event_v2.inl'),('event_t::awaiter::await_suspend2',I+'event_v2.inl')],
 ['credit counter','wait list'],['completion and order of co_await event'])
p('E02','A timed event wait has exactly one truthful outcome',
 'A co_await event.wait_for/wait_until resumes its coroutine exactly once: with true after consuming exactly one signal, or with false not before its deadline and then without having consumed any. A signal is never absorbed by a waiter that timed out (it goes to the next waiter or becomes a credit), a waiter with a pending signal before its deadline never reports a timeout, and no waiter is left suspended after its deadline has passed and its scheduler has run.',
 ['histories','schedules'],'every interleaving of signals, timeouts and other waiters, including signals from other threads at the instant of the deadline',
 'Whether a signal and a timeout collide is decided by timing that the wall-clock based tests cannot place; the tests only cover a clear timeout and a clear signal.',
 [I+'event_v2.inl','source/event_v2.cpp','source/timer.cpp',I+'timer.h'],
 [('state_event_t::on_notify/on_timeout','source/event_v2.cpp'),('event_t::timeout_awaitor_impl',I+'event_v2.inl')],
 ['wait list','timer of the waiter'],['result of wait_for/wait_until','virtual time of the result','credits left'])
p('E03','wait_all returns true once every event was consumed, else times out',
 'event_t::wait_all resumes exactly once, with true, when each listed event has given it exactly one signal (credits present at the call count), and consumes nothing more; an empty list is immediately true. wait_all_for additionally resumes with false at its deadline if some event has not been signalled by then, after which it absorbs no further signals. Both hold for signals raised from other threads, without deadlock between a signal and the timeout.',
 ['histories','schedules'],'every set of distinct events, initial credits, order of signals, deadline and signalling thread',
 'The tests signal a handful of events in one order from one thread; already signalled events, several waiters per event and a signal racing with the deadline are never exercised.',
 [I+'event_v2.inl','source/event_v2.cpp',I+'spinlock.h'],
 [('event_t::all_awaiter::await_suspend2',I+'event_v2.inl'),('state_event_all_t::on_notify/on_timeout','source/event_v2.cpp')],
 ['per-wait counter','proxy nodes in each event list'],['result of wait_all','credits left in each event'])
p('M01','mutex_t gives mutual exclusion, recursion and fair handoff',
 'At any time at most one owner (a root coroutine, or a unique address for the thread-style calls) holds a mutex_t; the owner may lock it again and it becomes free only after as many unlocks, and an unlock by anyone else changes nothing. Releasing it hands it to the longest-waiting coroutine, which then owns it, and no waiter stays suspended while the mutex is free. This holds for coroutines on several scheduler threads mixed with plain threads, and for guards (batch_unlock_t) however the scope is left.',
 ['histories','schedules'],'every history of lock/try_lock/unlock by any mix of coroutines (also nested ones of the same root) and threads',
 'Two owners at once, a lost handoff or a wrong recursion count show only under particular contention; the tests count with long critical sections and check no owner.',
 [I+'mutex_v2.inl',I+'mutex_v2.h','source/mutex_v2.cpp'],
 [('mutex_v2_impl::try_lock_lockless/unlock','source/mutex_v2.cpp'),('mutex_t::lock_awaiter::await_suspend2',I+'mutex_v2.inl'),('batch_unlock_t',I+'mutex_v2.inl')],
 ['owner','recursion count','wait list'],['who is inside the critical section','is_locked()','order of acquisition'])
p('M02','Timed and try locks tell the truth about ownership',
 'try_lock, try_lock_for and try_lock_until (coroutine and thread style) return true exactly when the caller has become owner (once more), and otherwise leave the mutex as it was; try_lock answers without waiting. A coroutine that gives up resumes with false not before its deadline, exactly once, and never becomes owner afterwards; a release meanwhile goes to the next live waiter, or frees the mutex, so a timeout never loses the lock.',
 ['histories','schedules'],'every interleaving of timed waiters, plain waiters, releases and deadlines',
 'A handoff to a waiter that has just timed out, or a timed-out waiter touched after its coroutine is gone, needs a release placed right at or after a deadline; the tests have one timed lock.',
 [I+'mutex_v2.inl','source/mutex_v2.cpp','source/timer.cpp'],
 [('state_mutex_t::on_notify/on_timeout','source/mutex_v2.cpp'),('mutex_v2_impl::unlock','source/mutex_v2.cpp'),('mutex_t::timeout_awaiter',I+'mutex_v2.inl')],
 ['wait list with timed-out entries'],['result of try_lock*','is_locked()','virtual time'])
p('M03','Locking several mutexes is all-or-nothing and deadlock free',
 'mutex_t::lock(a,b,...) (coroutine style, thread style, guard or manual) returns holding every listed mutex exactly once, in whatever order callers list them, and the guard or mutex_t::unlock releases every one of them exactly once. Callers with overlapping sets listed in different orders always make progress: none is stuck while the mutexes it wants are free.',
 ['histories','schedules'],'every number and order of mutexes, overlapping sets, contention from single locks, and scheduler or plain threads',
 'Deadlock and partial acquisition need several callers holding parts of overlapping sets at once; the test locks two or three mutexes with little contention.',
 [I+'mutex_v2.inl',I+'without_deadlock_assemble.inl',I+'spinlock.h'],
 [('lock_impl::_Lock_range/_Lock_attempt/_Try_lock_range',I+'without_deadlock_assemble.inl'),('mutex_t::_MutexAwaitAssembleT, batch_unlock_t',I+'mutex_v2.inl')],
 ['mutex owners'],['is_locked() of each mutex','completion of every caller'])
p('F01','A future delivers its result exactly once, whoever finishes first',
 'The coroutine awaiting a future_t is resumed exactly once, with precisely the value (object, reference, void or move-only) or exception that the awaitable_t was given or the coroutine ended with. The result is the same whether it was set before, during or after the co_await, and from the same or another thread; nothing is lost, duplicated, torn or delivered early.',
 ['inputs','schedules'],'every result kind and type, and every interleaving of setting the result with awaiting it',
 'The tests set a value from a thread after a long sleep, so that set-before-await and the races in between are not tried; neither are exceptions on every specialisation.',
 [I+'state.inl',I+'state.h','source/state.cpp',I+'awaitable.h',I+'future.h',I+'promise.inl'],
 [('state_t<T>/state_t<T&>/state_t<void>::set_value/set_exception/future_await_resume',I+'state.inl, source/state.cpp'),('state_future_t::future_await_suspend',I+'state.inl'),('awaitable_t',I+'awaitable.h')],
 ['value/exception union','pending coroutine handle'],['result of co_await'])
p('F02','Results and exceptions propagate through chains of coroutines',
 'In any tree of coroutines awaiting each other, each await yields the awaited coroutine\'s own result, a caller continues only after its callee has finished, and an exception surfaces at the awaiting co_await with its original type and content, unwinding locals in order, until caught. An exception that leaves a detached task does not disturb any other task, and the error codes and texts of the library\'s exceptions match what happened.',
 ['inputs','histories'],'every tree shape, depth, result type, point of suspension and point of throwing',
 'The tests throw one exception through a fixed two-level chain; depth, mixing with suspension points and the specialised result types are not varied.',
 [I+'promise.h',I+'promise.inl',I+'state.inl','source/state.cpp',I+'exception.inl','source/scheduler.cpp'],
 [('promise_impl_t::unhandled_exception/await_transform',I+'promise.inl, '+I+'promise.h'),('state_future_t::resume','source/state.cpp'),('get_error_string','source/scheduler.cpp')],
 ['parent links of states'],['trace of enter/leave/throw/catch'])
p('S01','Every spawned task runs to completion exactly once',
 'A coroutine handed to a scheduler (go, operator+, GO, a future, a callable or a generator), from a task or another thread, is started exactly once, each of its suspension points is resumed exactly once, and it ends exactly once. run_until_notask returns only when no spawned task is unfinished, no state is ready and no timer is pending, and then empty() is true; run_one_batch returns false exactly when there was nothing ready to run.',
 ['histories','schedules'],'every set of tasks, spawn times (also from within tasks and other threads) and suspension patterns',
 'Double resumption, a lost start or a premature return of run_until_notask depend on the mix of suspended, ready and timer-waiting tasks at each batch; the tests do not count starts and ends.',
 ['source/scheduler.cpp',I+'scheduler.h','source/state.cpp',I+'rf_task.h'],
 [('scheduler_t::new_task/run_one_batch/run_until_notask','source/scheduler.cpp'),('state_future_t::resume','source/state.cpp'),('promise_initial_suspend/promise_final_suspend',I+'state.inl')],
 ['ready task table','running and cached state lists'],['start/step/end events of every task','empty()'])
p('S02','Cooperative scheduling is fair and ordered',
 'A coroutine that yields (co_await yield(), or co_yield in a future_t task) runs again only after every coroutine that was ready at that moment has had its turn, and ready coroutines run in the order in which they became ready, so no ready coroutine starves. Code between two suspension points of a coroutine is never interleaved with another coroutine of the same scheduler.',
 ['histories'],'every set of coroutines and pattern of yields, spawns, awaits and wakeups on a scheduler',
 'The order in which coroutines take turns is only printed by the tests, for tiny fixed programs.',
 ['source/scheduler.cpp',I+'scheduler.h',I+'yield.h',I+'state.inl'],
 [('scheduler_t::run_one_batch','source/scheduler.cpp'),('yield_awaitor',I+'yield.h'),('promise_yield_value',I+'state.inl')],
 ['running and cached state lists'],['global order of execution slices'])
p('S03','Coroutines run only on their scheduler, and via() moves them',
 'A task\'s code runs only inside run_one_batch/run_until_notask of the scheduler it currently belongs to. After co_await via(s) the coroutine and its awaiting callers run on s and s alone, locals and pending results intact, the old scheduler no longer counts the task and the new one does until it ends; via to the current scheduler does not suspend. Wakeups by events, channels, mutexes, timers and futures resume a coroutine on its own scheduler whichever thread triggers them.',
 ['schedules','histories'],'every nesting depth, sequence of switches and wakeup source over several schedulers and threads',
 'A coroutine resumed by the wrong thread behaves identically in a sequential test; the single switch test has two threads and one switch.',
 ['source/state.cpp','source/scheduler.cpp',I+'switch_scheduler.h',I+'current_scheduler.h'],
 [('state_future_t::switch_scheduler_await_suspend','source/state.cpp'),('scheduler_t::del_switch/add_switch','source/scheduler.cpp, '+I+'scheduler.h'),('switch_scheduler_awaitor',I+'switch_scheduler.h')],
 ['scheduler pointer of each state','task tables'],['thread and scheduler of each slice','empty() of the schedulers'])
p('S04','Context queries answer for the calling coroutine and thread',
 'At any await depth librf_current_scheduler() is the scheduler that runs the coroutine (also after via), librf_root_state() is the same for all coroutines of one task and differs between live tasks, and librf_current_task() is the task that was spawned. this_scheduler() is the scheduler bound to the calling thread, else the global one; local_scheduler_t binds a new scheduler only if none is bound and unbinds it, and only it, at scope end.',
 ['inputs','histories'],'every nesting depth, task kind, scheduler switch, and nesting of local schedulers on any thread',
 'The tests print these values once, at depth one, on one scheduler.',
 [I+'current_scheduler.h','source/scheduler.cpp',I+'scheduler.h',I+'macro_def.inl'],
 [('get_current_scheduler_awaitor/get_root_state_awaitor/get_current_task_awaitor',I+'current_scheduler.h'),('this_scheduler, local_scheduler_t','source/scheduler.cpp')],
 ['thread_local scheduler pointer','parent links'],['values returned by the queries'])
p('T01','Timers fire exactly once, never early, in deadline order',
 'The callback of each timer is called exactly once: with canceled=false at the first update at or after its deadline, in order of deadline (equal deadlines in order of addition), or with canceled=true if it was stopped first or the manager was cleared or destroyed. stop() returns true exactly once, exactly when the timer was still pending; expired() tells that the timer is gone; callbacks may add, stop or clear timers. empty() is false while a timer is pending.',
 ['histories'],'every set of deadlines and every order of add, stop, clear, update and re-entrant calls from callbacks',
 'The wall-clock test adds a few timers in increasing order; ties, past deadlines, re-entrant changes and cancellation at each stage are not covered.',
 ['source/timer.cpp',I+'timer.h'],
 [('timer_manager::update/clear/stop/add_/call_target_','source/timer.cpp'),('timer_handler',I+'timer.h')],
 ['added list','running multimap','state of each timer'],['calls of callbacks with virtual time and flag','results of stop()/expired()/empty()'])
p('T02','Sleeps never end early and cancellation always surfaces',
 'co_await of a duration, sleep_for or sleep_until resumes the coroutine exactly once, never before the requested time, at the first run of its scheduler at or after it, and sleepers wake in order of their wake-up time. If the timers of the scheduler are cleared (timer()->clear(), request_stop_all_if_possible) every sleep that had not expired ends with canceled_exception{timer_canceled}, also when it had not been awaited yet.',
 ['histories','inputs'],'every set of sleeping coroutines, durations (also zero and past), cancellation times and await times',
 'Tests sleep on the wall clock with large margins and cancel once.',
 ['source/sleep.cpp',I+'sleep.h','source/timer.cpp','source/state.cpp'],
 [('sleep_until_','source/sleep.cpp'),('sleep_for/sleep_until/operator co_await',I+'sleep.h')],
 ['timers','void state of each sleep'],['virtual time and outcome of each sleep'])
p('W01','when_all completes once, after all, with results in position',
 'when_all (variadic, iterator range or container; on the current or a given scheduler) resumes its awaiter exactly once, only after every sub-task has completed, and the i-th element of the result is the i-th sub-task\'s result (void results as ignore). This holds for any number of sub-tasks including none, callables as well as awaitables, sub-tasks that are already complete, and sub-tasks that finish on other schedulers and threads or before the when_all object is awaited.',
 ['inputs','schedules'],'every arity, mix of result types, completion order and completing thread',
 'The only test of when_all is compiled out on this platform; completion order and races with the awaiter are untested anywhere.',
 [I+'when_v2.h','source/when_v2.cpp'],
 [('when_all, when_all_connector_1/2, when_future_t',I+'when_v2.h'),('state_when_t::on_notify_one','source/when_v2.cpp')],
 ['remaining counter','result tuple or vector'],['result and time of the resumption'])
p('W02','when_any reports the first completion, exactly once',
 'when_any resumes its awaiter exactly once, as soon as one sub-task has completed, with the index and value of the sub-task that completed first; later completions change neither and the other sub-tasks still run to completion. With no sub-task it completes at once with index -1. This holds for the variadic, range and container forms, on the current or a given scheduler, also when sub-tasks finish together on several threads.',
 ['inputs','schedules'],'every arity, mix of result types, completion order and completing thread',
 'The only test of when_any is compiled out on this platform; ties between threads are untested anywhere.',
 [I+'when_v2.h','source/when_v2.cpp'],
 [('when_any, when_any_connector',I+'when_v2.h'),('state_when_t::on_notify_one','source/when_v2.cpp')],
 ['winner index','any value'],['index and value returned','order of completions'])
p('K01','Stop callbacks run exactly once or not at all',
 'request_stop() returns true for exactly one caller per stop state, after which stop_requested() is true on every token and source of it. A stop_callback registered before runs exactly once, on the requesting thread; one registered after runs at once in its constructor; one destroyed before the request reached it never runs, and its destructor returns only when no call of it is in progress on another thread (and does not block inside its own callback). stop_possible()/copies/moves/swaps follow the std::stop_token contract and the shared state lives exactly as long as some source, token or callback refers to it.',
 ['histories','schedules'],'every interleaving of registering, deregistering, requesting and querying on any number of threads',
 'Lock-free list manipulation and reference counts fail only in particular interleavings or combinations of live handles; the test registers one callback and stops it.',
 [I+'stop_token.h'],
 [('stop_state::request_stop/try_add_callback/remove_callback',I+'stop_token.h'),('stop_source, stop_token, stop_callback',I+'stop_token.h')],
 ['packed state word','callback list'],['calls of callbacks','results of request_stop/stop_requested/stop_possible'])
p('K02','Stopping a scheduler reaches every task and sleep',
 'scheduler_t::request_stop_all_if_possible() requests stop on every unfinished task of that scheduler whose stop source has been obtained (running its stop callbacks) and cancels all its timers, and touches no task of another scheduler; task_t::request_stop stops just that task. While a task lives, get_stop_source/get_stop_token give every caller, on any thread, handles to one and the same stop state, and of all requests to stop it one succeeds. It may be called from a task or from a timer, and stop callbacks may complete awaitables or spawn tasks; afterwards the scheduler keeps working.',
 ['histories','schedules'],'every set of tasks with and without stop sources, callbacks, sleeps and calling contexts',
 'The test stops a handful of like tasks once; tasks without source, re-entrant callbacks and concurrent completion are not tried.',
 ['source/scheduler.cpp','source/rf_task.cpp',I+'rf_task.h',I+'stop_token.h'],
 [('scheduler_t::request_stop_all_if_possible','source/scheduler.cpp'),('task_t::get_stop_source/request_stop_if_possible','source/rf_task.cpp, '+I+'rf_task.h')],
 ['task table','stop source of each task','timers'],['stop callbacks run','outcome of sleeps','tasks completing'])
p('G01','Generators yield exactly their sequence, lazily',
 'Iterating a generator_t produces exactly the values passed to co_yield, then the value passed to co_return unless nothing was yielded before it, in order, each readable until the next increment; the body runs only on demand and never past the value being read. Dropping, moving or assigning a generator destroys its coroutine exactly once; a generator given to a scheduler advances one step per turn until it is done.',
 ['inputs','histories'],'every sequence of yields, element type, point at which iteration is abandoned, move and assignment, and use as a task',
 'The tests iterate integer sequences to the end; abandoned iterations, assignment and class-type values (whose lifetime matters) are not covered.',
 [I+'generator.h','source/state.cpp',I+'rf_task.h'],
 [('generator_iterator, generator_t::promise_type',I+'generator.h'),('state_generator_t::resume','source/state.cpp')],
 ['current value pointer','coroutine handle'],['sequence of values','side effects of the body','destructions'])
p('L01','Every object is destroyed exactly once and never used after',
 'When a task has finished, its scheduler has run and the timers it started are over, every coroutine frame, state, lambda capture, parameter, local, awaiter, result, exception, timer callback and channel element it created has been destroyed exactly once, and none was accessed after its destruction; captures of a spawned lambda outlive the whole coroutine body including its locals. No run of the library performs an invalid memory access or other undefined behaviour.',
 ['histories','schedules'],'every completed program over all the primitives, also with cancellation, timeouts, exceptions and scheduler switches',
 'Leaks and use after free do not change the outcome of an uninstrumented test and depend on which party lets go last.',
 ['source/state.cpp',I+'state.h',I+'counted_ptr.h',I+'promise.h',I+'rf_task.h','source/scheduler.cpp',I+'channel_v2.inl',I+'event_v2.inl',I+'mutex_v2.inl'],
 [('counted_ptr, state_base_t::lock/unlock',I+'counted_ptr.h, '+I+'state.h'),('state_future_t::resume (Final), promise_final_suspend','source/state.cpp, '+I+'state.inl'),('scheduler_t::del_final',I+'scheduler.h')],
 ['reference counts','live objects'],['constructor/destructor events of tracked objects','sanitizer reports'])
p('R01','Cross-thread use of the primitives is free of data races',
 'When events, channels, mutexes, awaitables, timers, stop sources, via() and spawning are used from several threads in the documented ways (each scheduler run by one thread), no two threads access the same library or user data without synchronisation: handing a value or a wakeup over also publishes everything done before it.',
 ['schedules'],'every multi-threaded program over the documented cross-thread operations, and every schedule of it',
 'A missing lock or a too weak memory order is invisible on most runs and on x86 nearly always; the tests run without a race detector.',
 [I+'spinlock.h',I+'event_v2.inl','source/event_v2.cpp',I+'channel_v2.inl',I+'mutex_v2.inl','source/mutex_v2.cpp','source/state.cpp',I+'state.inl',I+'stop_token.h','source/timer.cpp','source/scheduler.cpp'],
 [('spinlock::lock/unlock',I+'spinlock.h'),('scheduler_t::add_generator/run_one_batch',I+'scheduler.h, source/scheduler.cpp'),('stop_state',I+'stop_token.h')],
 None,['ThreadSanitizer reports'])
p('D01','ring_queue is a bounded FIFO and intrusive_link_queue a FIFO list',
 'A ring_queue of size n accepts a push exactly when it holds fewer than n elements and a pop exactly when it holds one, returns elements in push order, leaves its argument untouched when it refuses, and size/empty/full/capacity agree with that; with _Option it keeps no popped object alive. An intrusive_link_queue keeps elements in order under push_back, push_front, erase of any member and try_pop, with size and empty agreeing and popped nodes reusable.',
 ['inputs','histories'],'every operation sequence, size (including 0), element type and index type',
 'No test touches these structures directly; wrap-around, erasing the ends or the middle and refusal are left to chance.',
 [I+'ring_queue.h',I+'intrusive_link_queue.h'],
 [('ring_queue::try_push/try_pop/size/empty/full',I+'ring_queue.h'),('intrusive_link_queue::push_back/push_front/erase/try_pop',I+'intrusive_link_queue.h')],
 ['indices','links'],['results of each call'])
p('D02','spinlock and batch_lock_t exclude, release and never deadlock',
 'spinlock admits one holder at a time, try_lock succeeds exactly when it is free, and a waiter gets the lock after it is released. batch_lock_t returns with every listed lock held once, in any order of listing and under contention from overlapping batches without deadlock, and releases each exactly once, at unlock() or destruction, whichever is first, also after being moved; adopt_lock takes over locks already held.',
 ['schedules','inputs'],'every number of threads, locks, listing order and contention pattern',
 'The lock is only used implicitly, in tests with little contention; batches of overlapping locks are never contended.',
 [I+'spinlock.h',I+'without_deadlock_assemble.inl'],
 [('spinlock::lock/try_lock/unlock',I+'spinlock.h'),('batch_lock_t',I+'spinlock.h'),('lock_impl::_Lock_range',I+'without_deadlock_assemble.inl')],
 ['lock word'],['holders inside the critical section','state of every lock after release'])
p('D03','counted_ptr owns by reference count, exactly',
 'A counted_ptr keeps its target alive: the target\'s count equals the number of counted_ptr objects that refer to it after any sequence of construction, copy, move, assignment (also to itself), swap and reset, and the target is released exactly once, when the last one lets go, never earlier and not later. Moved-from and reset pointers are null and comparisons agree with the pointers held; concurrent copies on several threads keep the count exact.',
 ['inputs','histories','schedules'],'every sequence of pointer operations over any number of pointers, targets and threads',
 'No test uses counted_ptr directly; self-assignment, swaps and moved-from reuse never occur in them.',
 [I+'counted_ptr.h',I+'state.h'],
 [('counted_ptr',I+'counted_ptr.h'),('state_base_t::lock/unlock',I+'state.h')],
 ['reference count'],['count and release calls of an instrumented target'])
p('A01','asio operations complete their awaiter exactly once',
 'An asio asynchronous operation started with rf_task (use of asio_task.h) resumes the awaiting coroutine exactly once, on its own scheduler, with the operation\'s result, or with the matching std::system_error if it failed or was cancelled, whichever thread runs the io_context and whether completion precedes or follows the co_await.',
 ['schedules','inputs'],'every completion signature, error, cancellation and relative order of completion and await',
 'Only a benchmark uses the adapter, on the success path.',
 ['asio/asio_task.h','asio/asio_task_1.12.2.inl'],
 [('promise_handler / async_result specialisations','asio/asio_task_1.12.2.inl')],
 None,['result of co_await on the operation'])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'properties.jsonl')
with open(out,'w') as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+'\n')
print(len(P))
