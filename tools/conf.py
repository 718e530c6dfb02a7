# What each check builds and runs: parts (harness files) for quick, further ones for thorough.
CHAN = ['h_chan:1', 'h_chan:2']
CONF = {
    'C01': dict(parts=CHAN, more=['h_chan:3'], mt=True),
    'C02': dict(parts=CHAN, more=['h_chan:3'], mt=True),
}
for _p in ('E01', 'E02', 'E03'): CONF[_p] = dict(parts=['h_event:1', 'h_event:2'], mt=True)
for _p in ('M01', 'M02', 'M03'): CONF[_p] = dict(parts=['h_mutex:1', 'h_mutex:2'], mt=True)
for _p in ('F01', 'F02'): CONF[_p] = dict(parts=['h_future:1', 'h_future:2', 'h_future:3'], more=['h_mix:1', 'h_mix:2'], mt=True)
for _p in ('S01', 'S02', 'S04'): CONF[_p] = dict(parts=['h_sched:1', 'h_sched:2', 'h_future:3'], mt=True)
CONF['S01'].update(parts=CONF['S01']['parts'] + ['h_gen:1'], more=['h_mix:1', 'h_mix:2', 'h_future:2'])
CONF['S03'] = dict(parts=['h_sched:1', 'h_sched:2', 'h_future:2', 'h_future:3', 'h_chan:2', 'h_event:2', 'h_mutex:2', 'h_time:2', 'h_when:2'], more=['h_mix:1', 'h_mix:2', 'h_gen:2', 'h_stop:2', 'h_asio:1', 'h_asio:2'], mt=True, quick_s=30)
for _p in ('T01', 'T02'): CONF[_p] = dict(parts=['h_time:1', 'h_time:2'], mt=True)
CONF['T02']['more'] = ['h_stop:1']

for _p in ('W01', 'W02'): CONF[_p] = dict(parts=['h_when:1', 'h_when:2'], mt=True)
for _p in ('K01', 'K02'): CONF[_p] = dict(parts=['h_stop:1', 'h_stop:2'], mt=True)
CONF['K02']['more'] = ['h_time:1']
CONF['G01'] = dict(parts=['h_gen:1', 'h_gen:2'], mt=True)
CONF['D01'] = dict(parts=['h_data:1'])
for _p in ('D02', 'D03'): CONF[_p] = dict(parts=['h_data:1', 'h_data:2'], mt=True)
CONF['A01'] = dict(parts=['h_asio:1', 'h_asio:2'], mt=True)
_ST = ['h_chan:1', 'h_event:1', 'h_mutex:1', 'h_future:1', 'h_sched:1', 'h_time:1', 'h_when:1', 'h_stop:1', 'h_gen:1', 'h_data:1', 'h_mix:1', 'h_hold', 'h_scale:1', 'h_scale:2', 'h_scale:3', 'h_scale:4']
_MT = ['h_chan:2', 'h_event:2', 'h_mutex:2', 'h_future:2', 'h_future:3', 'h_sched:2', 'h_time:2', 'h_when:2', 'h_stop:2', 'h_gen:2', 'h_data:2', 'h_mix:2', 'h_asio:1', 'h_asio:2']
CONF['L01'] = dict(parts=_ST + _MT, more=['h_chan:3'], variants=['asan'], quick_s=30)
CONF['R01'] = dict(parts=_MT, more=['h_chan:3'], variants=['tsan'], mt=True, quick_s=30)
for _n, _ids in ((1, ('C01', 'C02', 'D01')), (2, ('E01', 'E02', 'E03', 'M01', 'M02', 'M03')), (3, ('S01', 'S02', 'S03', 'S04', 'F01', 'F02', 'T01', 'T02')), (4, ('W01', 'W02', 'K01', 'K02', 'G01', 'D02', 'D03'))):
    for _p in _ids: CONF[_p] = dict(CONF[_p], parts=CONF[_p]['parts'] + ['h_scale:%d' % _n])
RULES = {}
N_ST = 'Every explored program was accepted by an exact reference model; programs, element types and schedules are sampled at random; plain programs also at sizes up to thousands, rarely beyond 2^16. '
N_MT = 'Thread schedules are sampled by a seeded preemption engine (one thread at a time, so weak memory reordering itself is not executed; missing synchronisation is left to ThreadSanitizer). '
T = {
 'C01': ('exact reference model of the channel on single-threaded programs, offline order/exactly-once checker over event logs of multi-threaded ones under controlled schedules', N_ST + N_MT),
 'C02': ('exact reference model decides immediacy and who is served; quiescence checker for stranded waiters under controlled schedules', N_ST + N_MT),
 'E01': ('exact counting-semaphore model of events on single-threaded programs; conservation and order checker over logs of multi-threaded ones under controlled schedules', N_ST + N_MT),
 'E02': ('exact model of timed waits on a virtual clock; outcome, earliness, conservation and starvation checker over logs of multi-threaded runs with clock jitter', N_ST + N_MT),
 'E03': ('exact model of wait_all / wait_all_for on a virtual clock; conservation and deadlock (step budget) monitors under controlled schedules', N_ST + N_MT),
 'M01': ('exact ownership model (owner, depth, queue) on single-threaded programs; exclusion, first-come-first-served and publication monitors under controlled schedules', N_ST + N_MT),
 'M02': ('exact ownership model decides every try and timed lock on a virtual clock; truthfulness and order checker over logs of multi-threaded runs', N_ST + N_MT),
 'M03': ('holder monitors around every multi-lock (coroutine and address style), lock-state probes and a step budget for progress, under random order lists and controlled schedules', N_MT),
 'F01': ('every result (8 result types, 5 exception kinds) is tagged and compared at delivery; immediacy, batch and exactly-once monitors, publication under ThreadSanitizer', N_ST + N_MT),
 'F02': ('random coroutine trees are run and their step log (scopes entered and left, values, exceptions caught) compared with a reference evaluator; also spread over several scheduler threads', 'Trees of up to 40 coroutines and depth 6, sampled at random. '),
 'S01': ('exact ready-queue model of 1-3 schedulers decides every start, resumption and end; completion and termination monitors for schedulers on threads with spawners from outside', N_ST + N_MT),
 'S02': ('exact ready-queue model decides who runs next; turn checker over logs of yielding coroutines with spawners on other threads', N_ST + N_MT),
 'S03': ('place monitor after every suspension point (thread, scheduler, inside a batch), exact model of which scheduler counts which task, via() at every depth', N_ST + N_MT),
 'S04': ('context queries at every depth are compared with the reference model; binding of schedulers to threads is compared with a scope model', N_ST + N_MT),
 'T01': ('exact timer model on a virtual clock (deadline order, cancellation, handlers, callbacks that add, stop and clear); exactly-once, earliness, lateness per batch and order checker over multi-threaded runs', N_ST + N_MT),
 'T02': ('outcome, earliness, lateness and order monitors for every kind of sleep on a virtual clock, with cancellation from tasks, timers and outside', N_ST + N_MT),
 'W01': ('completion, early-completion, position and value monitors over random when_all rounds (all call forms, 6 kinds of sub-tasks, sub-tasks that move between schedulers or are complete before the call)', N_ST + N_MT),
 'W02': ('completion stamps decide which sub-task may be reported first; exactly-once, value and liveness monitors over random when_any rounds (all call forms)', N_ST + N_MT),
 'K01': ('exact model of stop states (sources, tokens, callbacks, requests nested in callbacks, lifetime of the shared state by allocation counts); exactly-once, thread, destructor and publication monitors for requests racing with registration and destruction', N_ST + N_MT),
 'K02': ('exact model of which tasks, sleeps and timers a stop must reach, with stops from tasks, timers and stop callbacks; reach and isolation monitors for schedulers on threads with stops from outside', N_ST + N_MT),
 'G01': ('step and value monitors inside generator bodies against the plan of each generator (8 value types, partial iteration, moves, assignments, drops, nesting), exact turn model for generators given to schedulers', N_ST + N_MT),
 'D01': ('differential monitors: every operation of random programs is compared with a reference deque, with element life counts', N_ST),
 'D02': ('recording locks that simulate contention and exceptions decide what batch_lock_t holds and releases; exclusion, try_lock truth and publication monitors under controlled schedules', N_ST + N_MT),
 'D03': ('exact reference count model over random programs, self-referring chains, and threads sharing a target under ThreadSanitizer', N_ST + N_MT),
 'A01': ('tagged results and errors of operations with every completion signature, completed before and after the await on this and other threads; a real io_context (sockets, timers, posts, cancellation) polled by one or several threads, with byte order, error, place and delivery monitors', N_ST + N_MT),
 'L01': ('AddressSanitizer and UBSan over every workload of the framework and over programs mixing all primitives; watched objects in captures, parameters, locals, results and exceptions; allocation balance per case, confirmed by repetition; allocation balance between rounds of tasks on primitives and schedulers that live on', N_ST + N_MT),
 'R01': ('ThreadSanitizer over every multi-threaded workload of the framework under controlled schedules whose scheduler creates no ordering; monitors share no synchronisation with the library', N_MT),
}
for _k, (_t, _n) in T.items():
    if _k in CONF: CONF[_k]['technique'] = _t; CONF[_k]['note'] = _n.strip()
