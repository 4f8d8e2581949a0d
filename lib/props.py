"""Source of properties.jsonl."""
import json, os
P = []


def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])
    if state:
        a['state'] = [dict(name=state, where=files[0])]
    if observe:
        a['observe_at'] = [observe]
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
                  why_tests_cant=why, anchors=a))


SCHED = "The tests run a handful of programs on whatever interleaving the machine happens to produce; the guarantee is about every interleaving of fibers and threads, including a preemption between any two memory accesses."
I = 'include/boost/fiber/'

prop('M01', 'Mutexes give exclusive ownership, visibility and owner checks',
     "At any time at most one fiber owns a mutex, recursive_mutex, timed_mutex or recursive_timed_mutex, whichever threads the contending fibers run on, and what one owner wrote is visible to the next owner. "
     "try_lock fails only when another fiber owns the mutex; a recursive kind becomes available only after as many unlocks as successful locks. "
     "Locking a non-recursive mutex again by its owner (lock, try_lock) reports resource_deadlock_would_occur, and unlocking by a non-owner reports operation_not_permitted and leaves the mutex owned as before.",
     ['schedules', 'programs'], 'every program of lock/try_lock/unlock by any number of fibers on any number of threads, under every interleaving',
     SCHED, ['src/mutex.cpp', 'src/recursive_mutex.cpp', 'src/timed_mutex.cpp', 'src/recursive_timed_mutex.cpp', I + 'mutex.hpp'],
     [('ownership test and hand over under the internal spinlock', 'src/mutex.cpp lock/try_lock/unlock'),
      ('recursion count', 'src/recursive_mutex.cpp')], 'owner_, count_ and the wait queue of each mutex', 'call and return of lock, try_lock, unlock and of accesses to the guarded data')
prop('M02', 'A released mutex always reaches a waiting fiber',
     "When a mutex of any of the four kinds is released and fibers are blocked trying to lock it, one of them obtains it: no fiber stays blocked forever on a mutex that nobody owns. "
     "This holds whether the waiters and the releasing fiber share a thread or not, and whether or not other waiters of the same mutex give up because of a timeout.",
     ['schedules', 'programs'], 'every interleaving of lock, timed lock, unlock and of expiring timeouts, across fibers and threads',
     "A lost wakeup needs an unlock to fall into the few instructions between a waiter's check and its suspension, or an expiring timeout to race with a notification; tests never control that.",
     ['src/mutex.cpp', 'src/timed_mutex.cpp', 'src/waker.cpp', 'src/scheduler.cpp', 'src/context.cpp'],
     [('wait queue: enqueue and suspend release the spinlock only after the switch', 'src/waker.cpp suspend_and_wait, src/context.cpp resume(lk)'),
      ('notify_one skips outdated waiters', 'src/waker.cpp notify_one')], 'wait queue, waker epochs', 'executions in which nothing can move any more')
prop('M03', 'Timed locking neither gives up early nor misses a free mutex',
     "try_lock_for and try_lock_until of timed_mutex and recursive_timed_mutex return false only at or after their deadline and return true only with ownership obtained. "
     "With an uncontended free mutex they succeed even if the deadline has already passed, and they always return once the deadline has passed. "
     "A fiber that gave up owns nothing and no longer takes part in the competition for the mutex.",
     ['schedules', 'inputs', 'programs'], 'every deadline (past, present, future, steady or system clock) and every interleaving of the timeout with unlocks',
     "The interesting cases are the coincidences of a timeout with an unlock, which wall-clock tests can neither produce nor repeat.",
     ['src/timed_mutex.cpp', 'src/recursive_timed_mutex.cpp', 'src/waker.cpp', 'src/scheduler.cpp', I + 'detail/convert.hpp'],
     [('deadline test and wait', 'src/timed_mutex.cpp try_lock_until_'), ('sleep queue', 'src/scheduler.cpp sleep2ready_, wait_until')],
     'sleep queue, wait queue, waker epoch', 'call and return of timed locks with virtual time')
prop('C01', 'Condition variables: atomic release-and-wait, no notification is lost',
     "A fiber that waits on a condition_variable or condition_variable_any releases its lock and becomes a waiter in one atomic step: a notify issued after the lock was released by the wait always finds it. "
     "notify_one resumes at least one waiter if there is any and notify_all resumes every fiber waiting at that moment, on whatever thread they are. "
     "A fiber waiting without notification does not run on; a notified fiber always does once it can re-acquire the lock.",
     ['schedules', 'programs'], 'every interleaving of wait, timed wait, notify_one, notify_all and expiring timeouts by any number of fibers and threads',
     SCHED, [I + 'condition_variable.hpp', 'src/condition_variable.cpp', 'src/waker.cpp', 'src/context.cpp'],
     [('internal spinlock is held from before the unlock of the user lock until after the switch', 'condition_variable_any::wait'),
      ('notify takes the same spinlock', 'src/condition_variable.cpp')], 'wait queue of the condition variable', 'call and return of waits and notifies; executions in which nothing can move any more')
prop('C02', 'Condition waits return holding the lock, never spuriously, and on time',
     "Every wait form returns with the lock re-acquired by the calling fiber, after a normal wakeup as well as after a timeout. "
     "A plain wait returns only because of a notification issued after the wait began; the predicate forms return only with the predicate true, or (timed forms) after the deadline with the predicate's current value. "
     "Timed waits report a timeout only at or after the deadline and always return after it.",
     ['schedules', 'inputs', 'programs'], 'every wait form, deadline, clock and interleaving with notifications, including OS-level spurious wakeups',
     "Whether a wakeup was caused by a notification and whether a timeout was early depends on interleavings and clock readings that tests do not control.",
     [I + 'condition_variable.hpp', 'src/waker.cpp', 'src/scheduler.cpp'],
     [('relock after the wait', 'condition_variable_any::wait, wait_until'), ('predicate loops', 'condition_variable_any::wait( lk, pred)')],
     'wait queue, sleep queue, the user lock', 'call and return of waits, notifies, lock operations and guarded data')
prop('B01', 'Barrier releases exactly when all have arrived, exactly one leader per phase',
     "A fiber leaves barrier::wait only after the configured number of fibers has arrived in its phase, and then all of them leave; exactly one of each phase gets true. "
     "The barrier is reusable at once for the next phase, however fast some fibers re-enter, and writes made before arriving are visible to all fibers of the phase afterwards. A barrier of zero fibers is rejected with invalid_argument.",
     ['schedules', 'inputs'], 'every number of participants and phases, every interleaving across fibers and threads',
     SCHED, ['src/barrier.cpp', I + 'barrier.hpp'],
     [('cycle counter', 'src/barrier.cpp wait')], 'initial_, current_, cycle_', 'call and return of wait')
prop('Q01', 'Buffered channel: bounded FIFO, every element delivered exactly once',
     "Elements pushed successfully are delivered exactly once and in the order in which the pushes took effect; nothing else is ever delivered, and a push that reports full, closed or timeout has no effect. "
     "At most capacity - 1 elements are held: try_push reports full exactly when that many are stored and try_pop reports empty exactly when none is. "
     "A capacity that is not a power of two or is less than two is rejected with invalid_argument.",
     ['schedules', 'programs', 'inputs'], 'every number of producers and consumers, capacity, mix of blocking, non-blocking and timed operations, and interleaving; indices wrapped around any number of times',
     SCHED, [I + 'buffered_channel.hpp'],
     [('ring buffer indices under the spinlock', 'buffered_channel push/pop families')], 'slots_, pidx_, cidx_', 'call and return of every channel operation')
prop('Q02', 'Closing a buffered channel stops producers and lets consumers drain it',
     "After close, every push form reports closed, and the elements accepted before remain available: pops return them in order and report closed (value_pop: throws operation_not_permitted) only when the channel is empty. "
     "Every fiber blocked in a push or a pop when the channel is closed is released. close may be repeated and is_closed tells the truth.",
     ['schedules', 'programs'], 'every interleaving of close with any number of blocked or running producers and consumers',
     SCHED, [I + 'buffered_channel.hpp'], [('closed_ flag and notify_all under the spinlock', 'buffered_channel::close')],
     'closed_, both wait queues', 'call and return of channel operations; executions in which nothing can move any more')
prop('Q03', 'Blocked buffered channel operations resume when possible, timed ones on time',
     "A fiber blocked in push resumes once there is room, and one blocked in pop resumes once there is an element, however many fibers wait on either side and even if other waiters give up because of timeouts. "
     "push_wait_for/until and pop_wait_for/until report timeout only at or after the deadline and always return after it.",
     ['schedules', 'programs', 'inputs'], 'every interleaving of producers and consumers on any threads with expiring timeouts',
     "A lost wakeup leaves a program hanging only under a particular interleaving, often one where a timeout and a notification coincide.",
     [I + 'buffered_channel.hpp', 'src/waker.cpp', 'src/scheduler.cpp'],
     [('one notification per stored or removed element', 'buffered_channel'), ('wait queue with timeouts', 'src/waker.cpp')],
     'waiting_producers_, waiting_consumers_', 'executions in which nothing can move any more; return of timed operations with virtual time')
prop('U01', 'Unbuffered channel hands each value to exactly one consumer before push returns',
     "A push succeeds if and only if exactly one pop received its value, while that push was in progress; every successful pop returns the value of such a push and sees everything the producer wrote before. "
     "No value is delivered twice, invented, or delivered although its push reported closed or timeout.",
     ['schedules', 'programs'], 'every number of producers and consumers on any threads, every interleaving, including timeouts and close racing with the hand-over',
     SCHED, [I + 'unbuffered_channel.hpp'],
     [('slot pointer exchanged by compare-and-swap', 'unbuffered_channel try_push_/try_pop_'), ('wake up of the producer after the value was moved', 'unbuffered_channel pop')],
     'slot_, waker of the slot', 'call and return of push and pop forms')
prop('U02', 'Unbuffered channel: partners always meet; close and timeouts release the blocked',
     "Whenever a producer and a consumer are both blocked on an open unbuffered channel they are matched with each other; closing it releases every blocked producer and consumer, and later operations report closed (value_pop throws operation_not_permitted). "
     "Timed operations report timeout only at or after the deadline and always return after it.",
     ['schedules', 'programs', 'inputs'], 'every interleaving of push, pop, their timed forms and close across fibers and threads',
     "A missed match or release shows up only when close, a timeout or a second partner falls between two internal steps of the hand-over.",
     [I + 'unbuffered_channel.hpp', 'src/waker.cpp'],
     [('close wakes the producer in the slot and both wait queues', 'unbuffered_channel::close'), ('re-check under the spinlock before waiting', 'unbuffered_channel push/pop')],
     'slot_, closed_, both wait queues', 'executions in which nothing can move any more; returns of timed operations')
prop('V01', 'Channels and channel iterators create and destroy each element exactly once',
     "Iterating over a buffered or unbuffered channel delivers the same elements as repeated value_pop until the channel is closed and drained. "
     "Every element object that the channel or an iterator creates is destroyed exactly once and never used afterwards, also when the iteration is abandoned early and when elements remain in a channel that is destroyed.",
     ['programs', 'schedules'], 'every mix of push and pop forms and of complete or abandoned iterations, over element types with non-trivial destruction',
     "The tests iterate over ints; double destruction or leaks of elements with real destructors are invisible to them.",
     [I + 'buffered_channel.hpp', I + 'unbuffered_channel.hpp'], [('storage of the current element', 'iterator::increment_, operator++')],
     'storage of iterators, slots', 'life cycle of instrumented element objects')
prop('F01', 'A promise is satisfied once, and its future delivers exactly that outcome',
     "The first set_value or set_exception on a promise (for values, references and void) decides the outcome; every later or concurrent attempt reports promise_already_satisfied and changes nothing. "
     "The future's get returns that value or rethrows that exception once, with everything written before set visible, and leaves the future invalid; get_exception_ptr and wait leave it valid. "
     "Abandoning an unsatisfied promise makes the outcome broken_promise; get_future twice, and using a promise or future without state, are reported with the documented error codes.",
     ['schedules', 'programs'], 'every sequence and interleaving of operations on promises and futures, by any fibers and threads, including moves and swaps',
     SCHED, [I + 'future/promise.hpp', I + 'future/future.hpp', I + 'future/detail/shared_state.hpp'],
     [('ready_ flag under the mutex of the shared state', 'shared_state set_value_/set_exception_'), ('owner_destroyed', 'promise_base destructor')],
     'shared state: ready_, except_, storage_', 'call and return of promise and future operations')
prop('F02', 'Waiting on a future ends when the result is available, timed waits on time',
     "Every fiber blocked in get, wait or get_exception_ptr of a future or shared_future resumes when the result is set or the promise is abandoned, however many wait and on whatever threads. "
     "wait_for and wait_until report ready only when the result is available and timeout only at or after the deadline with the result missing; they always return after the deadline.",
     ['schedules', 'inputs'], 'every interleaving of waiting, setting, abandoning and timeouts',
     SCHED, [I + 'future/detail/shared_state.hpp', I + 'future/future.hpp'],
     [('condition variable of the shared state', 'shared_state_base mark_ready_and_notify_, wait_, wait_until_')], 'ready_, waiters_', 'executions in which nothing can move any more; timed waits with virtual time')
prop('F03', 'packaged_task and async deliver the outcome of their function exactly once',
     "Invoking a packaged_task runs its function and makes its value or exception the outcome of the associated future; a second invocation without reset reports promise_already_satisfied, and reset provides a fresh state while a future of an abandoned, never invoked state reports broken_promise. "
     "async runs its function in exactly one new fiber (with launch::dispatch at once) and its future delivers the function's value or exception after the function has returned.",
     ['schedules', 'programs'], 'every sequence of packaged_task operations including moves, and every interleaving of async fibers with the waiting fibers',
     SCHED, [I + 'future/packaged_task.hpp', I + 'future/async.hpp', I + 'future/detail/task_object.hpp'],
     [('run catches every exception', 'task_object::run'), ('reset', 'packaged_task::reset')], 'task_, obtained_, shared state', 'call and return of packaged_task, async and future operations')
prop('F04', 'shared_future copies all deliver the one outcome, any number of times',
     "Any number of copies of a shared_future, used by any fibers, return the same value or rethrow the same exception from every get, and remain valid. "
     "share() (or conversion) invalidates the future it came from; the result object lives until the last copy is gone and is then destroyed exactly once.",
     ['schedules', 'programs'], 'every pattern of copying, moving, dropping and getting across fibers and threads',
     SCHED, [I + 'future/future.hpp', I + 'future/detail/shared_state.hpp'], [('reference count of the shared state', 'intrusive_ptr_add_ref/release')],
     'use_count_, storage_', 'returns of get on copies; life cycle of instrumented results')
prop('L01', 'Fibers run exactly once with their arguments; launch policy, join, detach, ids',
     "Every launched fiber runs its function exactly once with copies of its arguments: under launch::dispatch it is entered at once, before the launching fiber goes on on that thread, under launch::post not before the launching fiber gives up control on its thread. "
     "join returns only after the fiber's function has returned and makes its effects visible; a joined or detached handle is not joinable, joining oneself reports resource_deadlock_would_occur, joining or detaching a non-joinable handle invalid_argument. "
     "Ids are unique among live fibers and follow the handle through moves and swaps.",
     ['programs', 'schedules'], 'every program of launching, joining, detaching, moving handles and yielding, nested and across scheduling algorithms and threads',
     SCHED, ['src/fiber.cpp', I + 'fiber.hpp', 'src/context.cpp', I + 'context.hpp'],
     [('start according to the policy', 'fiber::start_'), ('terminated_ flag and wait queue under the spinlock', 'context::join, context::terminate')],
     'context of the fiber: terminated_, wait_queue_', 'begin and end of fiber functions, call and return of fiber operations')
prop('L02', 'Fibers finish before their thread ends; resources are released exactly once',
     "A thread whose main fiber has returned still runs all fibers that belong to it, joined or detached, to completion before it ends. "
     "Every fiber stack, control block, argument and properties object is released exactly once, never while the fiber may still run or another fiber still refers to it, and nothing is left when all threads have ended.",
     ['schedules', 'programs'], 'every order of termination, join, detach, handle release and thread exit, including wakeups from other threads that arrive at the last moment',
     "Use after release and leaks depend on the order of termination across threads; the tests do not look at memory.",
     ['src/scheduler.cpp', 'src/context.cpp', I + 'context.hpp', I + 'fiber.hpp'],
     [('shutdown of the dispatcher', 'scheduler::~scheduler, scheduler::dispatch'), ('terminated queue', 'scheduler::terminate, release_terminated_'), ('reference count', 'intrusive_ptr_release( context *)')],
     'worker, terminated and ready queues, use_count_', 'stack allocator, life cycle of instrumented objects, arena that detects use after release')
prop('S01', 'A ready fiber is scheduled once per wakeup and never runs on two threads',
     "Every time a fiber becomes ready it is handed to the scheduling algorithm exactly once, and it is resumed only after having been picked; it is never run by two threads at a time or resumed while it is still running or suspending. "
     "A fiber that is blocked is not resumed without a reason. Main and dispatcher fibers stay on their thread, and replacing the scheduling algorithm of a running thread loses no ready fiber.",
     ['schedules', 'programs'], 'every interleaving of local and remote wakeups, timeouts, yields, terminations and migrations',
     SCHED, ['src/scheduler.cpp', 'src/context.cpp', 'src/waker.cpp', I + 'context.hpp'],
     [('waker epochs let only one wakeup through', 'context::wake'), ('the lock is released by the next context', 'context::resume( lk)')],
     'waker_epoch_, hooks of the ready, remote-ready and sleep queues', 'calls of awakened and pick_next and the events of the fibers themselves')
prop('S02', 'A wakeup from another thread is never lost',
     "When a fiber on one thread makes a fiber of another thread ready (by unlock, notify, channel, future, barrier or fiber termination), the latter is eventually run, even if its thread is at that moment about to go to sleep or already asleep, with or without a pending timeout.",
     ['schedules'], 'every position of the remote wakeup relative to the steps by which the other thread goes idle',
     "The window between an idle thread's last check and its sleep is a few instructions wide.",
     ['src/scheduler.cpp', 'src/algo/round_robin.cpp', 'src/algo/shared_work.cpp', 'src/algo/work_stealing.cpp'],
     [('remote ready queue under its spinlock, then notify', 'scheduler::schedule_from_remote'), ('flag_ checked under the mutex', 'round_robin::suspend_until/notify')],
     'remote_ready_queue_, flag_', 'executions in which nothing can move any more')
prop('S03', 'Sleeping fibers never wake early and always wake',
     "sleep_for and sleep_until (steady and other clocks) return only at or after the requested time and always return after it, on busy and on idle threads, whatever the order in which several deadlines were set, and whatever OS-level spurious wakeups happen. "
     "While any fiber sleeps, the others of its thread keep running.",
     ['schedules', 'inputs'], 'every set of deadlines (past, equal, ordered arbitrarily), every activity of other fibers and threads meanwhile',
     "Tests use generous real-time margins and one sleeper at a time.",
     ['src/scheduler.cpp', I + 'operations.hpp', I + 'detail/convert.hpp', 'src/algo/round_robin.cpp'],
     [('sorted sleep queue', 'scheduler::wait_until, sleep2ready_'), ('dispatcher sleeps until the lowest deadline', 'scheduler::dispatch')],
     'sleep_queue_, tp_', 'call and return of sleeps with virtual time')
prop('A01', 'round_robin runs ready fibers in the order in which they became ready',
     "The round_robin scheduler picks the fibers of its thread in exactly the order in which they were made ready, so that a fiber that yields runs again after every fiber that was ready before it. "
     "It reports ready fibers exactly when there are some and does not sleep while one is ready.",
     ['programs', 'schedules'], 'every program of launching, yielding, blocking and waking fibers',
     "The tests look at the order of one or two fixed programs.",
     ['src/algo/round_robin.cpp', 'src/scheduler.cpp', 'src/context.cpp'], [('push at the back, pop at the front', 'round_robin::awakened, pick_next')],
     'rqueue_', 'calls of awakened and pick_next')
prop('A02', 'shared_work runs every ready fiber once, on one thread, in global FIFO order',
     "With shared_work on several threads, every fiber made ready is picked by exactly one thread, in the order in which fibers were put on the shared queue; main and dispatcher fibers are run by their own thread only, when no shared fiber is ready. "
     "As long as the threads live, a ready fiber is eventually run.",
     ['schedules', 'programs'], 'every interleaving of threads that share fibers',
     SCHED, ['src/algo/shared_work.cpp'], [('shared queue under a mutex', 'shared_work::awakened, pick_next')], 'rqueue_, lqueue_', 'calls of awakened and pick_next on all threads')
prop('A03', 'work_stealing neither loses nor duplicates fibers, and never moves pinned ones',
     "With work_stealing on several threads, every fiber made ready is run exactly once per wakeup, by its own thread or by a thief, also when owner and thief compete for the last fiber and while the queue grows beyond its capacity. "
     "Main and dispatcher fibers are never stolen, and any number of threads including one works.",
     ['schedules', 'programs', 'configurations'], 'every interleaving of the owner and any number of thieves, any number of queued fibers',
     SCHED, ['src/algo/work_stealing.cpp', I + 'algo/work_stealing.hpp', I + 'detail/context_spmc_queue.hpp', I + 'detail/context_spinlock_queue.hpp'],
     [('Chase-Lev deque', 'context_spmc_queue push/pop/steal/resize'), ('victim selection', 'work_stealing::pick_next')],
     'top_, bottom_, array_', 'calls of awakened and pick_next on all threads; the queues driven directly')
prop('P01', 'fiber_specific_ptr: one private value per fiber, cleaned up exactly once',
     "Each fiber sees only the value it has set itself (initially null), wherever it runs and however it is interleaved with others. "
     "The clean-up function (or delete) is applied exactly once to each value when it is replaced, when the pointer is destroyed by that fiber, or when a launched fiber ends; never to a released, null or still current value, and not when the same value is set again.",
     ['programs', 'schedules'], 'every program of set, release, get, destruction by any number of fibers and pointers, with migration between threads',
     "The tests use one fiber at a time and count one clean-up.",
     [I + 'fss.hpp', 'src/context.cpp', I + 'detail/fss.hpp'], [('map from pointer to value in the context', 'context::set_fss_data, get_fss_data, terminate')],
     'fss_data_', 'returns of get/release and calls of the clean-up function')
prop('P02', 'Fiber properties belong to their fiber and changes reach the scheduler',
     "A scheduler with properties sees, for every fiber it is given, the properties object of that very fiber, created on demand or supplied at launch, and the same one every time. "
     "A change announced through notify while the fiber is queued as ready is reported to the scheduler exactly once, for that fiber, with the new values visible; a change to a running or blocked fiber is not reported but seen at its next awakening. Properties are destroyed with their fiber, once.",
     ['programs', 'schedules'], 'every program of launching fibers with or without properties, changing them from the fiber itself or from another, ready or blocked',
     "The tests exercise one fixed priority scheduler program.",
     ['src/properties.cpp', I + 'properties.hpp', I + 'algo/algorithm.hpp', 'src/algo/algorithm.cpp', I + 'fiber.hpp'],
     [('properties created on awakened', 'algorithm_with_properties::awakened'), ('notify', 'fiber_properties::notify')], 'properties_ of the context', 'calls of awakened and property_change')
prop('T01', 'All spinlock variants give mutual exclusion, visibility and progress',
     "For each spinlock variant of the library (ttas, adaptive, futex, adaptive futex): at most one thread is between lock (or a successful try_lock) and unlock, what one holder wrote is visible to the next under the C++ memory model, and a thread waiting for the lock obtains it after it was released, even if it sleeps on the futex. "
     "try_lock never blocks and never fails on a free lock without contention.",
     ['schedules', 'configurations'], 'every interleaving of threads at the granularity of single atomic operations, spurious futex wakeups included',
     "Only one variant is built by the tests, and missing orderings or lost futex wakeups do not show on a strongly ordered machine under light load.",
     [I + 'detail/spinlock_ttas.hpp', I + 'detail/spinlock_ttas_adaptive.hpp', I + 'detail/spinlock_ttas_futex.hpp', I + 'detail/spinlock_ttas_adaptive_futex.hpp', I + 'detail/futex.hpp'],
     [('test-test-and-set', 'lock()'), ('value 2 means waiters', 'spinlock_ttas_futex lock/unlock')], 'state_, value_', 'lock operations and guarded data, with happens-before tracked by vector clocks')

if __name__ == '__main__':
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(here, 'properties.jsonl'), 'w') as fh:
        for p in P:
            fh.write(json.dumps(p) + '\n')
