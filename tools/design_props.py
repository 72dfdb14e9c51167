"""Per property: what is decided, by which oracle, why tests cannot settle it, what is left out. Used by gen_design.py."""
D = {
'P01': ('Threads hold/try/scoped-lock one real coro::mutex; a counter of holders inside the critical section is the oracle for exclusion, a per-waiter counter for "resumed exactly once", the lock word after the last unlock (try_lock succeeds) for "free again". `seq` drives two scoped_locks and two mutexes through every sequence of lock/try/move/assign/unlock/destroy against a reference state; `hand` checks the hand-over to queued waiters.',
        'the lock-free push/hand-over protocol has windows of a few instructions between load and CAS', 'weak memory; more than 3 threads'),
'P02': ('Waiters and setters on threads of their own; each waiter must continue only after the set, exactly once; resumption order is compared with the policy in `seq`, against a reference model of set/reset/await/set(executor).',
        'a waiter pushing itself while set() swaps the list', 'more than 3 waiters'),
'P03': ('Decrements of symbolic amounts from several threads, waiter counters; `seq`/`seqn` run the real latch on every 64-bit initial count with symbolic 64-bit decrements against the arithmetic of remaining()/is_ready().',
        'counts of zero, negative, overshooting decrements: a 64-bit input space', 'sums of decrements that overflow 64 bits are assumed away'),
'P04': ('Ghost count of permits (acquired minus released) against the real semaphore; value() in [0,max]; `shut*`: every suspended acquire ends exactly once with the documented result.',
        'release/acquire/shutdown races', 'acquire() racing a shutdown may consume a permit and still report shutdown (accepted: the documentation does not exclude it)'),
'P05': ('Ghost reader/writer counts, arrival order recorded under the real mutex; `seq` releases in every order and compares the grants with a FIFO reference.',
        'mixture of 6 operations and every schedule', 'a scoped task that throws leaves the lock held (see open observations)'),
'P06': ('Each element carries an identity; ghost sets of produced/consumed identities, order per producer, occupancy at most the capacity, and at the end no operation is suspended although it could proceed.',
        'the hand-over between waiting producers and consumers is lock-free', 'indices that wrap around 2^64'),
'P07': ('As P06 with notify_*, shutdown and shutdown_drain in any position and from any thread; each suspended operation must end exactly once with the right result.', 'shutdown racing suspended operations', '-'),
'P08': ('Identities as in P06 for the unbounded queue; `fwd` checks that push/emplace forward value categories into the element (move-only, const, arguments of either category) whether it is handed over or buffered.', 'the window between a consumer suspending and a producer looking for it', 'element types whose construction throws'),
'P09': ('As P08 with shutdown and shutdown_drain.', 'two shutdown requests racing, draining racing producers', '-'),
'P10': ('Waits of every kind (plain, predicate, stop token, timed) against notify_one/notify_all; ghost ownership of the mutex at return, notification accounting, time on the virtual clock for the timed ones.', 'lost wake-ups between re-queueing and unlocking, timer racing notify', 'several timed waiters on threads'),
'P11': ('Real worker threads (modelled std::thread/std::condition_variable); every submission kind; the thread each coroutine runs on is recorded; size(), frames and threads accounted for at the end. `live`, `nested` and `together` wait for the work without a shutdown (a lost wake-up is a deadlock), `spurious` lets a worker wake up for no reason.', 'work accepted while shutdown runs', 'concurrent second shutdown() (open observation)'),
'P12': ('Sequences over task objects with counting result/argument types (live objects, copies), heap balance, use-after-free by the engine.', 'every order of move/resume/await/destroy', '-'),
'P13': ('A completing thread that may finish at any instruction of the waiter; the waiter may also wake up for no reason, and a notification sent without the mutex may arrive after the waiter has gone.', 'completion between the check and the wait', '-'),
'P14': ('Awaitables that finish inline or on threads; results at their position, exceptions included; one resumption; heap balance.', 'the latch race when the last task ends while the awaiter suspends', 'more than 3 awaitables'),
'P15': ('As P14; the first completion is fixed by a ghost order taken inside the awaitables; late finishers run after the caller is gone.', 'late finishers and simultaneous finishers', '-'),
'P16': ('A manual executor with tasks on threads, refusal chosen symbolically, group destroyed in every state.', 'last task finishing while the awaiter arrives or the group dies', '-'),
'P17': ('Generators over counting objects with symbolic length, throw position and abandonment.', 'every point of abandonment times moves', '-'),
'P18': ('Real scheduler on the virtual kernel (timerfd/epoll on a symbolic clock); all durations are 8- to 34-bit symbolic values; each resumption is compared with the clock and each expired timer must have been resumed when the loop was driven. Integer linear arithmetic is decided by Z3 over bit-vectors or, where no operation can overflow, over integers.', 'early by truncation, lost when added during expiry: particular values of time', 'durations beyond 13 s (except the arithmetic corner cases named in `t2ns`)'),
'P19': ('Virtual kernel decides readiness, hang-up and errors symbolically; the epoll set and the timer list of the real scheduler are inspected for remains after each poll.', 'event, timeout and cancellation coinciding', 'two polls on one descriptor at the same time, a token shared by two polls (open observations)'),
'P20': ('Inline and pool schedulers with their event loop thread or driven by hand; a ghost counter per piece of work; frames, size(), threads and descriptors at the end.', 'work offered while the loop stops', 'a hand-driven scheduler only runs what the user drives; polls and timers pending at shutdown'),
'P21': ('Descriptor table of the virtual kernel: each number opened by the library must be closed exactly once, closing anything else fails at once; any one system call may fail.', 'sequences of special members, failures half-way', 'double failures'),
'P22': ('The kernel model of recv/send moves any number of bytes of any value or fails with any errno, the oracle is the byte stream it moved; deadlines on the virtual clock.', 'short transfers, errors and time-outs in any position', 'buffers above 5 bytes'),
'P23': ('connect/getsockopt/accept with any outcome, the client moved before it is asked again; `socket` checks the options, flags and addresses the kernel model was given.', 'as P22', '-'),
'P24': ('sendto/recvfrom with any datagram, address and outcome.', 'as P22', '-'),
'P25': ('OpenSSL is a model that answers every call with any of its documented outcomes; the harness checks which readiness is waited for, that OpenSSL is called again, the bytes, the status and the deadline; after the event it waits for every operation must go on, after a failed connection it must end; clients are moved and shut down twice.', 'WANT_READ during write and the like do not occur in loopback tests', 'the deadline of shutdown(), certificates, real cryptography'),
'P26': ('Bytes, ports and characters are symbolic; inet_pton/inet_ntop are models of the libc functions (rt/inet.cpp), engine and native replay use the same.', '2^32 and 2^128 inputs', 'text longer than 8 (IPv4) and 5 (IPv6) arbitrary characters'),
'P27': ('errno is one 32-bit symbol, the enumerators are all enumerated by the solver.', 'complete input space', '-'),
'P28': ('Functor and arguments are counting objects; suspension, throwing and abandonment symbolic.', 'lifetime of captures across suspension', '-'),
'P29': ('Threads racing for the first call, `use` schedules work afterwards.', 'initialisation race', 'at most 2 to 4 preemptions'),
'P30': ('c-ares is a model that asks for sockets, answers with any addresses or fails; readiness symbolic, in the end one direction only or nothing but time.', 'orders of socket states and answers a name server does not produce', 'scheduler driven by hand; with timeout 0 the own retry timers of c-ares are never processed (open observation)'),
}
