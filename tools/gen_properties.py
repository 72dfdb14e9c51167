#!/usr/bin/env python3
"""writes properties.jsonl"""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    assert len(title) <= 80, (id, len(title))
    for x in files: assert os.path.exists('/repo/' + x), (id, x)
    a = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech], 'observe_at': [observe]}
    if state: a['state'] = [{'name': state, 'meaning': 'the state the guarantee is carried by', 'where': files[0]}]
    P.append({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why, 'anchors': a})
I = 'include/coro/'
p('P01', 'coro::mutex gives mutual exclusion and never loses a waiter',
  'At most one coroutine holds a coro::mutex at any time, whichever of lock(), scoped_lock() and try_lock() acquired it, and a scoped_lock releases its mutex exactly once over moves, early unlock() and destruction. Every lock()/scoped_lock() waiter is resumed exactly once, holding the lock, once the holders before it have unlocked; when the last holder unlocks with nobody waiting the mutex is free again. Unlocking a mutex that is not locked throws and leaves it usable.',
  ['schedules', 'histories'], 'every interleaving of the atomic steps of concurrent lock/scoped_lock/try_lock/unlock calls from several threads, and every sequence of operations on scoped_lock objects',
  'the waiter list is a lock-free stack shared between await_suspend and unlock; losing a waiter or admitting two holders needs one particular interleaving of the CAS loops that a stress test hits only by chance',
  [I+'mutex.hpp', 'src/mutex.cpp', I+'detail/awaiter_list.hpp'], [('waiter stack CAS', 'src/mutex.cpp lock_operation_base::await_suspend'), ('hand-over to the next waiter', 'src/mutex.cpp mutex::unlock'), ('ownership transfer', I+'mutex.hpp scoped_lock')], 'critical sections entered through co_await lock()/scoped_lock(), result of try_lock()', 'mutex::m_state')
p('P02', 'coro::event wakes every waiter exactly once',
  'A coroutine awaiting a coro::event continues only once the event is set, and every coroutine awaiting it when (or before) set() runs is resumed exactly once, in the order the resume policy names. Awaiting a set event does not suspend; set() on a set event resumes nobody; reset() re-arms a set event and never disturbs waiters of an unset one; set(executor) hands every waiter to the executor exactly once.',
  ['schedules', 'histories'], 'every interleaving of concurrent awaits, set() and reset(), and every sequence of set/reset/await with any number of waiters up to the bound and either policy',
  'whether a waiter that registers while set() is running is seen by set() or sees the set state depends on a single CAS; tests exercise one ordering',
  [I+'event.hpp', 'src/event.cpp', I+'detail/awaiter_list.hpp'], [('registration CAS', 'src/event.cpp event::awaiter::await_suspend'), ('exchange and drain', 'src/event.cpp event::set'), ('executor drain', I+'event.hpp event::set(executor)'), ('re-arm', 'src/event.cpp event::reset')], 'resumption of co_await event, is_set()', 'event::m_state')
p('P03', 'coro::latch releases its waiters exactly when the count reaches zero',
  'A coroutine awaiting a coro::latch is never released before count_down() calls totalling the initial count have been made, and every waiter is released exactly once after that, for any mix of decrements by any number of threads. remaining() is the initial count minus the decrements so far, and is_ready() is true exactly when the count has been used up, including latches built with a count of zero or less and decrements past zero.',
  ['schedules', 'inputs'], 'every initial count and every split of the decrements over calls and threads within the bound, under every interleaving with the waiters',
  'premature or missing release needs a specific interleaving of fetch_sub and the waiter registration, or particular counts',
  [I+'latch.hpp', I+'event.hpp', 'src/event.cpp'], [('count and trigger', I+'latch.hpp latch::count_down')], 'resumption of co_await latch, is_ready(), remaining()', 'latch::m_count')
p('P04', 'coro::semaphore conserves its permits and wakes its waiters',
  'The number of successful acquisitions not yet released never exceeds the permits made available (starting value plus effective releases), value() stays within [0, max], and release() at the maximum changes nothing. A coroutine suspended in acquire() is resumed with `acquired` when a permit is released to it and with `shutdown` when the semaphore shuts down, exactly once; no permit is lost while a waiter sleeps.',
  ['schedules', 'histories'], 'every interleaving of acquire/try_acquire/release/shutdown from several threads, every starting value and operation sequence within the bound',
  'conservation under concurrent transfer of a permit to a waiter is a global count over all interleavings',
  [I+'semaphore.hpp', 'src/semaphore.cpp'], [('acquire or enqueue', I+'semaphore.hpp acquire_operation'), ('transfer or increment', I+'semaphore.hpp semaphore::release'), ('wake all', I+'semaphore.hpp semaphore::shutdown')], 'results of acquire()/try_acquire(), value()', 'semaphore::m_counter, m_acquire_waiters')
p('P05', 'coro::shared_mutex excludes writers from everyone; waiters are served FIFO',
  'While a coroutine holds the lock exclusively no other coroutine holds it in either mode; shared holders may coexist. Blocked waiters are granted the lock in arrival order (consecutive shared waiters together), a waiting writer holds back later readers, every waiter is granted the lock exactly once, and after the last unlock the lock is free; scoped_lock/scoped_lock_shared hold it exactly while the scoped task runs.',
  ['schedules', 'histories'], 'every sequence of lock, lock_shared, try_lock*, unlock*, scoped variants by several coroutines within the bound, and their interleavings over threads',
  'starvation and order violations depend on the history of who waited before whom; a leaked user count shows only several operations later',
  [I+'shared_mutex.hpp'], [('try/enqueue', I+'shared_mutex.hpp shared_lock_operation'), ('grant', I+'shared_mutex.hpp wake_waiters'), ('last user out', I+'shared_mutex.hpp unlock_shared')], 'critical sections entered in either mode, results of try_lock()/try_lock_shared()', 'm_state, m_shared_users, m_exclusive_waiters, waiter list')
p('P06', 'coro::ring_buffer neither loses, duplicates nor reorders elements',
  'Every element whose produce() returned `produced` is returned by exactly one successful consume(), elements leave in the order they entered the buffer, and the buffer never holds more than its capacity. A producer waits only while the buffer is full and a consumer only while it is empty: each suspended operation is completed as soon as the opposite operation makes that possible.',
  ['schedules', 'histories'], 'every interleaving of producers and consumers over several threads and every operation sequence within the bound, for several capacities and any element values',
  'slots, counters and two waiter lists are updated in separate steps; loss or duplication needs a particular history around full/empty',
  [I+'ring_buffer.hpp'], [('store or suspend', I+'ring_buffer.hpp produce_operation'), ('take or suspend', I+'ring_buffer.hpp consume_operation'), ('hand-over', I+'ring_buffer.hpp try_resume_producers / try_resume_consumers')], 'results of produce() and consume(), size()', 'm_front, m_back, m_used, waiter lists')
p('P07', 'coro::ring_buffer notify and shutdown wake every waiter with the right result',
  'notify_producers()/notify_consumers() resume every currently suspended operation of that side exactly once with `notified`. shutdown() resumes every suspended operation with `stopped` and makes later operations return `stopped`; shutdown_drain() rejects further produces, lets consumers take every element still buffered and then stops, and an operation that did not transfer its element never reports `produced`.',
  ['schedules', 'histories'], 'every interleaving of shutdown, shutdown_drain and notify with producers and consumers, at every fill level within the bound',
  'the outcome depends on which operations happen to be suspended at the moment of shutdown; tests fix one such moment',
  [I+'ring_buffer.hpp'], [('state machine', I+'ring_buffer.hpp shutdown / shutdown_drain'), ('notify', I+'ring_buffer.hpp notify_producers / notify_consumers')], 'results of produce(), consume(), is_shutdown()', 'm_running_state')
p('P08', 'coro::queue neither loses, duplicates nor reorders elements',
  'Every element whose push()/emplace() returned `produced` is delivered to exactly one pop() or try_pop(), in FIFO order of entry, whether it was handed to a waiting consumer or buffered. A suspended pop() is resumed exactly once, as soon as an element is available to it; try_pop() reports `empty` only when nothing is buffered.',
  ['schedules', 'histories'], 'every interleaving of push/emplace/pop/try_pop over several threads and every operation sequence within the bound, any element values',
  'direct hand-over to a waiter and buffering are different code paths chosen by the history',
  [I+'queue.hpp'], [('hand-over or buffer', I+'queue.hpp push / emplace'), ('take or suspend', I+'queue.hpp awaiter'), ('non-blocking take', I+'queue.hpp try_pop')], 'results of push/emplace/pop/try_pop, size()', 'm_elements, m_waiters')
p('P09', 'coro::queue shutdown stops producers, drains when asked and wakes every waiter',
  'After shutdown() every suspended pop() is resumed exactly once with `stopped` and later push/pop return `stopped`; shutdown_drain() rejects pushes but lets consumers take every buffered element before it stops. A shutdown request is never dropped, whatever other shutdown or drain runs at the same time.',
  ['schedules', 'histories'], 'every interleaving of shutdown and shutdown_drain with push and pop within the bound',
  'the running/draining/stopped transitions race with each other and with consumers; tests run them one at a time',
  [I+'queue.hpp'], [('state machine', I+'queue.hpp shutdown / shutdown_drain')], 'results of push/pop, is_shutdown()', 'm_running_state')
p('P10', 'coro::condition_variable loses no notification and returns holding the lock',
  'A wait releases the mutex while suspended and returns only with the lock held again; a plain wait returns after a notify issued after it started waiting, a predicate wait returns only when its predicate holds (or a stop was requested or the deadline passed, reporting the predicate value or timeout). Each notify_one is delivered to one waiting waiter and each notify_all to all of them: a waiter without predicate is woken, one with a predicate is woken if it holds and otherwise keeps waiting, and no notification wakes a waiter twice or is lost.',
  ['schedules', 'histories'], 'every interleaving of waits (plain, predicate, stop token, timed) with notify_one/notify_all/request_stop/timeouts within the bound',
  'lost wakeups between releasing the mutex and registering as a waiter need one interleaving',
  [I+'condition_variable.hpp', 'src/condition_variable.cpp'], [('registration', 'src/condition_variable.cpp awaiter_base / await_suspend'), ('notification', 'src/condition_variable.cpp notify_one / notify_all')], 'resumption and results of wait*, state of the mutex', 'm_awaiters')
p('P11', 'coro::thread_pool runs every accepted coroutine exactly once',
  'Every coroutine accepted by schedule(), resume(), spawn_detached() or spawn_joinable() is resumed exactly once on a pool thread, without waiting while a worker thread is idle and including those still queued when shutdown() is called; it may go back to the pool or submit more work from inside. shutdown() returns after all worker threads have finished. Work refused because of shutdown is reported to the caller (exception, false or count) and leaves nothing behind: size() returns to zero and no coroutine frame is leaked; coroutines are started in FIFO order.',
  ['schedules', 'histories'], 'every interleaving of submitting threads, worker threads and shutdown within the bound',
  'lost or doubled work needs a submission to race with a worker going to sleep or with shutdown',
  [I+'thread_pool.hpp', 'src/thread_pool.cpp'], [('submission', 'src/thread_pool.cpp schedule_impl / resume'), ('worker loop', 'src/thread_pool.cpp executor'), ('shutdown', 'src/thread_pool.cpp shutdown')], 'execution of submitted coroutines, size(), return values', 'm_queue, m_size, m_shutdown_requested')
p('P12', 'coro::task runs its coroutine lazily, once, and delivers its result exactly once',
  'A coro::task starts its body only when awaited or resumed, runs it once, and delivers exactly the value, reference or exception it finished with to its awaiter; the awaiter is resumed exactly once after the body (and its locals\' destructors) completed. The coroutine frame, the result and captured arguments are destroyed exactly once whatever the moves of the task object, whether the task ran, was abandoned before starting or threw.',
  ['inputs', 'histories'], 'every result value and choice of result or exception, every sequence of move, resume, await and destroy within the bound, nested to the bound',
  'double or missing destruction and wrong results show for particular combinations of moves, exceptions and abandonment',
  [I+'task.hpp'], [('result storage', I+'task.hpp promise'), ('continuation', I+'task.hpp final_awaitable'), ('ownership', I+'task.hpp task move/destroy')], 'value or exception of co_await task, live frames', 'promise::m_storage')
p('P13', 'coro::sync_wait blocks until completion and returns the awaitable\'s outcome',
  'sync_wait returns only after the awaited coroutine has completed, on whichever thread it completes, and returns its value or reference, or rethrows its exception, unchanged. It never hangs when the awaitable completes and leaves nothing behind.',
  ['schedules', 'inputs'], 'every interleaving of completion on another thread with the waiting thread, every result value or exception',
  'a lost wakeup between the completion flag and the condition variable needs one interleaving',
  [I+'sync_wait.hpp', 'src/sync_wait.cpp'], [('completion event', 'src/sync_wait.cpp sync_wait_event'), ('result transfer', I+'sync_wait.hpp sync_wait_task_promise')], 'return value or exception of sync_wait')
p('P14', 'coro::when_all completes after every awaitable and keeps their results in order',
  'co_await when_all(...) resumes exactly once, only after every awaitable has completed, however their completions interleave, and yields one result per awaitable at its own position: the value it returned or the exception it threw. An empty set completes immediately and no frame is leaked.',
  ['schedules', 'inputs'], 'every interleaving of the completions over threads, every choice of values and exceptions, tuple and range forms within the bound',
  'the last-one-out counter races with the awaiting coroutine\'s own suspension',
  [I+'when_all.hpp'], [('countdown', I+'when_all.hpp when_all_latch'), ('results', I+'when_all.hpp when_all_task')], 'resumption and results of co_await when_all')
p('P15', 'coro::when_any yields exactly one result and tolerates late finishers',
  'co_await when_any(...) resumes exactly once, after at least one awaitable has completed, and returns the value of the first to complete; later completions are discarded without disturbing it and without touching freed memory. With a stop source, stop is requested once the first awaitable has completed and before the caller continues.',
  ['schedules', 'inputs'], 'every interleaving of the completions over threads and every choice of values within the bound',
  'late finishers race with the frame that delivers the winner',
  [I+'when_any.hpp'], [('first wins', I+'when_any.hpp make_when_any_task'), ('controller', I+'when_any.hpp make_when_any_controller_task')], 'resumption and result of co_await when_any')
p('P16', 'coro::task_group tracks its tasks: awaiting it returns when all have finished',
  'Every task started in a task_group runs exactly once; co_await group resumes only when every task started before has finished, and always resumes then; size() counts the started and unfinished tasks and the destructor waits for them. A task that the executor refuses leaves size() unchanged and nothing leaked.',
  ['schedules', 'histories'], 'every interleaving of start, task completion and awaiting within the bound',
  'reset of the empty event in start() races with the completion of the last running task',
  [I+'task_group.hpp', 'src/detail/task_self_deleting.cpp'], [('start', I+'task_group.hpp start'), ('completion', I+'task_group.hpp count_down')], 'resumption of co_await group, size()', 'm_size, m_on_empty_event')
p('P17', 'coro::generator yields its values in order and cleans up at any point',
  'Iterating a coro::generator produces exactly the yielded values in order (as the very objects yielded, for references), ends when the body ends, and rethrows an exception of the body at the increment (or begin) that met it. Abandoning or moving the generator at any point destroys the body\'s locals and its frame exactly once.',
  ['inputs', 'histories'], 'every number of yields, values, exception position and abandonment point within the bound',
  'leaks and double destruction depend on where iteration stops',
  [I+'generator.hpp'], [('yield and rethrow', I+'generator.hpp generator_promise'), ('iteration', I+'generator.hpp generator_iterator')], 'values seen by iteration, exceptions, live frames')
p('P18', 'scheduler timers never fire early, are never lost and fire once',
  'A coroutine suspended in yield_for, yield_until, schedule_after or schedule_at on a coro::scheduler is resumed exactly once and not before its deadline on the steady clock, for any duration or time point and any set of concurrent timers; as long as the event loop is driven every expired timer is resumed, and a loop that waits wakes up at the earliest deadline. schedule(task, timeout) delivers the task\'s result or the timeout, and poll timeouts are honoured likewise.',
  ['inputs', 'schedules', 'histories'], 'every deadline, clock reading and timerfd/epoll behaviour within the bounds, with several pending timers added and removed in any order',
  'rounding, ordering and re-arming errors show only for particular durations or sets of timers',
  [I+'scheduler.hpp', 'src/scheduler.cpp', 'src/detail/io_notifier_epoll.cpp', 'src/detail/timer_handle.cpp'], [('timer queue', 'src/scheduler.cpp add_timer_token / remove_timer_token / update_timeout / process_timeout_execute'), ('time conversion', I+'scheduler.hpp yield_for / yield_until'), ('timerfd arming', 'src/detail/io_notifier_epoll.cpp watch_timer')], 'time of resumption against the requested deadline', 'm_timed_events')
p('P19', 'scheduler::poll reports exactly one outcome and leaves no registration behind',
  'co_await scheduler.poll(fd, op, timeout, token) resumes exactly once, with `read`/`write` only when the descriptor reported that readiness, `timeout` only when the timeout expired first, `closed`/`error` when the kernel reported hang-up or error and `cancelled` when stop was requested; when event and timeout coincide only one wins. After it returns neither the epoll set nor the timer list refers to the finished operation.',
  ['schedules', 'fault_sequences', 'inputs'], 'every order and batching of fd events, timer expiry and stop requests the kernel can deliver within the bound, every operation and event mask',
  'the kernel can deliver event and timeout in one batch in either order; tests see whichever the machine produces',
  ['src/scheduler.cpp', I+'scheduler.hpp', 'src/detail/io_notifier_epoll.cpp', I+'detail/poll_info.hpp', I+'detail/io_notifier_epoll.hpp'], [('single winner', 'src/scheduler.cpp process_event_execute / process_timeout_execute'), ('event decoding', 'src/detail/io_notifier_epoll.cpp next_events / event_to_poll_status'), ('registration', 'src/detail/io_notifier_epoll.cpp watch / unwatch')], 'result of poll(), registrations in the epoll set', 'poll_info::m_processed')
p('P20', 'scheduler runs every accepted coroutine once and shuts down cleanly',
  'Every coroutine handed to a coro::scheduler (schedule, yield, resume, spawn_detached, spawn_joinable; inline and thread-pool strategies; dedicated and manual event loops) is resumed exactly once; size() counts accepted unfinished work and returns to zero. shutdown() returns, with all accepted work done and the I/O thread finished, and work offered afterwards is refused without leaking.',
  ['schedules', 'histories'], 'every interleaving of submitting threads, the event loop thread and shutdown within the bound',
  'a submission racing with the event loop going idle or exiting is lost only in one interleaving',
  [I+'scheduler.hpp', 'src/scheduler.cpp'], [('submission', I+'scheduler.hpp schedule_operation / resume'), ('trigger pipe', 'src/scheduler.cpp process_scheduled_execute_inline'), ('event loop', 'src/scheduler.cpp process_events_dedicated_thread / process_events_manual'), ('shutdown', 'src/scheduler.cpp shutdown')], 'execution of submitted coroutines, size(), return of shutdown()', 'm_size, m_scheduled_tasks, m_schedule_fd_triggered')
p('P21', 'every file descriptor the library owns is closed exactly once',
  'Objects owning descriptors (pipe, socket, TCP/UDP/TLS endpoints, timer and epoll handles) close each descriptor they own exactly once over any sequence of construction, copy, move, assignment, close, shutdown and destruction, and never close a descriptor they do not own (including 0). A failed system call while building one neither leaks nor double-closes.',
  ['histories', 'fault_sequences'], 'every sequence of the value operations on such objects within the bound, with any system call failing at any point',
  'double close hits an unrelated descriptor that happens to have reused the number; leaks need particular assignment or failure sequences',
  ['src/detail/pipe.cpp', I+'detail/pipe.hpp', 'src/net/socket.cpp', I+'net/socket.hpp', 'src/net/tcp/client.cpp', 'src/net/tcp/server.cpp', 'src/net/udp/peer.cpp'], [('pipe ownership', 'src/detail/pipe.cpp'), ('socket ownership', 'src/net/socket.cpp'), ('make_socket failure paths', 'src/net/socket.cpp make_socket')], 'close()/dup()/socket()/pipe() calls on the descriptor table')
p('P22', 'tcp client transfers exactly: counts, spans and errors match the kernel',
  'read_some/write_some report exactly the bytes the kernel transferred and the matching io_status; read_exact/write_all succeed only when every byte was transferred, continue correctly after short transfers, stop at the first error, close or timeout and report what was transferred (read) or is left to send (write) so far, and never transfer a byte twice, out of place or outside the caller\'s buffer. A positive timeout is an upper bound for the whole operation.',
  ['fault_sequences', 'inputs'], 'every sequence of kernel results (short counts, would-block, close, errors), poll outcomes and clock advances within the bound, every buffer length within the bound',
  'loopback tests almost never see short writes, EAGAIN in the middle or errors after partial progress',
  [I+'net/tcp/client.hpp', 'src/net/tcp/client.cpp', I+'net/io_status.hpp'], [('read/write loops', I+'net/tcp/client.hpp read_exact / write_all'), ('single transfer', I+'net/tcp/client.hpp read_some / write_some')], 'results of the four operations against the modelled kernel\'s record')
p('P23', 'tcp connect and accept report the kernel\'s outcome and hand over a usable socket',
  'client::connect returns `connected` only when the kernel reports the connection established, `timeout` when the poll timed out and `error` otherwise, and a repeated call, also on a client that was moved meanwhile, returns the same status; server::accept returns a client owning exactly the accepted descriptor or an error, waits for readiness when asked, and a shutdown or cancelled accept does not leave a waiter behind. Sockets are made, bound and set to (non-)blocking as asked, without touching other flags.',
  ['fault_sequences'], 'every sequence of connect/getsockopt/poll/accept outcomes the kernel can give within the bound',
  'EINPROGRESS, EINTR-like and failing SO_ERROR paths are timing dependent',
  [I+'net/tcp/client.hpp', 'src/net/tcp/client.cpp', I+'net/tcp/server.hpp', 'src/net/tcp/server.cpp', I+'net/connect.hpp'], [('connect', 'src/net/tcp/client.cpp connect'), ('accept', 'src/net/tcp/server.cpp accept / accept_now')], 'connect status, accepted client')
p('P24', 'udp peer sends and receives whole datagrams with the right peer address',
  'sendto/recvfrom-style operations of udp::peer report the kernel\'s outcome, the received span is a prefix of the caller\'s buffer of exactly the datagram length, and the reported peer is the sender; an unbound peer refuses to receive, a bound one stays bound when it is moved. Timeouts and close of the poll are reported, not masked.',
  ['fault_sequences', 'inputs'], 'every kernel result sequence, datagram length and peer address within the bound',
  'error and would-block paths are not reachable deterministically over loopback',
  [I+'net/udp/peer.hpp', 'src/net/udp/peer.cpp'], [('receive', I+'net/udp/peer.hpp recvfrom'), ('send', I+'net/udp/peer.hpp sendto')], 'results of the operations against the modelled kernel\'s record')
p('P25', 'tls client loops make progress and report OpenSSL\'s outcome',
  'tls::client connect, recv and send and the handshake of tls::server::accept call OpenSSL again after the readiness it asked for (WANT_READ or WANT_WRITE in either direction), report exactly the bytes OpenSSL transferred and its outcome as the matching status (a failed send reports everything as unsent, errors of other connections change nothing), return bytes that are already decrypted without waiting, and terminate once OpenSSL reports success, closure or a fatal error. A positive timeout bounds the whole operation. A connection is shut down at most once, and a moved client keeps its connection.',
  ['fault_sequences'], 'every sequence of OpenSSL results and poll outcomes within the bound',
  'WANT_WRITE during a read (renegotiation, key update) does not occur in loopback tests',
  [I+'net/tls/client.hpp', 'src/net/tls/client.cpp'], [('recv/send loops', I+'net/tls/client.hpp recv / send'), ('handshake', 'src/net/tls/client.cpp handshake')], 'results against the modelled OpenSSL\'s record')
p('P26', 'addresses round-trip: ip_address and socket_address keep family, bytes and port',
  'ip_address built from bytes or text of either family returns those bytes, text and family; invalid text (without embedded NUL characters) is rejected with an exception and never read past its end; equality and ordering agree with the bytes. socket_address carries any address and port through its sockaddr representation and back unchanged.',
  ['inputs'], 'every address value, family and port; every text of bounded length, terminated or not',
  'the input space is 2^128 addresses times ports; tests use a handful',
  [I+'net/ip_address.hpp', 'src/net/ip_address.cpp', I+'net/socket_address.hpp'], [('parsing', I+'net/ip_address.hpp from_string'), ('conversion', I+'net/socket_address.hpp')], 'accessors, comparison, data()')
p('P27', 'status and result enumerations map and print consistently',
  'make_io_status_from_native and the poll-status conversion map every errno / poll status to the io_status documented for it, io_status::is_ok() holds exactly for success, would-block and timeouts are distinguished, and every to_string of the library names its enumerator (never "unknown" for a valid value).',
  ['inputs'], 'every errno value, every enumerator and every poll status',
  'tests look at a few values',
  ['src/net/io_status.cpp', I+'net/io_status.hpp', 'src/poll.cpp', I+'poll.hpp', 'src/semaphore.cpp', 'src/net/connect.cpp', 'src/net/tls/recv_status.cpp', 'src/net/tls/send_status.cpp'], [('errno mapping', 'src/net/io_status.cpp'), ('names', 'src/poll.cpp to_string')], 'returned status and strings')
p('P28', 'coro::invoke keeps its functor and arguments alive until the task completes',
  'co_await coro::invoke(f, args...) runs f exactly once with the given arguments and returns its value or exception; the functor (with its captures) and the arguments live until the task has completed and are destroyed exactly once afterwards, also when the awaiting side suspends in between or the task is abandoned.',
  ['histories', 'inputs'], 'every value, exception choice and suspension or abandonment point within the bound',
  'use of a destroyed closure is silent without a memory checker',
  [I+'invoke.hpp'], [('functor ownership', I+'invoke.hpp invoke')], 'result of co_await invoke, lifetimes of captures')
p('P29', 'the default executors are created once and are usable from any thread',
  'default_executor::executor() and io_executor() return the same live instance to every caller, whichever threads race to make the first call, built with the options set before.',
  ['schedules'], 'every interleaving of concurrent first calls within the bound',
  'double initialisation needs two first calls to race',
  ['src/default_executor.cpp', I+'default_executor.hpp'], [('once-only creation', 'src/default_executor.cpp')], 'identity and liveness of the returned executor')
p('P30', 'dns resolver returns the addresses c-ares reports and releases its requests',
  'host_by_name suspends until c-ares reports the outcome, returns `complete` with exactly the reported addresses of each family in order or `error`, and resumes its caller exactly once; every readiness, error or timeout of the sockets c-ares asks to watch is passed on to c-ares while it uses them, so that no lookup hangs. The request and the c-ares allocations are released, also when the resolver object is destroyed while queries are pending, and nothing touches the resolver or its channel afterwards.',
  ['fault_sequences', 'schedules'], 'every order of callbacks, socket readiness and timeouts c-ares can produce within the bound',
  'tests need a network and see one server\'s answer',
  [I+'net/dns/resolver.hpp', 'src/net/dns/resolver.cpp'], [('callback', 'src/net/dns/resolver.cpp ares_dns_callback'), ('polling', I+'net/dns/resolver.hpp ares_poll')], 'result of host_by_name')
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl')
with open(out, 'w') as f:
    for x in P: f.write(json.dumps(x) + '\n')
print(len(P))
