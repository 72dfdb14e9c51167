"""Registry of the checks: which harness decides which property, with which sources of /repo, models, bounds."""
COMMON_ASSUMPTIONS = [
    'memory model: sequentially consistent interleavings of atomic steps; compare_exchange_weak never fails spuriously',
    'the LLVM bitcode clang 18 produces at -O1 from the current sources is the code analysed; the C++ ABI support, std::condition_variable, std::thread and pthread mutexes are models (rt/)',
    'allocation never fails; virtual clock',
]
SYNC = ['src/mutex.cpp', 'src/event.cpp', 'src/sync_wait.cpp', 'src/semaphore.cpp']


def c(name, src, sources=(), defs=(), opts=(), **kw):
    d = {'name': name, 'src': src, 'sources': list(sources), 'defs': ['-D' + x for x in defs], 'opts': list(opts)}
    d.update(kw)
    return d


M = ['src/mutex.cpp']
EV = ['src/event.cpp']
MS = ['src/mutex.cpp', 'src/event.cpp', 'src/sync_wait.cpp', 'src/semaphore.cpp']
CV = ['src/mutex.cpp', 'src/event.cpp', 'src/condition_variable.cpp', 'src/detail/task_self_deleting.cpp']
TP = ['src/thread_pool.cpp', 'src/event.cpp', 'src/detail/task_self_deleting.cpp']
TG = ['src/event.cpp', 'src/detail/task_self_deleting.cpp']
SW = ['src/event.cpp', 'src/sync_wait.cpp']
AN = ['src/event.cpp', 'src/mutex.cpp', 'src/detail/task_self_deleting.cpp']
DE = TP + ['src/default_executor.cpp']
EN = ['src/poll.cpp', 'src/net/io_status.cpp', 'src/net/connect.cpp', 'src/net/ip_address.cpp', 'src/semaphore.cpp', 'src/net/tls/connection_status.cpp',
      'src/net/tls/recv_status.cpp', 'src/net/tls/send_status.cpp']
IN = {'models': ['inet.cpp']}
NET = {'models': ['env.cpp']}
FD = ['src/detail/pipe.cpp', 'src/net/socket.cpp']
SC = TP + ['src/scheduler.cpp', 'src/detail/pipe.cpp', 'src/detail/timer_handle.cpp', 'src/detail/io_notifier_epoll.cpp', 'src/poll.cpp', 'src/net/socket.cpp']
T = {'tier': 'thorough'}
NT = SC + ['src/net/ip_address.cpp', 'src/net/io_status.cpp', 'src/net/connect.cpp', 'src/net/tcp/client.cpp', 'src/net/tcp/server.cpp', 'src/net/udp/peer.cpp']
TL = NT + ['src/sync_wait.cpp', 'src/net/tls/client.cpp', 'src/net/tls/server.cpp', 'src/net/tls/context.cpp', 'src/net/tls/connection_status.cpp', 'src/net/tls/recv_status.cpp', 'src/net/tls/send_status.cpp']
NETIN = {'models': ['env.cpp', 'inet.cpp']}
DN = SC + ['src/net/ip_address.cpp', 'src/net/dns/resolver.cpp']
MM = ['--merge-max', '200']
NA = {}
PROPS = {
    'P01': {'cases': [
        c('m2r2', 'p01_mutex.cpp', M, ['THREADS=2', 'ROUNDS=2'], fine=False, bounds='2 threads, 2 operations each, any of lock/scoped_lock/try_lock'),
        c('m2r2f', 'p01_mutex.cpp', M, ['THREADS=2', 'ROUNDS=2'], ['--max-preempt', '3'], bounds='2 threads, 2 operations each; at most 3 preemptions'),
        c('m3', 'p01_mutex.cpp', M, ['THREADS=3', 'ROUNDS=1'], fine=False, bounds='3 threads, 1 operation each'),
        c('m3f', 'p01_mutex.cpp', M, ['THREADS=3', 'ROUNDS=1'], ['--max-preempt', '3'], bounds='3 threads, 1 operation each; at most 3 preemptions'),
        c('m2sym', 'p01_mutex.cpp', M, ['THREADS=2', 'ROUNDS=1'], ['--merge-max', '200'], bounds='2 threads, 1 operation each, all schedules merged into one formula'),
        c('m3r2', 'p01_mutex.cpp', M, ['THREADS=3', 'ROUNDS=2'], **T, bounds='3 threads, 2 operations each'),
        c('seq', 'p01_seq.cpp', M, ['STEPS=4'], bounds='every sequence of 4 operations on 2 scoped_locks and 2 mutexes'),
        c('seq6', 'p01_seq.cpp', M, ['STEPS=6'], **T, bounds='every sequence of 6 operations'),
        c('hand', 'p01_hand.cpp', M, ['WAITERS=3'], bounds='3 coroutines queueing, every order of arrivals and releases'),
        c('mix', 'p01_mix.cpp', M, ['PRE=2'], bounds='a holder with 0 to 2 suspended waiters: its unlock against one lock/scoped_lock/try_lock, on threads'),
        c('mix2', 'p01_mix.cpp', M, ['PRE=2', 'LOCKERS=2'], ['--max-preempt', '3'], bounds='as mix with two further threads; at most 3 preemptions'),
        c('mix3', 'p01_mix.cpp', M, ['PRE=3', 'LOCKERS=2'], **T, bounds='a holder with 0 to 3 suspended waiters, its unlock against two threads'),
        c('hand5', 'p01_hand.cpp', M, ['WAITERS=5'], **T, bounds='5 coroutines queueing'),
    ]},
    'P02': {'cases': [
        c('w2s1', 'p02_conc.cpp', EV, ['WAITERS=2'], bounds='2 waiters, 1 setter'),
        c('w1s2', 'p02_conc.cpp', EV, ['WAITERS=1', 'SETTERS=2'], bounds='1 waiter, 2 setters'),
        c('w2s1r', 'p02_conc.cpp', EV, ['WAITERS=2', 'RESET=1'], reach=[1, 2], bounds='2 waiters, setter, resetter'),
        c('w3s2', 'p02_conc.cpp', EV, ['WAITERS=3', 'SETTERS=2'], **T, bounds='3 waiters, 2 setters'),
        c('seq', 'p02_seq.cpp', EV, ['STEPS=5'], bounds='every sequence of 5 operations'),
        c('mix', 'p02_mix.cpp', EV, ['PRE=2'], bounds='0 to 2 suspended waiters: set against await, set or reset, on threads'),
        c('mix4', 'p02_mix.cpp', EV, ['PRE=4'], **T, bounds='0 to 4 suspended waiters: set against await, set or reset'),
        c('seq7', 'p02_seq.cpp', EV, ['STEPS=7'], **T, bounds='every sequence of 7 operations'),
    ]},
    'P03': {'cases': [
        c('d2', 'p03_latch.cpp', EV, ['DECS=2', 'WAITERS=1'], bounds='2 decrementing threads of 1..3 each, 1 waiter'),
        c('d2w2', 'p03_latch.cpp', EV, ['DECS=2', 'WAITERS=2'], bounds='2 decrementing threads of 1..3 each, 2 waiters'),
        c('d3w2', 'p03_latch.cpp', EV, ['DECS=3', 'WAITERS=2'], **T, bounds='3 decrementing threads, 2 waiters'),
        c('seq', 'p03_seq.cpp', EV, ['STEPS=2'], bounds='any 64-bit count, 2 operations with any 64-bit decrement'),
        c('seqn', 'p03_seq.cpp', EV, ['STEPS=4', 'BITS=4'], bounds='any 64-bit count, 4 operations with decrements up to 15'),
        c('seq5', 'p03_seq.cpp', EV, ['STEPS=5', 'BITS=3'], **T, bounds='any 64-bit count, 5 operations with decrements up to 7'),
    ]},
    'P04': {'cases': [
        c('u2', 'p04_conc.cpp', MS, ['USERS=2', 'START=1'], bounds='2 users, 1 permit, acquire or try_acquire'),
        c('u3', 'p04_conc.cpp', MS, ['USERS=3', 'START=2', 'TRY=0'], **T, bounds='3 users, 2 permits'),
        c('rel', 'p04_rel.cpp', MS, ['OPS=1'], bounds='2 threads, any of release/try_acquire, any start 0..2, max 2'),
        c('rel2', 'p04_rel.cpp', MS, ['OPS=2', 'MAX=1'], ['--max-preempt', '3'], bounds='2 threads, any 2 of release/try_acquire each, any start 0..1, max 1; at most 3 preemptions'),
        c('shut', 'p04_shut.cpp', MS, [], bounds='1 acquire, 1 shutdown'),
        c('shut2', 'p04_shut.cpp', MS, ['USERS2'], bounds='2 acquires, 1 shutdown', reach=[1, 2]),
        c('shutrel', 'p04_shut.cpp', MS, ['REL'], bounds='1 acquire, 1 release, 1 shutdown'),
        c('mix', 'p04_mix.cpp', MS, ['PRE=2'], bounds='0 to 2 suspended acquires: release against release, acquire, try_acquire or shutdown, on threads'),
        c('mix3', 'p04_mix.cpp', MS, ['PRE=3'], **T, bounds='0 to 3 suspended acquires, as mix'),
        c('seq', 'p04_seq.cpp', MS, ['STEPS=5'], reach=[1, 2], bounds='every sequence of 5 operations, start 0..2, max 2'),
        c('seq7', 'p04_seq.cpp', MS, ['STEPS=7'], **T, reach=[1, 2], bounds='every sequence of 7 operations'),
    ]},
    'P05': {'cases': [
        c('t2', 'p05_conc.cpp', M, ['THREADS=2', 'OPS=6'], bounds='2 threads, 1 operation each of lock/lock_shared/try_lock/try_lock_shared/scoped_lock/scoped_lock_shared'),
        c('t2r2f', 'p05_conc.cpp', M, ['THREADS=2', 'ROUNDS=2', 'OPS=2'], ['--max-preempt', '3'], bounds='2 threads, 2 operations each; at most 3 preemptions'),
        c('t2r2', 'p05_conc.cpp', M, ['THREADS=2', 'ROUNDS=2', 'OPS=2'], fine=False, bounds='2 threads, 2 operations each'),
        c('t3', 'p05_conc.cpp', M, ['THREADS=3', 'OPS=2'], **T, bounds='3 threads, 1 operation each'),
        c('t3all', 'p05_conc.cpp', M, ['THREADS=3', 'OPS=4'], **T, bounds='3 threads, 1 operation each, with try_lock'),
        c('seq', 'p05_seq.cpp', M, ['STEPS=4'], bounds='every sequence of 4 operations, then every release order by arrival'),
        c('mix', 'p05_mix.cpp', M, ['PRE=2'], bounds='1 reader or writer holding, 0 to 2 suspended readers/writers: release against one request of any kind, on threads'),
        c('mix2', 'p05_mix.cpp', M, ['PRE=1', 'HOLD=2'], bounds='2 readers holding, 0 or 1 suspended: both releases against one request of any kind'),
        c('mix3', 'p05_mix.cpp', M, ['PRE=3'], **T, bounds='1 reader or writer holding, 0 to 3 suspended, release against one request'),
        c('seqpre', 'p05_seq.cpp', M, ['STEPS=7', 'PRE=4'], bounds='4 requests (lock or lock_shared), then every sequence of 3 operations'),
        c('seq6', 'p05_seq.cpp', M, ['STEPS=6'], **T, bounds='every sequence of 6 operations'),
    ]},
    'P06': {'cases': [
        c('p1c1', 'p06_conc.cpp', MS, ['PER=2'], bounds='1 producer, 1 consumer, 2 elements through a buffer of 1'),
        c('p1c1k2', 'p06_conc.cpp', MS, ['PER=3', 'CAP=2'], bounds='1 producer, 1 consumer, 3 elements through a buffer of 2'),
        c('p2c1', 'p06_conc.cpp', MS, ['PRODS=2', 'PER=1'], bounds='2 producers, 1 consumer'),
        c('p1c2', 'p06_conc.cpp', MS, ['CONS=2', 'PER=2'], bounds='1 producer, 2 consumers'),
        c('p2c2', 'p06_conc.cpp', MS, ['PRODS=2', 'CONS=2', 'PER=1'], **T, bounds='2 producers, 2 consumers'),
        c('seq', 'p06_seq.cpp', MS, ['STEPS=8', 'CAP=2'], bounds='every sequence of 8 produce/consume, capacity 2'),
        c('mix', 'p06_mix.cpp', MS, ['CAP=2'], bounds='capacity 2, any filling, 0 or 1 suspended operation: two operations of any kind on threads'),
        c('mix1', 'p06_mix.cpp', MS, ['CAP=1', 'WAIT=2'], bounds='capacity 1, 0 or 2 suspended operations: two operations of any kind on threads'),
        c('mix3', 'p06_mix.cpp', MS, ['CAP=3', 'WAIT=2'], **T, bounds='capacity 3, 0 to 2 suspended operations: two operations on threads'),
        c('seq10', 'p06_seq.cpp', MS, ['STEPS=10', 'CAP=3'], **T, bounds='every sequence of 10 produce/consume, capacity 3'),
    ]},
    'P07': {'cases': [
        c('seq', 'p06_seq.cpp', MS, ['STEPS=5', 'OPS=6'], bounds='every sequence of 5 produce/consume/notify/shutdown/drain, capacity 1'),
        c('mix', 'p07_mix.cpp', MS, ['WAIT=2'], bounds='capacity 1, empty or full, 0 to 2 suspended operations: shutdown or notify against a produce or consume, on threads'),
        c('mix2', 'p07_mix.cpp', MS, ['CAP=2', 'WAIT=2'], **T, bounds='as mix, capacity 2'),
        c('stopdrain', 'p07_conc.cpp', MS, ['STOP', 'DRAIN', 'PRE=1', 'PER=0'], bounds='shutdown and drain at once, 1 element buffered'),
        c('prodstop', 'p07_conc.cpp', MS, ['PROD', 'STOP', 'PER=2'], reach=[1, 2], bounds='1 producer of 2 elements, shutdown, capacity 1'),
        c('consstop', 'p07_conc.cpp', MS, ['CONS', 'STOP', 'PRE=1', 'PER=0'], bounds='1 consumer, shutdown, 1 element buffered'),
        c('proddrain', 'p07_conc.cpp', MS, ['PROD', 'CONS', 'DRAIN', 'PER=1'], ['--max-preempt', '3'], bounds='1 producer of 1 element, 1 consumer, drain; at most 3 preemptions'),
        c('prodnote', 'p07_conc.cpp', MS, ['PROD', 'NOTE', 'PER=2'], reach=[1, 3], bounds='1 producer of 2 elements, notify, capacity 1'),
        c('consnote', 'p07_conc.cpp', MS, ['PROD', 'CONS', 'NOTE', 'PER=1'], **T, reach=[1, 3], bounds='1 producer, 1 consumer, notify'),
        c('all', 'p07_conc.cpp', MS, ['PROD', 'CONS', 'STOP', 'PER=2'], **T, reach=[1, 2], bounds='1 producer of 2, 1 consumer, shutdown'),
        c('drain2', 'p07_conc.cpp', MS, ['PROD', 'CONS', 'DRAIN', 'PER=2'], **T, bounds='1 producer of 2 elements, 1 consumer, drain'),
        c('drainstop', 'p07_conc.cpp', MS, ['CONS', 'STOP', 'DRAIN', 'PRE=1', 'PER=0'], **T, bounds='1 consumer, drain and shutdown'),
        c('seq7', 'p06_seq.cpp', MS, ['STEPS=7', 'OPS=6', 'CAP=2'], **T, bounds='every sequence of 7 operations, capacity 2'),
    ]},
    'P08': {'cases': [
        c('p1c1', 'p08_conc.cpp', MS, ['PER=2'], bounds='1 producer, 1 consumer, 2 elements pushed by copy'),
        c('p1c1m', 'p08_conc.cpp', MS, ['PER=2', 'HOW=1', 'TRY'], reach=[1, 2], bounds='1 producer, 1 consumer with try_pop, 2 elements pushed by move'),
        c('p1c1e', 'p08_conc.cpp', MS, ['PER=2', 'HOW=2'], bounds='1 producer, 1 consumer, 2 elements emplaced'),
        c('p2c1', 'p08_conc.cpp', MS, ['PRODS=2', 'PER=1'], bounds='2 producers, 1 consumer'),
        c('p1c2', 'p08_conc.cpp', MS, ['CONS=2', 'PER=2'], bounds='1 producer, 2 consumers'),
        c('p2c2', 'p08_conc.cpp', MS, ['PRODS=2', 'CONS=2', 'PER=1', 'HOW=1'], **T, bounds='2 producers, 2 consumers'),
        c('p1c1k4', 'p08_conc.cpp', MS, ['PER=4', 'TRY'], **T, bounds='1 producer, 1 consumer with try_pop, 4 elements'),
        c('mix', 'p08_mix.cpp', MS, ['PRE=2'], bounds='0 to 2 elements or suspended consumers: two of push/emplace/pop/try_pop, on threads'),
        c('mix3', 'p08_mix.cpp', MS, ['PRE=3'], **T, bounds='as mix with 0 to 3'),
        c('seq', 'p08_seq.cpp', MS, ['STEPS=5', 'OPS=3'], bounds='every sequence of 5 push/emplace/pop/try_pop'),
        c('fwd', 'p08_fwd.cpp', MS, [], bounds='1 push/emplace of 6 kinds (by const reference, move, from arguments of either category, move-only), delivered to a waiting consumer, a later pop or try_pop'),
        c('seq7', 'p08_seq.cpp', MS, ['STEPS=7', 'OPS=3'], **T, bounds='every sequence of 7 push/emplace/pop/try_pop'),
    ]},
    'P09': {'cases': [
        c('seq', 'p08_seq.cpp', MS, ['STEPS=4', 'OPS=5'], bounds='every sequence of 4 push/pop/try_pop/shutdown/drain'),
        c('mix', 'p08_mix.cpp', MS, ['PRE=2', 'STOP'], bounds='0 to 2 elements or suspended consumers: shutdown against push/emplace/pop/try_pop, on threads'),
        c('stopdrain', 'p09_conc.cpp', MS, ['STOP', 'DRAIN', 'PRE=1', 'PER=0'], bounds='shutdown and drain at once, 1 element buffered'),
        c('prodstop', 'p09_conc.cpp', MS, ['PROD', 'STOP', 'PER=2'], reach=[1, 2], bounds='1 producer of 2 elements, shutdown'),
        c('consstop', 'p09_conc.cpp', MS, ['CONS', 'STOP', 'PRE=1', 'PER=0'], bounds='1 consumer, shutdown, 1 element buffered'),
        c('all', 'p09_conc.cpp', MS, ['PROD', 'CONS', 'STOP', 'PER=1'], bounds='1 producer of 1, 1 consumer, shutdown'),
        c('proddrain', 'p09_conc.cpp', MS, ['PROD', 'CONS', 'DRAIN', 'PER=1'], ['--max-preempt', '3'], bounds='1 producer of 1 element, 1 consumer, drain; at most 3 preemptions'),
        c('drain2', 'p09_conc.cpp', MS, ['PROD', 'CONS', 'DRAIN', 'PER=2'], ['--max-preempt', '4'], **T, bounds='1 producer of 2 elements, 1 consumer, drain; at most 4 preemptions'),
        c('drainstop', 'p09_conc.cpp', MS, ['CONS', 'STOP', 'DRAIN', 'PRE=1', 'PER=0'], **T, bounds='1 consumer, drain and shutdown'),
        c('seq6', 'p08_seq.cpp', MS, ['STEPS=6', 'OPS=5'], **T, bounds='every sequence of 6 operations'),
    ]},
    'P10': {'cases': [
        c('seq', 'p10_seq.cpp', CV, ['STEPS=4', 'KINDS=3'], bounds='every sequence of 4 operations, up to 3 waiters, untimed waits'),
        c('seqt', 'p10_seq.cpp', CV, ['STEPS=4', 'KINDS=3', 'KIND0=3'], bounds='every sequence of 4 operations, up to 3 waiters, timed waits'),
        c('seq5', 'p10_seq.cpp', CV, ['STEPS=5'], **T, bounds='every sequence of 5 operations, all kinds of wait'),
        c('w1', 'p10_conc.cpp', CV, ['IDLE'], bounds='1 predicate waiter, 1 notifier, 1 notification with nothing ready'),
        c('w1all', 'p10_conc.cpp', CV, ['IDLE', 'ALL'], bounds='as w1 with notify_all'),
        c('w2', 'p10_conc.cpp', CV, ['WAITERS=2', 'PLAIN', 'NOTIFIERS2'], ['--max-preempt', '3'], bounds='2 plain waiters, 2 notify_one; at most 3 preemptions'),
        c('w2all', 'p10_conc.cpp', CV, ['WAITERS=2', 'ALL'], bounds='2 predicate waiters, 1 notify_all'),
        c('timed', 'p10_conc.cpp', CV, ['TIMED'], reach=[1, 2], bounds='1 timed predicate waiter, 1 notifier, timer'),
        c('timed0', 'p10_conc.cpp', CV, ['TIMED0'], reach=[1, 2], bounds='1 timed waiter, 1 notifier, timer'),
        c('timedfine', 'p10_conc.cpp', CV, ['TIMED0'], ['--fine'], reach=[1, 2], bounds='1 timed waiter, 1 notifier, timer; plain accesses interleaved'),
        c('idle', 'p10_idle.cpp', CV, [], ['--max-preempt', '3'], bounds='2 waiters, 2 notify_one finding the predicate false; at most 3 preemptions'),
        c('idleall', 'p10_idle.cpp', CV, ['ALL'], ['--max-preempt', '3'], bounds='2 waiters, notify_one and notify_all finding the predicate false; at most 3 preemptions'),
        c('w2f', 'p10_conc.cpp', CV, ['WAITERS=2', 'NOTIFIERS2', 'TOKENS'], ['--max-preempt', '4'], **T, bounds='2 predicate waiters consuming, 2 notify_one; at most 4 preemptions'),
        c('timedidle', 'p10_conc.cpp', CV, ['TIMED', 'IDLE'], ['--max-preempt', '4'], **T, bounds='1 timed predicate waiter, 2 notifiers, timer; at most 4 preemptions'),
    ]},
    'P11': {'cases': [
        c('run1', 'p11_pool.cpp', TP, ['MAINOPS=1', 'OPS=5'], bounds='1 worker, 1 submission of any kind, shutdown'),
        c('spurious', 'p11_pool.cpp', TP, ['MAINOPS=1', 'OPS=5', 'POOL=2', 'SPURIOUS=1'], ['--max-preempt', '2'], bounds='2 workers, 1 submission of any kind, shutdown, a worker is woken up for no reason once; at most 2 preemptions'),
        c('run3', 'p11_pool.cpp', TP, ['MAINOPS=3', 'OPS=4'], ['--max-preempt', '2'], bounds='1 worker, 3 submissions of any kind, shutdown; at most 2 preemptions'),
        c('run2w2', 'p11_pool.cpp', TP, ['MAINOPS=2', 'OPS=4', 'POOL=2'], ['--max-preempt', '2'], bounds='2 workers, 2 submissions of any kind, shutdown; at most 2 preemptions'),
        c('live', 'p11_live.cpp', TP, ['POOL=1', 'TASKS=2', 'CHILDREN=0'], ['--max-preempt', '3'], bounds='1 worker, 2 submissions of any kind that go back to the pool once, awaited without a shutdown; at most 3 preemptions'),
        c('nested', 'p11_live.cpp', TP, ['POOL=1', 'TASKS=1', 'CHILDREN=1'], ['--max-preempt', '2'], bounds='1 worker, 1 submission of any kind that goes back to the pool once and submits another, awaited without a shutdown; at most 2 preemptions'),
        c('together', 'p11_live.cpp', TP, ['POOL=2', 'TASKS=2', 'CHILDREN=0', 'BARRIER'], ['--max-preempt', '3'], bounds='2 workers, 2 submissions of any kind that wait for each other; at most 3 preemptions'),
        c('together3', 'p11_live.cpp', TP, ['POOL=3', 'TASKS=2', 'CHILDREN=0', 'BARRIER'], ['--max-preempt', '1'], bounds='3 workers, 2 submissions of any kind that wait for each other; at most 1 preemption'),
        c('null', 'p11_null.cpp', TP, ['LEN=3'], ['--max-preempt', '1'], reach=[1, 2], bounds='ranges of 3 handles, each null or not, null and finished handles, before and after shutdown; at most 1 preemption'),
        c('late', 'p11_pool.cpp', TP, ['MAINOPS=1', 'LATE', 'OPS=5'], bounds='1 worker, 1 submission of any kind, 1 after shutdown'),
        c('race1', 'p11_pool.cpp', TP, ['MAINOPS=1', 'RACE', 'OPS=5'], reach=[1, 2], bounds='1 worker, 1 submission of any kind while shutdown runs'),
        c('race2', 'p11_pool.cpp', TP, ['MAINOPS=2', 'RACE', 'OPS=4'], ['--max-preempt', '3'], reach=[1, 2], bounds='1 worker, 2 submissions of any kind, the second while shutdown runs; at most 3 preemptions'),
        c('race1w2', 'p11_pool.cpp', TP, ['MAINOPS=1', 'RACE', 'OPS=4', 'POOL=2'], ['--max-preempt', '2'], reach=[1, 2], bounds='2 workers, 1 submission of any kind while shutdown runs; at most 2 preemptions'),
        c('race2w2', 'p11_pool.cpp', TP, ['MAINOPS=2', 'RACE', 'OPS=4', 'POOL=2'], ['--max-preempt', '4'], **T, reach=[1, 2], bounds='2 workers, 2 submissions, the second while shutdown runs; at most 4 preemptions'),
        c('run4', 'p11_pool.cpp', TP, ['MAINOPS=4', 'OPS=5'], ['--max-preempt', '3'], **T, bounds='1 worker, 4 submissions of any kind, shutdown; at most 3 preemptions'),
    ]},
    'P12': {'cases': [
        c('seq', 'p12_seq.cpp', [], ['STEPS=4'], reach=[1, 2], bounds='every sequence of 4 create/move/resume/await/destroy on 2 task objects, value results'),
        c('seqref', 'p12_seq.cpp', [], ['STEPS=4', 'KIND=1'], reach=[1, 2], bounds='as seq, reference results'),
        c('seqvoid', 'p12_seq.cpp', [], ['STEPS=4', 'KIND=2'], reach=[1, 2], bounds='as seq, void'),
        c('chain', 'p12_chain.cpp', [], [], reach=[1, 2], bounds='chain of 4 tasks, exception thrown and caught at any level, 9 result kinds'),
        c('seq6', 'p12_seq.cpp', [], ['STEPS=6'], **T, reach=[1, 2], bounds='every sequence of 6 operations'),
        c('chain6', 'p12_chain.cpp', [], ['DEPTH=6'], **T, reach=[1, 2], bounds='chain of 7 tasks'),
    ]},
    'P13': {'cases': [
        c('value', 'p13_sync.cpp', SW, ['KIND=0'], reach=[1, 2], bounds='value result: result or exception, completed by the caller or another thread at any moment'),
        c('ref', 'p13_sync.cpp', SW, ['KIND=1'], reach=[1, 2], bounds='reference result: result or exception, completed by the caller or another thread at any moment'),
        c('void', 'p13_sync.cpp', SW, ['KIND=2'], reach=[1, 2], bounds='no result: result or exception, completed by the caller or another thread at any moment'),
        c('moveonly', 'p13_sync.cpp', SW, ['KIND=3'], reach=[1, 2], bounds='move-only result: result or exception, completed by the caller or another thread at any moment'),
        c('const', 'p13_sync.cpp', SW, ['KIND=4'], reach=[1, 2], bounds='const result: result or exception, completed by the caller or another thread at any moment'),
    ]},
    'P14': {'cases': [
        c('vec2', 'p14_all.cpp', EV, ['N=2', 'ALWAYS=0'], reach=[1, 2], bounds='vector of 2 tasks, each completing at once or on its own thread, value or exception'),
        c('tuple2', 'p14_all.cpp', EV, ['N=2', 'MIXED', 'ALWAYS=0'], reach=[1, 2], bounds='value and void task'),
        c('tuple3', 'p14_all.cpp', EV, ['N=3', 'MIXED', 'ALWAYS=0'], reach=[1, 2], bounds='value, void and reference task'),
        c('void2', 'p14_all.cpp', EV, ['N=2', 'VOIDS', 'ALWAYS=0'], reach=[1, 2], bounds='vector of 2 void tasks'),
        c('vec1', 'p14_all.cpp', EV, ['N=1', 'ALWAYS=0'], reach=[1, 2], bounds='as vec2 with 1 task'),
        c('void1', 'p14_all.cpp', EV, ['N=1', 'VOIDS', 'ALWAYS=0', 'RANGE=std::list'], reach=[1, 2], bounds='as void2 with 1 task, in a list'),
        c('list2', 'p14_all.cpp', EV, ['N=2', 'ALWAYS=0', 'RANGE=std::list'], reach=[1, 2], bounds='as vec2 with a list'),
        c('vec3', 'p14_all.cpp', EV, ['N=3', 'ALWAYS=1'], reach=[1, 2], bounds='vector of 3 tasks, each completing on its own thread'),
    ]},
    'P15': {'cases': [
        c('vec2', 'p15_any.cpp', AN, ['NA=2', 'NOTHROW=0'], reach=[1, 2, 3], bounds='vector of 2 tasks, each completing at once or on its own thread, value or exception'),
        c('tuple2', 'p15_any.cpp', AN, ['NA=2', 'NOTHROW=0', 'TUPLE'], reach=[1, 2, 3], bounds='value and void task'),
        c('void2', 'p15_any.cpp', AN, ['NA=2', 'NOTHROW=0', 'VOIDS'], reach=[1, 2, 3], bounds='vector of 2 void tasks'),
        c('stop', 'p15_any.cpp', AN, ['NA=2', 'NOTHROW=0', 'STOP'], reach=[1, 2, 3], bounds='as vec2 with a stop source'),
        c('stopt', 'p15_any.cpp', AN, ['NA=2', 'NOTHROW=0', 'STOP', 'TUPLE'], reach=[1, 2, 3], bounds='as tuple2 with a stop source'),
        c('stopv', 'p15_any.cpp', AN, ['NA=2', 'NOTHROW=0', 'STOP', 'VOIDS'], reach=[1, 2, 3], bounds='as void2 with a stop source'),
        c('vec1', 'p15_any.cpp', AN, ['NA=1', 'NOTHROW=0'], reach=[1, 2, 3], bounds='as vec2 with 1 task'),
        c('tuple1', 'p15_any.cpp', AN, ['NA=1', 'NOTHROW=0', 'TUPLE', 'STOP'], reach=[1, 2, 3], bounds='as stopt with 1 task'),
        c('void1', 'p15_any.cpp', AN, ['NA=1', 'NOTHROW=0', 'VOIDS'], reach=[1, 2, 3], bounds='as void2 with 1 task'),
        c('stop1', 'p15_any.cpp', AN, ['NA=1', 'NOTHROW=0', 'STOP', 'RANGE=std::list'], reach=[1, 2, 3], bounds='as stop with 1 task, in a list'),
        c('stopv1', 'p15_any.cpp', AN, ['NA=1', 'NOTHROW=0', 'STOP', 'VOIDS', 'RANGE=std::list'], reach=[1, 2, 3], bounds='as stopv with 1 task, in a list'),
        c('list2', 'p15_any.cpp', AN, ['NA=2', 'NOTHROW=0', 'RANGE=std::list'], reach=[1, 2, 3], bounds='list of 2 tasks'),
        c('seq3', 'p15_any.cpp', AN, ['NA=3', 'NOTHROW=0', 'SEQ'], reach=[1, 2, 3], bounds='3 tasks completing in every order, one after another'),
        c('seq3t', 'p15_any.cpp', AN, ['NA=3', 'NOTHROW=0', 'SEQ', 'TUPLE'], reach=[1, 2, 3], bounds='3 tasks completing in every order, one after another'),
    ]},
    'P16': {'cases': [
        c('t2', 'p16_conc.cpp', TG, ['TASKS=2'], bounds='2 tasks on threads of their own, 1 awaiter, then the group is destroyed'),
        c('ctor', 'p16_conc.cpp', TG, ['TASKS=2', 'CTOR', 'THROW'], bounds='as t2, tasks given to the constructor, a task may throw'),
        c('refuse', 'p16_conc.cpp', TG, ['TASKS=2', 'REFUSE'], reach=[1, 2], bounds='as t2, the executor may refuse tasks'),
        c('starter', 'p16_conc.cpp', TG, ['TASKS=2', 'STARTER'], bounds='2 tasks, started from two threads'),
        c('t3', 'p16_conc.cpp', TG, ['TASKS=3'], bounds='3 tasks on threads of their own, 1 awaiter'),
        c('starter3', 'p16_conc.cpp', TG, ['TASKS=3', 'STARTER'], bounds='3 tasks, started from two threads'),
        c('starterdtor', 'p16_conc.cpp', TG, ['TASKS=2', 'STARTER', 'NOWAIT'], bounds='2 tasks started from two threads, group destroyed without awaiting'),
        c('mix', 'p16_mix.cpp', TG, [], bounds='0 to 2 suspended awaiters: the last task finishes against a start (refused or accepted) or a further awaiter, on threads'),
        c('seq', 'p16_seq.cpp', TG, ['STEPS=4'], reach=[1, 2], bounds='every sequence of 4 start/run/finish/await, tasks may throw or be refused'),
        c('seq6', 'p16_seq.cpp', TG, ['STEPS=6'], **T, reach=[1, 2], bounds='every sequence of 6 operations'),
        c('t4', 'p16_conc.cpp', TG, ['TASKS=4', 'REFUSE'], **T, reach=[1, 2], bounds='4 tasks on threads of their own, each may be refused'),
        c('dtor', 'p16_conc.cpp', TG, ['TASKS=1', 'NOWAIT'], bounds='1 task, group destroyed without awaiting'),
    ]},
    'P17': {'cases': [
        c('value', 'p17_gen.cpp', [], ['KIND=0'], reach=[1, 2, 3], bounds='up to 3 yields of values, exception and abandonment at any point, moves'),
        c('ref', 'p17_gen.cpp', [], ['KIND=1'], reach=[1, 2, 3], bounds='as value, yielding references'),
        c('const', 'p17_gen.cpp', [], ['KIND=2'], reach=[1, 2, 3], bounds='as value, yielding const objects'),
        c('value6', 'p17_gen.cpp', [], ['KIND=0', 'MAXY=6'], **T, reach=[1, 2, 3], bounds='up to 6 yields'),
    ]},
    'P28': {'cases': [
        c('value', 'p28_invoke.cpp', [], [], reach=[1, 2, 3], bounds='functor with captures and 2 arguments, value result; awaited at once, later or never; suspends or not; may throw'),
        c('void', 'p28_invoke.cpp', [], ['VOID'], reach=[1, 2, 3], bounds='as value, void result'),
    ]},
    'P18': {'cases': [
        c('t2', 'p18_seq.cpp', SC, ['TIMERS=2', 'BITS=8', 'UNIT=500000', 'JITTER=8'], **NET, bounds='2 timers of -1 ns to 127.5 ms in steps of 0.5 ms, by yield_for/yield_until/schedule_after/schedule_at, every wake-up up to 255 ns late, inline scheduler driven by hand'),
        c('t2ns', 'p18_seq.cpp', SC, ['TIMERS=2', 'BITS=34', 'UNIT=1', 'OFF=4000000000ll', 'JITTER=8'], **NET, bounds='as t2, every duration from -4 s to 13 s in nanoseconds'),
        c('t2again', 'p18_seq.cpp', SC, ['TIMERS=2', 'BITS=8', 'UNIT=500000', 'JITTER=8', 'AGAIN', 'TICK=4'], **NET, bounds='as t2, every look at the clock up to 15 ns late, one timer set anew when it fires'),
        c('t2drive', 'p18_seq.cpp', SC, ['TIMERS=2', 'BITS=8', 'UNIT=500000', 'JITTER=20', 'DRIVE'], **NET, bounds='as t2, the event loop driven between the additions, wake-ups up to 1 ms late'),
        c('to_us', 'p18_to.cpp', SC, ['BITS=8', 'UNIT_NS=100000ll', 'DUR=duration<long long,std::ratio<1,10000>>', 'JITTER=8'], reach=[1, 2], **NET, bounds='schedule(task, timeout): task and timeout of 0 to 25.5 ms in steps of 0.1 ms'),
        c('to_ms', 'p18_to.cpp', SC, ['BITS=8', 'UNIT_NS=1000000ll', 'DUR=milliseconds', 'STOP=1', 'JITTER=8'], reach=[1, 2], **NET, bounds='schedule(stop source, task, timeout): 0 to 255 ms'),
        c('to_void', 'p18_to.cpp', SC, ['BITS=8', 'UNIT_NS=1000000ll', 'DUR=milliseconds', 'STOP=2', 'JITTER=8'], reach=[1, 2], **NET, bounds='schedule(void task, timeout): 0 to 255 ms'),
        c('thr', 'p18_thr.cpp', SC, [], **NET, bounds='2 timers of 1 ns or 2 ms added while the event loop thread runs, every schedule'),
        c('thr2', 'p18_thr.cpp', SC, ['THREADS=2'], ['--max-preempt', '3'], **T, **NET, bounds='3 timers added by two threads while the event loop thread runs; at most 3 preemptions'),
        c('t3', 'p18_seq.cpp', SC, ['TIMERS=3', 'BITS=8', 'UNIT=500000', 'JITTER=8'], **T, **NET, bounds='as t2, 3 timers'),
        c('t3drive', 'p18_seq.cpp', SC, ['TIMERS=3', 'BITS=8', 'UNIT=500000', 'JITTER=20', 'DRIVE'], **T, **NET, bounds='as t2drive, 3 timers'),
    ]},
    'P19': {'cases': [
        c('p1', 'p19_seq.cpp', SC, ['POLLS=1', 'STEPS=3'], ['--merge-max', '200'], **NET, bounds='1 poll of any kind, any timeout up to 63 ms, with or without stop token; every sequence of 3 of: descriptor becomes ready in 7 ways, stop requested, event loop driven, time passes'),
        c('p1pre', 'p19_seq.cpp', SC, ['POLLS=1', 'STEPS=2', 'PRE', 'ROUNDS=2'], ['--merge-max', '200'], **NET, bounds='2 polls one after another, descriptor ready before; every sequence of 2 steps'),
        c('p2', 'p19_seq.cpp', SC, ['POLLS=2', 'STEPS=2', 'TB=2', 'OPS=1'], ['--merge-max', '200'], **NET, bounds='2 polls for read on 2 descriptors, timeouts up to 3 ms; every sequence of 2 steps'),
        c('evto', 'p19_thr.cpp', SC, [], reach=[1, 2, 4], **NET, bounds='poll with a timeout, one thread making it ready, the event loop thread'),
        c('evcan', 'p19_thr.cpp', SC, ['TIMEOUT=0', 'CANCEL=1'], reach=[1, 2, 7], **NET, bounds='poll with a stop token, one thread making it ready, one requesting the stop, the event loop thread'),
        c('tocan', 'p19_thr.cpp', SC, ['EVENT=0', 'CANCEL=1'], reach=[1, 4, 7], **NET, bounds='poll with a timeout and a stop token, one thread requesting the stop, the event loop thread'),
        c('pool', 'p19_thr.cpp', SC, ['POOL=1', 'CANCEL=0'], reach=[1, 2, 4], **NET, bounds='poll with a timeout, one thread making it ready, the event loop thread, one pool thread'),
        c('fail', 'p19_seq.cpp', SC, ['POLLS=2', 'STEPS=2', 'NOSTOP', 'FAIL=3'], ['--merge-max', '200'], **NET, bounds='2 polls, any one of the first 3 epoll/timer system calls failing; every sequence of 2 steps'),
        c('p1s5', 'p19_seq.cpp', SC, ['POLLS=1', 'STEPS=5'], ['--merge-max', '200'], **T, **NET, bounds='as p1, every sequence of 5 steps'),
        c('p2s3', 'p19_seq.cpp', SC, ['POLLS=2', 'STEPS=3', 'TB=3'], ['--merge-max', '200'], **T, **NET, bounds='as p2, any kind of poll, every sequence of 3 steps'),
        c('pre3', 'p19_seq.cpp', SC, ['POLLS=1', 'STEPS=3', 'PRE', 'ROUNDS=3'], ['--merge-max', '200'], **T, **NET, bounds='3 polls one after another, every sequence of 3 steps'),
    ]},
    'P20': {'cases': [
        c('in1', 'p20_sched.cpp', SC, ['MAINOPS=1', 'OPS=7', 'LATE'], **NET, bounds='inline scheduler with its event loop thread: 1 piece of work of 7 kinds, shutdown, 1 more offered afterwards'),
        c('in2', 'p20_sched.cpp', SC, ['MAINOPS=2', 'OPS=8'], **NET, bounds='inline scheduler: 2 pieces of work of 8 kinds, shutdown'),
        c('race', 'p20_sched.cpp', SC, ['MAINOPS=1', 'OPS=7', 'RACE'], reach=[1, 2], **NET, bounds='inline scheduler: 1 piece of work of 7 kinds offered while another thread shuts down'),
        c('man', 'p20_sched.cpp', SC, ['MAINOPS=3', 'OPS=8', 'MANUAL=1'], **NET, bounds='inline scheduler driven by hand: every sequence of 3 pieces of work of 8 kinds, driven in between or not, before or after shutdown'),
        c('drivers', 'p20_sched.cpp', SC, ['MAINOPS=2', 'OPS=7', 'MANUAL=1', 'DRIVERS'], **NET, bounds='as man, 2 pieces of work, the event loop driven by 2 threads at once'),
        c('pool1', 'p20_sched.cpp', SC, ['MAINOPS=1', 'OPS=8', 'INLINE=0', 'LATE2'], **NET, bounds='scheduler with 1 pool thread: 1 piece of work of 8 kinds, shutdown'),
        c('pool2', 'p20_sched.cpp', SC, ['MAINOPS=2', 'OPS=7', 'INLINE=0'], ['--max-preempt', '2'], **NET, bounds='scheduler with 1 pool thread: 2 pieces of work of 7 kinds; at most 2 preemptions'),
        c('poollate', 'p20_sched.cpp', SC, ['MAINOPS=1', 'OPS=7', 'INLINE=0', 'LATE'], ['--max-preempt', '1'], **NET, bounds='scheduler with 1 pool thread: 1 piece of work of 7 kinds, shutdown, 1 more offered afterwards; at most 1 preemption'),
        c('poolrace', 'p20_sched.cpp', SC, ['MAINOPS=1', 'OPS=7', 'INLINE=0', 'RACE'], ['--max-preempt', '3'], reach=[1, 2], **NET, bounds='scheduler with 1 pool thread: 1 piece of work of 7 kinds while another thread shuts down; at most 3 preemptions'),
        c('race2', 'p20_sched.cpp', SC, ['MAINOPS=2', 'OPS=7', 'RACE'], **T, reach=[1, 2], **NET, bounds='inline scheduler: 2 pieces of work, the second while another thread shuts down'),
        c('man5', 'p20_sched.cpp', SC, ['MAINOPS=4', 'OPS=8', 'MANUAL=1'], **T, **NET, bounds='as man, 4 pieces of work'),
        c('poolrace_full', 'p20_sched.cpp', SC, ['MAINOPS=1', 'OPS=7', 'INLINE=0', 'RACE'], **T, reach=[1, 2], **NET, bounds='as poolrace, every schedule'),
        c('in3', 'p20_sched.cpp', SC, ['MAINOPS=3', 'OPS=8'], **T, **NET, bounds='inline scheduler: 3 pieces of work of 8 kinds, shutdown'),
    ]},
    'P21': {'cases': [
        c('pipe', 'p21_fd.cpp', FD, ['KIND=0'], **NET, reach=[1, 2], bounds='every sequence of 4 create/copy/move/assign/close/destroy on 2 pipes'),
        c('socket', 'p21_fd.cpp', FD, ['KIND=1'], **NET, reach=[1, 2], bounds='every sequence of 4 create/copy/move/assign/close/destroy on 2 sockets'),
        c('stop', 'p21_fd.cpp', FD, ['KIND=2'], **NET, reach=[1, 2], bounds='every sequence of 4 create/move/assign/destroy on 2 stop sources'),
        c('sched', 'p21_sched.cpp', SC, ['FAIL=14'], **NET, reach=[1, 2], bounds='a scheduler built, used for one poll or not, shut down or not and destroyed; any one of the first 14 system calls failing'),
        c('client', 'p21_fd.cpp', NT, ['KIND=3', 'STEPS=4'], **NETIN, reach=[1, 2], bounds='every sequence of 4 create/copy/move/assign/close/destroy on 2 tcp clients'),
        c('peer', 'p21_fd.cpp', NT, ['KIND=4', 'STEPS=4'], **NETIN, reach=[1, 2], bounds='every sequence of 4 create/copy/move/assign/close/destroy on 2 udp peers'),
        c('server', 'p21_fd.cpp', NT, ['KIND=5', 'STEPS=4'], **NETIN, reach=[1, 2], bounds='every sequence of 4 create/move/assign/close/destroy on 2 tcp servers'),
        c('make', 'p21_make.cpp', FD, [], **NET, reach=[1, 2], bounds='any one system call failing while a pipe, socket or listening socket is built'),
    ]},
    'P22': {'cases': [
        c('read_some', 'p22_tcp.cpp', NT, ['MODE=0'], ['--merge-max', '200'], **NETIN, reach=[1, 2, 3, 4, 5, 6], bounds='buffer of 3 bytes, timeout 0 to 3 ms; every sequence of 3 of 7 readiness changes with 0 to 3.5 ms in between; every transfer moves any number of bytes of any value, closes, or fails with any errno up to 133'),
        c('read_exact', 'p22_tcp.cpp', NT, ['MODE=1'], ['--merge-max', '200'], **NETIN, reach=[1, 2, 3, 4, 5, 6], bounds='as read_some'),
        c('write_some', 'p22_tcp.cpp', NT, ['MODE=2'], ['--merge-max', '200'], **NETIN, reach=[1, 2, 3, 4, 5, 6], bounds='as read_some, writing'),
        c('write_all', 'p22_tcp.cpp', NT, ['MODE=3'], ['--merge-max', '200'], **NETIN, reach=[1, 2, 3, 4, 5, 6], bounds='as read_some, writing'),
        c('wide', 'p22_tcp.cpp', NT, ['MODE=1', 'ELEM=short', 'BYTES=4', 'STEPS=2', 'EVENTS=3'], ['--merge-max', '200'], **NETIN, bounds='2 elements of 2 bytes, sequences of 2 of 3 readiness changes'),
        c('rs2', 'p22_tcp.cpp', NT, ['MODE=0', 'ROUNDS=2', 'BYTES=2', 'STEPS=2', 'EVENTS=4'], ['--merge-max', '200'], **NETIN, bounds='2 reads one after another, 2 bytes, sequences of 2 of 4 readiness changes'),
        c('ws2', 'p22_tcp.cpp', NT, ['MODE=2', 'ROUNDS=2', 'BYTES=2', 'STEPS=2', 'EVENTS=4'], ['--merge-max', '200'], **NETIN, bounds='2 writes one after another, 2 bytes, sequences of 2 of 4 readiness changes'),
        c('re2', 'p22_tcp.cpp', NT, ['MODE=1', 'ROUNDS=2', 'BYTES=2', 'STEPS=3'], ['--merge-max', '200'], **T, **NETIN, bounds='2 read_exact one after another, 2 bytes, sequences of 3'),
        c('wa2', 'p22_tcp.cpp', NT, ['MODE=3', 'ROUNDS=2', 'BYTES=2', 'STEPS=3'], ['--merge-max', '200'], **T, **NETIN, bounds='2 write_all one after another, 2 bytes, sequences of 3'),
        c('re5', 'p22_tcp.cpp', NT, ['MODE=1', 'BYTES=5', 'STEPS=4'], ['--merge-max', '200'], **T, **NETIN, bounds='buffer of 5 bytes, sequences of 4'),
    ]},
    'P23': {'cases': [
        c('connect', 'p23_conn.cpp', NT, ['MODE=0'], ['--merge-max', '200'], **NETIN, reach=[1, 2, 4, 5], bounds='connect() called twice, IPv4, timeout 0 to 3 ms; the kernel answers with success or any errno up to 133, SO_ERROR any value or unavailable; every sequence of 3 of 6 readiness changes with 0 to 3.5 ms in between'),
        c('connectmv', 'p23_conn.cpp', NT, ['MODE=0', 'MOVED', 'STEPS=1'], ['--merge-max', '200'], **NETIN, reach=[1, 2, 4, 5, 30], bounds='as connect, the second connect() on the client or one moved or copied from it, 1 readiness change'),
        c('connect6', 'p23_conn.cpp', NT, ['MODE=0', 'V6=1', 'STEPS=1'], ['--merge-max', '200'], **NETIN, reach=[1, 2, 4, 5], bounds='as connect, IPv6, 1 readiness change'),
        c('socket', 'p23_sock.cpp', FD, [], **NET, reach=[1, 2], bounds='make_socket, make_accept_socket, blocking() and shutdown() with every option, IPv4 and IPv6, any address, port and backlog, any descriptor flags; none or any one of the first 8 system calls failing'),
        c('accept', 'p23_conn.cpp', NT, ['MODE=1', 'STEPS=2'], ['--merge-max', '200'], **NETIN, reach=[1, 2, 3], bounds='2 accept() one after another, timeout 0 to 3 ms; every sequence of 2 of connection, 4 readiness changes, shutdown, with 0 to 3.5 ms in between; the kernel hands over a connection or fails with any errno up to 133'),
        c('accept4', 'p23_conn.cpp', NT, ['MODE=1', 'STEPS=3', 'ROUNDS=3'], ['--merge-max', '200'], **T, **NETIN, reach=[1, 2, 3], bounds='as accept, 3 accepts, sequences of 3'),
        c('connect5', 'p23_conn.cpp', NT, ['MODE=0', 'STEPS=5'], ['--merge-max', '200'], **T, **NETIN, reach=[1, 2, 4, 5], bounds='as connect, sequences of 5'),
    ]},
    'P24': {'cases': [
        c('read4', 'p24_udp.cpp', NT, ['MODE=0'], ['--merge-max', '200'], **NETIN, bounds='2 reads one after another into 4 bytes, IPv4, timeout 0 to 3 ms; every datagram of 0 to 4 bytes of any content from any address, or any errno up to 133; every sequence of 2 of 5 readiness changes with 0 to 3.5 ms in between'),
        c('read6', 'p24_udp.cpp', NT, ['MODE=0', 'V6=1', 'ROUNDS=1'], ['--merge-max', '200'], **NETIN, bounds='as read4, IPv6, 1 read'),
        c('readmv', 'p24_udp.cpp', NT, ['MODE=0', 'MOVED', 'STEPS=1', 'ROUNDS=1'], ['--merge-max', '200'], **NETIN, reach=[1, 30], bounds='as read4, 1 read by a peer or one moved or copied from it, 1 readiness change'),
        c('write4', 'p24_udp.cpp', NT, ['MODE=1', 'BOUND=0'], ['--merge-max', '200'], **NETIN, bounds='2 writes of 4 bytes to any IPv4 address, otherwise as read4'),
        c('write6', 'p24_udp.cpp', NT, ['MODE=1', 'V6=1', 'ROUNDS=1'], ['--merge-max', '200'], **NETIN, bounds='as write4, IPv6, 1 write'),
        c('unbound', 'p24_udp.cpp', NT, ['MODE=0', 'BOUND=0', 'STEPS=1'], ['--merge-max', '200'], **NETIN, bounds='2 reads from a peer that is not bound'),
        c('read3', 'p24_udp.cpp', NT, ['MODE=0', 'ROUNDS=3', 'STEPS=3'], ['--merge-max', '200'], **T, **NETIN, bounds='as read4, 3 reads, sequences of 3'),
        c('write3', 'p24_udp.cpp', NT, ['MODE=1', 'ROUNDS=3', 'STEPS=3'], ['--merge-max', '200'], **T, **NETIN, bounds='as write4, 3 writes, sequences of 3'),
    ]},
    'P25': {'cases': [
        c('connect', 'p25_tls.cpp', TL, ['MODE=0', 'STEPS=2'], MM, **NETIN, reach=[1, 2, 5, 6, 7, 8, 9, 10, 12], bounds='connect() twice, timeout 0 to 3 ms; connect(2) answers with success or any errno up to 133, SO_ERROR any value or unavailable; OpenSSL answers every call with success, WANT_READ, WANT_WRITE, ZERO_RETURN, SYSCALL or SSL, or cannot allocate or take the descriptor; every sequence of 2 of 6 readiness changes with 0 to 3.5 ms in between; other connections leave errors in the queue at any step'),
        c('accept', 'p25_tls.cpp', TL, ['MODE=1', 'STEPS=2'], MM, **NETIN, reach=[1, 2, 5, 6, 7, 8, 9, 10], bounds='accept() of tls::server, accept(2) succeeds or fails, otherwise as connect'),
        c('recv', 'p25_tls.cpp', TL, ['MODE=2'], MM, **NETIN, reach=[1, 4, 8, 9, 13, 14], bounds='recv() into 2 bytes, with 0 to 2 bytes already decrypted, no timeout or 0 to 3 ms; every sequence of 3 of 6 readiness changes; OpenSSL answers as in connect, with any number of bytes of any value'),
        c('send', 'p25_tls.cpp', TL, ['MODE=3'], MM, **NETIN, reach=[1, 4, 8, 9, 13, 14], bounds='send() of 2 bytes, otherwise as recv'),
        c('recv2', 'p25_tls.cpp', TL, ['MODE=2', 'ROUNDS=2', 'STEPS=1', 'EVENTS=3'], MM, **NETIN, reach=[1, 8], bounds='2 recv() one after another, 1 of 3 readiness changes, otherwise as recv'),
        c('shutdown', 'p25_tls.cpp', TL, ['MODE=4'], MM, **NETIN, reach=[1, 4, 5, 6], bounds='shutdown(timeout) twice, then the destructor; every sequence of 3 of 6 readiness changes, otherwise as recv'),
        c('connect4', 'p25_tls.cpp', TL, ['MODE=0', 'STEPS=4'], MM, **T, **NETIN, bounds='as connect, sequences of 4'),
        c('accept4', 'p25_tls.cpp', TL, ['MODE=1', 'STEPS=4'], MM, **T, **NETIN, bounds='as accept, sequences of 4'),
        c('recv4', 'p25_tls.cpp', TL, ['MODE=2', 'ROUNDS=2', 'STEPS=4', 'BYTES=3'], MM, **T, **NETIN, bounds='2 recv() one after another into 3 bytes, sequences of 4'),
        c('send4', 'p25_tls.cpp', TL, ['MODE=3', 'ROUNDS=2', 'STEPS=4', 'BYTES=3'], MM, **T, **NETIN, bounds='2 send() one after another of 3 bytes, sequences of 4'),
    ]},
    'P26': {'cases': [
        c('bytes', 'p26_addr.cpp', [], ['BYTES'], **IN, bounds='every address of both families, every port, every length of bytes up to 20'),
        c('text4', 'p26_addr.cpp', [], ['TEXT', 'DOM=domain_t::ipv4'], **IN, bounds='every IPv4 address as text'),
        c('text6', 'p26_addr.cpp', [], ['TEXT', 'DOM=domain_t::ipv6'], **IN, bounds='every IPv6 address as full text'),
        c('any4', 'p26_addr.cpp', [], ['LEN=8', 'DOM=domain_t::ipv4'], **IN, reach=[1, 2], bounds='every text of up to 8 characters without NUL'),
        c('any6', 'p26_addr.cpp', [], ['LEN=5', 'DOM=domain_t::ipv6'], **IN, reach=[1, 2], bounds='every text of up to 5 characters without NUL'),
    ]},
    'P27': {'cases': [
        c('all', 'p27_enum.cpp', EN, [], reach=[1, 2], bounds='every errno (32 bit), every enumerator'),
    ]},
    'P29': {'cases': [
        c('race2', 'p29_exec.cpp', DE, ['CALLERS=2'], ['--max-preempt', '4'], bounds='2 threads making the first call; at most 4 preemptions'),
        c('race2f', 'p29_exec.cpp', DE, ['CALLERS=2'], ['--fine', '--max-preempt', '2'], bounds='2 threads making the first call, plain accesses interleaved; at most 2 preemptions'),
        c('use', 'p29_exec.cpp', DE, ['CALLERS=2', 'USE'], ['--max-preempt', '2'], bounds='2 threads making the first call, then work is scheduled; at most 2 preemptions'),
        c('io2', 'p29_exec.cpp', SC + ['src/default_executor.cpp'], ['CALLERS=2', 'USE', 'IO'], ['--max-preempt', '3'], **NET, bounds='io_executor: 2 threads making the first call, then work is scheduled; at most 3 preemptions'),
        c('io2f', 'p29_exec.cpp', SC + ['src/default_executor.cpp'], ['CALLERS=2', 'IO'], ['--fine', '--max-preempt', '2'], **NET, bounds='io_executor: 2 threads making the first call, plain accesses interleaved; at most 2 preemptions'),
        c('race3', 'p29_exec.cpp', DE, ['CALLERS=3'], ['--max-preempt', '2'], bounds='3 threads making the first call; at most 2 preemptions'),
    ]},
    'P30': {'cases': [
        c('one', 'p30_dns.cpp', DN, ['TMIN=1', 'STEPS=2'], MM, **NETIN, reach=[1, 2, 3, 5], bounds='1 lookup, timeout 1 or 2 ms; c-ares answers each call with nothing, 0 to 2 addresses of either family and any value, a failure, another interest or a second socket, and may fail a lookup at once; every sequence of 2 of 6 readiness changes, with or without 1.1 ms in between'),
        c('two', 'p30_dns.cpp', DN, ['TMIN=1', 'QUERIES=2', 'STEPS=2', 'NODES=1'], MM, **NETIN, reach=[1, 2, 3, 5], bounds='2 lookups one after another, up to 1 address, otherwise as one'),
        c('both', 'p30_dns.cpp', DN, ['TMIN=1', 'TOGETHER=2', 'STEPS=2', 'NODES=1'], MM, **NETIN, reach=[1, 2, 3, 5], bounds='2 lookups at the same time, up to 1 address, otherwise as one'),
        c('destroy', 'p30_dns.cpp', DN, ['TMIN=1', 'STEPS=2', 'NODES=1', 'DESTROY'], MM, **NETIN, reach=[1, 2, 3, 5], bounds='as one, up to 1 address, the resolver is destroyed after 2 steps'),
        c('init', 'p30_dns.cpp', DN, ['TMIN=1', 'STEPS=0', 'NODES=1', 'INITFAIL'], MM, **NETIN, reach=[1, 2, 3], bounds='the channel of a first resolver cannot be created, then as one without steps'),
        c('second', 'p30_dns.cpp', DN, ['TMIN=1', 'STEPS=0', 'NODES=1', 'TWO'], MM, **NETIN, reach=[1, 2, 3], bounds='a second resolver is made and destroyed before the lookup, then as one without steps'),
        c('zero', 'p30_dns.cpp', DN, ['TMIN=0', 'STEPS=2', 'NODES=1'], MM, **NETIN, bounds='as one with timeout 0 or 1 ms, up to 1 address'),
        c('both3', 'p30_dns.cpp', DN, ['TMIN=1', 'TOGETHER=2', 'STEPS=3', 'NODES=1'], MM, **T, **NETIN, bounds='as both, sequences of 3'),
        c('one4', 'p30_dns.cpp', DN, ['TMIN=1', 'STEPS=4'], MM, **T, **NETIN, bounds='as one, sequences of 4'),
        c('destroy3', 'p30_dns.cpp', DN, ['TMIN=1', 'STEPS=3', 'TOGETHER=2', 'NODES=1', 'DESTROY'], MM, **T, **NETIN, bounds='2 lookups at the same time, the resolver is destroyed after 3 steps'),
    ]},
}

# The harnesses with threads: plain memory accesses are interleaved too (a scheduling point after every atomic operation
# as well as before it), unless the case says otherwise.
THREADED = ('p01_mutex', 'p02_conc', 'p03_latch', 'p04_conc', 'p04_rel', 'p04_shut', 'p05_conc', 'p06_conc', 'p07_conc', 'p08_conc', 'p09_conc', 'p10_conc',
            'p10_idle', 'p11_pool', 'p13_sync', 'p14_all', 'p15_any', 'p16_conc', 'p01_mix', 'p02_mix', 'p04_mix', 'p05_mix', 'p06_mix', 'p07_mix', 'p08_mix', 'p16_mix', 'p18_thr', 'p19_thr', 'p20_sched', 'p29_exec')
for _p in PROPS.values():
    for _c in _p['cases']:
        _c['threaded'] = _c['src'][:-4] in THREADED
        if _c['threaded'] and _c.pop('fine', True) and '--fine' not in _c['opts']:
            _c['opts'] = _c['opts'] + ['--fine']
            _c['bounds'] += '; plain accesses interleaved'
        _c.pop('fine', None)
