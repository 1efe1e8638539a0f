import json
P=[]
def p(id,title,stmt,over,text,why,files,state,mech,obs,hook=None):
    P.append(dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=obs,hook_needed=hook)))
p('C01','mutex: exclusive ownership, direct hand-off, no waiter lost','At every moment at most one coroutine owns a coro::mutex, and every coroutine waiting for it is eventually handed ownership exactly once by a releasing owner, with what earlier owners wrote visible to it. try_lock succeeds only by acquiring a free mutex; unlock either hands the lock to exactly one waiter or frees it, and throws if nobody holds it. A scoped_lock releases exactly the lock it owns, exactly once, across moves, assignment and destruction.',
 ['schedules','histories'],'every interleaving of any number of lock/try_lock/unlock calls on any threads, any number of waiters, any sequence of scoped_lock moves','Tests run a few tasks with whatever interleaving the machine gives; a lost waiter or double owner needs a particular interleaving around the state word.',
 ['include/coro/mutex.hpp','src/mutex.cpp'],[('mutex state word','unlocked sentinel / locked without waiters / newest waiter','mutex.hpp')],[('compare-exchange acquire and waiter push','src/mutex.cpp try_lock, lock_operation_base::await_suspend'),('pop and hand-off','src/mutex.cpp unlock')],['ownership after lock()/try_lock()','resumption of waiters'])
p('C02','event: set releases every waiter exactly once','After event::set every coroutine waiting on the event, and every coroutine that awaits it until the next reset, continues; each waiting coroutine is resumed exactly once per wait, never before a set, and sees what the setter wrote before setting. Waiters are resumed in the order the resume policy promises, and reset makes later awaits wait again without losing waiters; set touches neither a waiter nor the event after the waiter it resumed may have destroyed them.',
 ['schedules','histories'],'every interleaving of set/reset/await by any number of threads, and any number of waiters','Unit tests use a handful of waiters on one or two threads; missing wakeups depend on the exact point at which a waiter registers against a concurrent set.',
 ['include/coro/event.hpp','src/event.cpp'],[('event state word','set sentinel / no waiters / newest waiter','event.hpp')],[('exchange to set and walk the waiter list','event.hpp/event.cpp set'),('waiter push','src/event.cpp awaiter::await_suspend')],['await completion','is_set()'])
p('C03','latch: waiters released exactly when the count reaches zero','A latch releases its waiters if and only if its count has been decremented at least as many times as its initial value, in total over all threads; no waiter proceeds earlier and none waits after that. Counting past zero has no further effect on waiters, and a latch that starts at zero never blocks; remaining() is then zero.',
 ['schedules','inputs'],'any initial count, any split of the decrements over threads and calls, any interleaving with waiters','The tests use one or two counts; the zero crossing under concurrent decrements of different sizes is not sampled.',
 ['include/coro/latch.hpp'],[('count','remaining decrements','latch.hpp')],[('fetch_sub and zero test','latch.hpp count_down')],['await on the latch','is_ready()'])
p('C04','semaphore: permits are conserved and never exceed the maximum','The number of successful acquires never exceeds the starting permits plus the successful releases, the permits available never exceed the maximum, and no released permit disappears while somebody waits. Every waiting acquirer is resumed exactly once, either owning a permit or, after shutdown, told that the semaphore was shut down; after shutdown no acquire waits.',
 ['schedules','histories','inputs'],'every interleaving of acquire/try_acquire/release/shutdown, every maximum and starting value','Lost permits and lost waiters need a release between a failed try and the registration of the waiter; tests do not force it.',
 ['include/coro/semaphore.hpp','src/semaphore.cpp','include/coro/detail/awaiter_list.hpp'],[('counter','permits available','semaphore.hpp')],[('CAS on the counter','semaphore.hpp try_acquire/release'),('waiter list under the internal mutex','src/semaphore.cpp')],['result of acquire/try_acquire','value()'])
p('C05','queue: every pushed element is delivered exactly once','Every element accepted by push or emplace is handed to exactly one successful pop or try_pop, in order of acceptance, or stays in the queue; nothing else is ever delivered. A waiting popper is resumed exactly once, with an element or, after shutdown, with a stopped result; after shutdown no push is accepted and no pop waits, and draining leaves the accepted elements to poppers before reporting stopped.',
 ['schedules','histories'],'every interleaving of producers, consumers and shutdown, any number of elements','Tests count elements on a few interleavings; loss or duplication needs a pop to register between the push check and the hand-over.',
 ['include/coro/queue.hpp','include/coro/detail/awaiter_list.hpp'],[('elements','accepted, undelivered elements','queue.hpp'),('waiters','poppers waiting','queue.hpp')],[('mutex-protected hand-over to a waiter','queue.hpp push/emplace/pop')],['results of push and pop'])
p('C06','ring_buffer: bounded FIFO without loss, duplication or overwrite','A ring buffer never holds more elements than its capacity, delivers the produced elements in the order they were accepted, each to exactly one consumer, and never overwrites an unconsumed element or delivers an empty slot. A full buffer makes producers wait and an empty one makes consumers wait, each resumed exactly once when its operation completed or the buffer was shut down, and a producer told "produced" has its element in the buffer or consumed.',
 ['schedules','histories','inputs'],'every capacity, every interleaving of produce/consume/notify/shutdown','The wrap-around arithmetic and the waiting paths are exercised for one or two sizes and schedules.',
 ['include/coro/ring_buffer.hpp'],[('front/back/used','positions and occupancy','ring_buffer.hpp')],[('try_produce_locked / try_consume_locked and the resume loops','ring_buffer.hpp')],['results of produce and consume','size()'])
p('C07','shared_mutex: one writer or many readers, no lost waiter','At every moment either nobody, any number of shared holders, or exactly one exclusive holder owns a shared_mutex. Waiters are granted the lock exactly once, in arrival order with a run of waiting readers granted together, a waiting writer stops later readers from overtaking it, and the last release grants the lock to the next waiter. scoped_lock and scoped_lock_shared hold the lock exactly while their task runs and release it once, also when the task throws.',
 ['schedules','histories'],'every interleaving of shared and exclusive lock, try_lock and unlock, any number of readers','Tests observe a few orders; overlap of a writer with readers depends on the hand-over taken by the last unlocker.',
 ['include/coro/shared_mutex.hpp'],[('state and shared user count','who holds the lock','shared_mutex.hpp'),('waiter list','FIFO of waiters','shared_mutex.hpp')],[('grant in wake_waiters','shared_mutex.hpp')],['ownership after lock()/lock_shared()'])
p('C08','condition_variable: notified waiters resume once, holding the lock','A coroutine waiting on a condition variable releases the lock while it waits, is resumed at most once per wait, and always owns the lock again when its wait returns. notify_one wakes at least one registered waiter and notify_all every registered one; a wait with a predicate returns only when the predicate holds, the timeout passed or a stop was requested, and its result says which.',
 ['schedules','histories'],'every interleaving of wait/wait_for/notify_one/notify_all, any number of waiters','Tests sample few notify/wait interleavings; lost notifications and returns without the lock depend on the registration order.',
 ['include/coro/condition_variable.hpp','src/condition_variable.cpp','include/coro/detail/awaiter_list.hpp'],[('awaiter list','registered waiters','condition_variable.hpp')],[('register, unlock, suspend','condition_variable.cpp await_suspend'),('notify','condition_variable.cpp notify_one/notify_all')],['return of wait','ownership of the mutex'])
p('C09','task: result, exception and frame lifetime','Awaiting a task runs its body exactly once and yields exactly the value it returned or rethrows exactly the exception that escaped it, resuming the awaiter exactly once after the body finished and never before. A task starts lazily, its frame is destroyed exactly once by its last owner, moving a task transfers it completely, and asking for the result of an unfinished task that returns a value throws.',
 ['programs','histories'],'every body (value, reference, move-only, void, throwing), every sequence of moves, resumes and destruction','Tests instantiate a few bodies; frame leaks and double destroys are silent in ordinary runs.',
 ['include/coro/task.hpp'],[('stored result','empty / value / exception','task.hpp promise'),('continuation','awaiting coroutine','task.hpp promise_base')],[('final awaiter symmetric transfer','task.hpp'),('move/destroy of the handle','task.hpp')],['co_await result','frame destruction'])
p('C10','sync_wait: blocks until completion and returns the outcome','sync_wait returns only after the awaited operation has completed, returns exactly its value or rethrows exactly its exception, and always returns once it completes on whatever thread. What the awaited operation wrote is visible to the caller, and nothing of the internal state is touched after sync_wait may have returned.',
 ['schedules','inputs'],'every point at which completion can occur relative to the wait, every result kind','A missed notification or a use of the event after return needs completion exactly around the wait.',
 ['include/coro/sync_wait.hpp','src/sync_wait.cpp'],[('event','set when complete','sync_wait.hpp')],[('mutex + condition variable event','src/sync_wait.cpp'),('final awaiter sets the event','sync_wait.hpp')],['return of sync_wait'])
p('C11','when_all: continues once after every child finished','Awaiting when_all resumes the awaiter exactly once, after every child has finished and not before, on whatever threads and in whatever order the children finish. Each result slot holds exactly the value or exception of its own child, in the order given.',
 ['schedules','inputs'],'any number of children, any completion order and thread','The race between the last child finishing and the awaiter registering is not controllable in tests.',
 ['include/coro/when_all.hpp'],[('count','children still running plus the awaiter','when_all.hpp')],[('try_await / notify_awaitable_completed','when_all.hpp')],['resumption of the awaiter','return_value()'])
p('C12','when_any: first result wins, exactly once','when_any completes exactly once, as soon as the first child finished with a result (a child that ends with an exception does not win over one that has a result), with exactly that child\'s result; later results are discarded without touching freed state. The stop token given is requested to stop once a winner exists.',
 ['schedules','inputs'],'any number of children, any completion order and thread','Two children finishing together, or a loser finishing after the awaiter left, is not controllable in tests.',
 ['include/coro/when_any.hpp'],[('first_completed','whether a winner exists','when_any.hpp')],[('compare-exchange of the winner','when_any.hpp')],['result of when_any'])
p('C13','thread_pool: accepted work runs exactly once; shutdown drains','Every coroutine the pool accepts is resumed exactly once by a pool thread, also when it was accepted before shutdown; work is refused, without being resumed by the pool, after shutdown started or when the handle is null or already done. The count of outstanding work returns to zero exactly when all accepted work has been run, and no pool thread exits while accepted work is queued.',
 ['schedules','histories'],'every interleaving of schedule/yield/resume/spawn/shutdown with the pool threads','Lost work needs a push between the worker\'s test and its wait, or shutdown between acceptance and queueing.',
 ['include/coro/thread_pool.hpp','src/thread_pool.cpp'],[('queue','accepted, not yet resumed coroutines','thread_pool.hpp'),('size','outstanding work','thread_pool.hpp')],[('mutex + condition variable queue','src/thread_pool.cpp schedule_impl/executor'),('shutdown','src/thread_pool.cpp')],['resumption on a pool thread','size()/empty()'])
p('C14','scheduler timers and polls: one outcome, never early','A coroutine waiting for a timer or for a file descriptor is resumed exactly once, with the one status that really happened first of event, timeout and cancellation; the other registrations for it are gone before it runs again. A timer is never delivered before its deadline and no pending timer is forgotten when an earlier one is added or removed.',
 ['schedules','histories','inputs'],'every order of arrival of event, timeout, cancellation, every set of pending deadlines','Simultaneous event and timeout for the same poll, and many timers with equal deadlines, are not sampled.',
 ['src/scheduler.cpp','include/coro/scheduler.hpp','include/coro/detail/poll_info.hpp','include/coro/io_notifier.hpp','src/detail/timer_handle.cpp'],[('timed events','pending deadlines','scheduler.hpp'),('processed flag','poll already resolved','poll_info.hpp')],[('process_event_execute / process_timeout_execute','src/scheduler.cpp'),('add_timer_token/remove_timer_token','src/scheduler.cpp')],['status returned by poll()','resume time'])
p('C15','scheduler: accepted tasks run exactly once and shutdown completes','Every coroutine handed to the scheduler (schedule, resume, spawn) is resumed exactly once, on the event loop or the pool as configured, and the loop always wakes up for it. Scheduling after shutdown is refused; shutdown is idempotent and the event loop does not finish while accepted coroutines remain.',
 ['schedules','histories'],'every interleaving of producers with the event loop and with shutdown','A lost wakeup needs a push between the loop\'s drain and its trigger reset.',
 ['src/scheduler.cpp','include/coro/scheduler.hpp'],[('scheduled tasks','accepted handles','scheduler.hpp'),('schedule trigger','pending wakeup','scheduler.hpp')],[('process_scheduled_execute_inline','src/scheduler.cpp'),('shutdown','src/scheduler.cpp')],['resumption','size()'])
p('C16','io_notifier: readiness is reported for what was asked, truthfully','Watching a descriptor registers exactly the requested directions for exactly that poll, unwatching removes it, and each kernel event is delivered to the poll that registered it with the status that corresponds to the kernel event. No event is dropped from a batch, duplicated, attributed to another poll, or reported as readiness when the kernel reported only an error or a hang-up.',
 ['inputs','fault_sequences'],'every event mask the kernel may return, every batch size, every requested direction','Tests see only the masks the kernel happens to produce.',
 ['src/detail/io_notifier_epoll.cpp','include/coro/detail/io_notifier_epoll.hpp','include/coro/poll.hpp'],[('event data','which poll registered','io_notifier_epoll.cpp')],[('event_to_poll_status','io_notifier_epoll.cpp'),('next_events','io_notifier_epoll.cpp')],['status of poll()'])
p('C17','task_group: wait returns only after every started task finished','Awaiting a task group completes only when every task started on it has finished, and completes when they all have; the size equals the number of started, unfinished tasks. A start the executor refuses is reported as false, the task then never runs, and it does not count.',
 ['schedules','histories'],'every interleaving of start, completion and wait, any number of tasks','The last completion racing with a new start or the registration of a waiter is not sampled.',
 ['include/coro/task_group.hpp','src/detail/task_self_deleting.cpp'],[('size','unfinished tasks','task_group.hpp'),('completion event','set when empty','task_group.hpp')],[('count up / count down','task_group.hpp')],['await of the group','size()'])
p('C18','generator: yields exactly the produced sequence','Iterating a generator produces exactly the values the body yields, in order, as the very objects yielded, ending when the body returns; an exception that escapes the body is rethrown to the consumer. The body is lazy, runs exactly as far as it is asked, and its frame is destroyed exactly once.',
 ['programs','histories'],'every body, every interleaving of increments, early abandonment and exceptions','Tests iterate a few fixed generators.',
 ['include/coro/generator.hpp'],[('current value','last yielded object','generator.hpp')],[('yield_value / iterator','generator.hpp')],['iteration'])
p('C19','ip_address and socket_address represent addresses faithfully','An address built from bytes or text and its family compares, orders, prints and converts to the OS form as exactly that address: parsing what was printed gives it back, every byte and the port survive conversion to and from sockaddr, and equality means same family and same bytes. Input that is not a valid address of the family is refused.',
 ['inputs'],'every address value, every byte span, every text, every port','The tests check a few literals.',
 ['include/coro/net/ip_address.hpp','src/net/ip_address.cpp','include/coro/net/socket_address.hpp'],[('address bytes','network order','ip_address.hpp')],[('constructors and comparison','ip_address.hpp'),('sockaddr conversion','socket_address.hpp')],['data(), to_string(), native address'])
p('C20','tcp client: reported bytes are exactly the bytes moved','recv and send report exactly the bytes the operating system moved, in the caller\'s buffer, with a status that tells data, would-block, closed and error apart, and never touch memory outside the given span. read_exact and write_all return success only after exactly the requested bytes were moved, in order, without gap or repetition; otherwise the unmoved remainder is exactly reported.',
 ['inputs','fault_sequences'],'every partial transfer, error and would-block sequence of the OS, every buffer size','Loopback rarely produces short transfers and never the rare errnos.',
 ['include/coro/net/tcp/client.hpp','src/net/tcp/client.cpp','src/net/io_status.cpp'],[('remaining span','what is not yet moved','client.hpp')],[('recv/send/read_exact/write_all','client.hpp')],['status and span returned'])
p('C21','udp peer: datagrams carry the right bytes and address','sendto sends exactly the given bytes to exactly the given address and reports the bytes sent; recvfrom reports exactly the received bytes inside the caller\'s buffer and the true sender. Errors and an unbound peer are reported as such and move nothing.',
 ['inputs','fault_sequences'],'every outcome of the OS, every buffer size and address','Loopback does not produce the error outcomes.',
 ['include/coro/net/udp/peer.hpp','src/net/udp/peer.cpp','include/coro/net/socket_address.hpp'],[],[('sendto/recvfrom','peer.hpp')],['status, span and address returned'])
p('C22','descriptor ownership: every fd closed exactly once','Sockets, pipes and timers own their descriptors: each descriptor opened is closed exactly once, by its last owner, across copy, move, assignment, self-assignment, explicit close and destruction. No descriptor is leaked, closed twice, or closed by an object that does not own it, and a moved-from object owns nothing.',
 ['histories','fault_sequences'],'every sequence of construction, copy, move, assignment, close and destruction, and failure of any system call','Leaks and double closes are invisible to the tests.',
 ['include/coro/net/socket.hpp','src/net/socket.cpp','include/coro/detail/pipe.hpp','src/detail/pipe.cpp','src/detail/timer_handle.cpp','src/poll.cpp'],[('fd','owned descriptor or -1','socket.hpp, pipe.hpp')],[('move / copy / close','socket.hpp, pipe.hpp')],['close() calls'])
p('C23','default executor: one instance, created once','Every caller of a default executor obtains the same live instance however many threads ask first at the same time, created with the options in force, and surplus instances are never handed out.',
 ['schedules'],'any number of threads asking first concurrently','The first-call race happens once per process.',
 ['src/default_executor.cpp','include/coro/default_executor.hpp'],[('instance','the shared executor','default_executor.cpp')],[('publication of the instance','default_executor.cpp')],['pointers returned'])
p('C24','fire-and-forget tasks free themselves exactly once','A detached task runs its body to the end exactly once, then decrements the counter of its owner exactly once and frees its frame exactly once, after everything the task owns was destroyed. An exception escaping the body does not skip the bookkeeping.',
 ['programs','schedules'],'every body, including throwing ones, every thread on which it finishes','A leak or early free is silent in tests.',
 ['src/detail/task_self_deleting.cpp','include/coro/detail/task_self_deleting.hpp'],[('user counter','owner\'s count of running tasks','task_self_deleting.hpp')],[('final suspend bookkeeping','task_self_deleting.cpp')],['counter, frame destruction'])
p('C25','status mapping is total and faithful','Every errno, poll status and enum value maps to the status with the documented meaning and none is mapped to success unless it means success; would-block, closed, timeout, cancellation and errors are never confused. Text forms are defined for every value.',
 ['inputs'],'every integer errno and every enum value','Tests look at a few values.',
 ['src/net/io_status.cpp','include/coro/net/io_status.hpp','src/poll.cpp','include/coro/poll.hpp','src/net/connect.cpp'],[],[('make_io_status_from_errno and friends','src/net/io_status.cpp')],['status kind'])
p('C26','tls client: plaintext moved exactly, handshake verified','A TLS client reports success from the handshake only when the library completed it, and recv/send report exactly the plaintext bytes the library moved inside the caller\'s buffer, with errors and closure distinguished. A timeout or a cancellation is reported as such and no byte is repeated or skipped.',
 ['fault_sequences','inputs'],'every sequence of want-read, want-write, error and success the TLS library may return','Loopback TLS rarely asks for a read while writing.',
 ['include/coro/net/tls/client.hpp','src/net/tls/client.cpp'],[],[('recv/send/handshake loops','tls/client.hpp')],['status and span returned'])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
import jsonschema
S=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,S); assert len(x['title'])<=80
