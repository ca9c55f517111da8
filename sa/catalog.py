"""The properties: text for properties.jsonl and MANIFEST.json (gen.py writes both)."""

PROPS = []


def P(id, title, statement, over, qtext, why, files, mech, technique, note, state=None, observe=None):
    PROPS.append(dict(id=id, title=title, statement=" ".join(statement.split()), over=over, qtext=" ".join(qtext.split()),
                      why=" ".join(why.split()), files=files, mech=mech, technique=technique,
                      note=" ".join(note.split()) if note else None, state=state, observe=observe, na=None))


def NA(id, title, statement, over, qtext, why, files, mech, reason):
    P(id, title, statement, over, qtext, why, files, mech, None, None)
    PROPS[-1]["na"] = " ".join(reason.split())


ENGINE = "path-sensitive abstract interpretation (typestate/effect analysis) of the clang AST/CFG of the current sources"
TRUST = """Trusted: clang's AST/CFG, the extractor, the engine's memory model (loops are summarised by widening; values of
atomics and of other threads' memory are unconstrained except for what the protocol being checked guarantees); the
condition variable, mutex and OS calls behave as documented. """

POLY = """abstract interpretation of the clang AST/CFG with linear inequalities (polyhedra) over the sizes and exact shapes of
the lists"""

P("B01", "A one-shot signal is delivered exactly once and wakes its receiver",
  """A sent signal is received by exactly one successful receive, a blocked receiver is always woken by a send, and what
  the sender wrote before the send is visible to the receiver. As soon as the receiver got the signal it may destroy
  it: the sender no longer touches the object by then.""",
  ["schedules"], "every interleaving of concurrent sends, polls, timed and blocking receives, and the destruction right after",
  """The tests run a few thread mixes for seconds; a lost wakeup, a missing fence or a touch after the release needs one
  particular interleaving of a few instructions.""",
  ["src/mg/box/Signal.cpp", "src/mg/box/Signal.h"],
  [{"name": "three-state atomic and a mutex with a condition variable", "where": "src/mg/box/Signal.cpp"}],
  ENGINE + ": state machine of the atomic, lock-protected wakeup",
  TRUST + "Every path of every public operation, with every value which other threads may have left in the state.",
  [{"name": "state", "meaning": "empty, being sent, receivable", "where": "src/mg/box/Signal.h"}],
  ["Signal API"])

P("B02", "The interruptible mutex excludes, and every interruption is served",
  """At most one thread is inside of the section at a time, an interrupter asks the current owner exactly once to leave
  and is handed the section as soon as the owner leaves, also when both happen at once. No unlock loses a waiter,
  and an owner's writes are visible to the next owner.""",
  ["schedules"], "every interleaving of locking, interrupting, try-locking and unlocking by any number of threads",
  """The tests stress a few threads; a lost handover or a double entry needs one particular interleaving.""",
  ["src/mg/box/InterruptibleMutex.cpp", "src/mg/box/InterruptibleMutex.h"],
  [{"name": "state bits, a mutex and a condition variable", "where": "src/mg/box/InterruptibleMutex.cpp"}],
  ENGINE + ": lock state bits protocol",
  TRUST + "Every path of every public operation under every state other threads may have left.",
  None, ["InterruptibleMutex API"])

P("B03", "The many-producer queue loses nothing, duplicates nothing, keeps the order",
  """Every item or chain pushed by any number of threads is popped exactly once, in the order in which it was pushed by
  its producer, with everything the producer wrote into it. The push which finds the queue empty, and only it, reports
  that.""",
  ["schedules", "histories"], "every interleaving of pushes of single items and of prepared chains with the consumer's pop-all",
  """The tests run a few stress minutes at most; a lost or unordered item shows up only in one interleaving, and missing
  memory fences never show up on x86.""",
  ["src/mg/box/MultiProducerQueueIntrusive.h"],
  [{"name": "atomic stack, reversed by the consumer", "where": "src/mg/box/MultiProducerQueueIntrusive.h"}],
  ENGINE + ": heap shapes of the exchanged lists, CAS publication",
  TRUST + "Lists of symbolic length for the stack being pushed to; reversal is checked on an arbitrary loop iteration.",
  None, ["MultiProducerQueueIntrusive API"])

P("B04", "The many-consumer queue hands out each item exactly once and in order",
  """Every pushed item is returned by exactly one pop of one consumer, complete, in the push order of its producer, and
  no item or block of the queue is lost, freed or recycled while a consumer can still read it. A pop which returns
  nothing did so only when the consumer had reached everything published.""",
  ["schedules", "histories"], "every interleaving of pushes, reservations and pops, every number of consumers attached and detached, every block size",
  """The tests use several block sizes and thread counts for a short time; reclamation races and publication order need
  a particular interleaving at block borders.""",
  ["src/mg/box/MultiConsumerQueueBase.cpp", "src/mg/box/MultiConsumerQueueBase.h", "src/mg/box/MultiConsumerQueue.h"],
  [{"name": "blocks with read/write indexes and reference counts, used-up blocks list", "where": "src/mg/box/MultiConsumerQueueBase.cpp"}],
  ENGINE + ": block life cycle, publication order and lock discipline",
  TRUST + "Every path of every operation; block lists of up to three blocks plus a summarised tail.",
  None, ["MultiConsumerQueue API"])

P("B05", "A shared pointer frees its object once, and only after its last owner",
  """An object owned by reference-counting pointers stays alive and untouched by deletion while at least one pointer owns
  it, and is deleted exactly once when the last one is gone, whichever thread drops it. Copies, moves, assignments
  (including to itself or to a pointer inside of the object), wrapping and unwrapping keep the count exact, and the
  deletion happens after all accesses via the other pointers.""",
  ["schedules", "histories"], "every sequence of pointer operations, aliased or not, on any number of threads",
  """The tests use a few sequences in one thread; aliased assignments, count races and the order of the deletion after
  other threads' accesses need particular histories and interleavings.""",
  ["src/mg/box/SharedPtr.h", "src/mg/box/RefCount.h"],
  [{"name": "intrusive reference counter", "where": "src/mg/box/RefCount.h"}],
  ENGINE + ": ownership balance per pointer operation",
  TRUST + "Every pointer operation with every aliasing of its operands; users of raw pointers are out of scope.",
  None, ["SharedPtrIntrusive API"])

P("B07", "The mutex excludes, counts re-entries; waits release and take it back",
  """A recursive mutex is held by at most one thread, is free again exactly when its owner has unlocked it as many times as it
  has locked it, and the checks of ownership tell the truth in any thread at any moment without races. A guard unlocks what
  it has locked, once, on each way out. A wait on a condition variable gives the mutex away only for its duration, comes
  back with it locked as before, tells a timeout only when the time has passed, and never returns early because the timeout
  is too big. A notification reaches the waiters.""",
  ["schedules", "inputs"], "every nesting of locks, every state of the mutex on an entry, every timeout",
  """The tests lock and wait with small timeouts in a few threads. A race on the owner, a wrong counter after a wait or an
  overflow of a huge timeout need their own interleaving or value.""",
  ["src/mg/box/Mutex.h", "src/mg/box/Mutex.cpp", "src/mg/box/ConditionVariable.h", "src/mg/box/ConditionVariable.cpp"],
  [{"name": "owner and counter of the mutex", "where": "src/mg/box/Mutex.h"},
   {"name": "wait with a timeout", "where": "src/mg/box/ConditionVariable.cpp"}],
  ENGINE + ": typestate of the mutex (free, mine n times, of another thread)",
  TRUST + "Every operation from every state of the mutex, with any counter and any timeout.",
  None, ["Mutex API", "MutexLock", "ConditionVariable API"])

P("B08", "Intrusive lists keep each item, in order, under every operation",
  """The singly- and doubly-linked intrusive lists are exact sequences. After an append, prepend, insert, remove, pop,
  reverse or clear, of an item, of a chain of items or of another whole list, from any state including empty ones, the list
  has precisely the expected items in the expected order, linked consistently in both directions, and further appends go to
  its end. A list which was moved from is empty and usable. Iteration visits each item once even when the current one is
  unlinked. A removed item of the doubly-linked list keeps no links.""",
  ["histories", "inputs"], "every operation on every shape of the lists",
  """All of the queues of tasks, sockets, buffers and requests are these lists. The tests try some shapes; a link which is
  wrong only for an empty, single-item or just-moved list loses an item much later.""",
  ["src/mg/box/ForwardList.h", "src/mg/box/DoublyList.h"],
  [{"name": "intrusive lists", "where": "src/mg/box/ForwardList.h"}],
  ENGINE + ": shape analysis of the linked structure",
  TRUST + """All shapes of up to 4 items (and other lists or chains of up to 3) are enumerated abstractly; the operations
  touch at most two items at each end, so longer lists add no new case, except that the loop of Reverse is seen unrolled.""",
  None, ["ForwardList API", "DoublyList API"])

P("B09", "A heap tells the first element and its indexes are exact",
  """Each kind of the binary heap (min and max; of pointers with and without indexes, of values) has always the element which
  precedes or equals all the others on its top, whatever elements are pushed, popped, updated or removed from any place, in
  any order and with any equal keys. No element is lost or duplicated. An element of an intrusive heap knows its exact place, and
  a removed one knows that it is in no heap.""",
  ["histories", "inputs"], "every operation on a heap of any content, for any order of the keys",
  """Deadlines of all tasks and resolves live in such heaps: a wrong index or order makes a task be woken up never, or removes a
  wrong one. The tests try random sequences; a defect may need a particular arrangement of the keys.""",
  ["src/mg/box/BinaryHeap.h"],
  [{"name": "heap order and indexes", "where": "src/mg/box/BinaryHeap.h"}],
  ENGINE + ": the keys abstracted to a partial order, exact shape of the array",
  TRUST + """All sizes of up to 8 elements with unknown keys (every comparison whose result does not follow goes both ways), so
  every path of up to 3 levels; deeper heaps repeat the same steps of the loops.""",
  None, ["BinaryHeapMin", "BinaryHeapMax", "BinaryHeapMinIntrusive", "BinaryHeapMaxIntrusive", "BinaryHeapMinPtr",
         "BinaryHeapMaxPtr"])

P("B10", "A thread runs its job once, and ends before its object does",
  """A started thread runs its job, with its name, until it returns by itself or is asked to stop. A stop request is never
  lost, wakes the thread up and is visible to it. A blocking stop returns only after the job is over. The object isn't
  deleted nor its memory used by the thread after that, also when it is told to stop before a start, more than once, from
  several threads or never started.""",
  ["schedules", "histories"], "every sequence of a start, stops and a deletion, with every interleaving with the job",
  """The tests start and stop idle threads. A request right between a check and a sleep, or a deletion at the very end of the
  job, need a specific interleaving.""",
  ["src/mg/box/Thread.h", "src/mg/box/Thread.cpp", "src/mg/box/ThreadFunc.h"],
  [{"name": "state flags and join", "where": "src/mg/box/Thread.cpp"}],
  ENGINE + ": typestate of the thread's flags, lock discipline, order of effects",
  TRUST + "Every operation from every state of the flags.",
  None, ["Thread API", "ThreadFunc"])

P("B11", "Time limits are never passed early, wrapped or forgotten",
  """A duration turned into a moment, a moment turned into a duration, and a limit of either kind turned into any of them,
  are exact; infinity stays infinity in both directions; a sum which doesn't fit is infinity and not a moment in the past; a
  passed moment is zero away; a negative number is zero. The clock behind them never goes back.""",
  ["inputs"], "every duration and moment of 64 bits, for every value of the clock",
  """The tests use small durations; a wrap needs a huge one. All timeouts of the system (deadlines of tasks, connects,
  resolves, waits) go via these conversions.""",
  ["src/mg/box/Time.h", "src/mg/box/Time_Unix.cpp"],
  [{"name": "conversions of time limits", "where": "src/mg/box/Time.h"}],
  POLY,
  TRUST + "Every conversion, numbers unbounded in the 64 bits.",
  None, ["TimeLimit", "TimeDuration", "TimePoint", "GetMilliseconds", "GetNanoseconds"])

P("B12", "Atomics do the operation, in the order and of the type of their names",
  """Each operation of an atomic wrapper is a single atomic operation which does what its name says with its operand, returns
  the value before or after as named, with at least the named memory order (sequentially consistent when none is named). A
  failed comparison gives the current value back, a strong one never fails spuriously. The short names of the atomics have the
  type they tell.""",
  ["schedules", "inputs"], "every method and every operand, for a signed and an unsigned type",
  """All lock-free parts stand on these wrappers. A weaker order, or an operation split into two, is invisible to tests on x86
  or without a rare interleaving.""",
  ["src/mg/box/Atomic.h"],
  [{"name": "atomic wrapper", "where": "src/mg/box/Atomic.h"}],
  ENGINE + ": effects of each method; types of the aliases as clang sees them",
  TRUST + "All methods for 2 types of a number; std::atomic is trusted.",
  None, ["mg::box::Atomic"])

SCH = ["src/mg/sch/TaskScheduler.cpp", "src/mg/sch/TaskScheduler.h", "src/mg/sch/Task.cpp", "src/mg/sch/Task.h"]
SCHTRUST = TRUST + """One arbitrary task is followed per path; the queues are summarised (empty, or not empty with an
arbitrary first item); their own correctness is B03 and B04. """

P("T01", "Every task given to the scheduler is executed, by one worker at a time",
  """A posted task is executed once for each time it is posted or woken up, never by two workers at once, never dropped
  on the way between the internal queues, for each batch size which can be configured. When a task posts itself again or
  deletes itself from its own callback, that stays true.""",
  ["schedules", "histories"], "every interleaving of posting threads and workers, every batch size and queue content",
  """The tests use default-like batch sizes and a few seconds of stress; losing a task needs a specific mix of queue
  contents, statuses and limits.""",
  SCH, [{"name": "front, pending, waiting, ready queues and the scheduler role", "where": "src/mg/sch/TaskScheduler.cpp"}],
  ENGINE + ": conservation of the task through the queues (ownership/typestate)",
  SCHTRUST, None, ["Task callbacks", "TaskScheduler API"])

P("T02", "A wakeup or a signal of a task is never lost",
  """A wakeup or a signal sent to a posted task from any thread makes the task run promptly, whichever state it is in, and
  the signal is still there when the task looks at it. Only one waker gets the right to queue the task, and a signal
  is consumed by exactly one receive.""",
  ["schedules"], "every interleaving of wakers, signalers, the scheduling step and the task's execution",
  """A lost wakeup needs the waker to hit the few instructions between two status changes.""",
  SCH, [{"name": "atomic status of a task", "where": "src/mg/sch/Task.cpp"}],
  ENGINE + ": status transitions with their memory orders and obligations to queue",
  SCHTRUST, None, ["TaskScheduler::Wakeup", "Task::ReceiveSignal"])

P("T03", "A task with a deadline is neither executed early nor forgotten",
  """A waiting task is executed by the scheduler itself only when its deadline has come, then it sees itself expired, and a
  task woken up earlier does not. The sleeping scheduler wakes up not later than the nearest deadline, and a task without a
  deadline is not executed until somebody wakes it up.""",
  ["inputs", "histories", "schedules"], "every deadline value, delay (overflowing ones included) and mix of waiting tasks",
  """Deadlines close to the limits, or mixed with wakeups, are combinations which the tests sample only.""",
  SCH + ["src/mg/box/BinaryHeap.h"], [{"name": "timer heap", "where": "src/mg/sch/TaskScheduler.cpp"}],
  ENGINE + ": guards of the timer queue and of the sleep time",
  SCHTRUST, None, ["Task::IsExpired"])

P("T04", "An idle scheduler wakes up whenever there is something to do",
  """Workers may sleep only when there is nothing for them to do, and each event which creates work (a post, a wakeup, a
  nearer deadline, a released scheduling role, a ready task) wakes a worker up. So no history ends with a runnable task and all
  the workers asleep.""",
  ["schedules"], "every interleaving of workers going to sleep and threads posting or waking tasks",
  """The window between the last look at a queue and the sleep is a few instructions long.""",
  SCH, [{"name": "front and ready signals", "where": "src/mg/sch/TaskScheduler.cpp"}],
  ENGINE + ": signal-after-publish and check-before-sleep obligations",
  SCHTRUST, None, ["Task callbacks"])

P("T05", "A task is not touched after it was handed over",
  """Once a task's callback is started, or the task is put into a queue from where another thread can take it, the library
  does not access the task any more on that thread. So a task may be deleted or posted again right in its callback.""",
  ["schedules"], "every moment at which another thread can take, execute and delete the task",
  """A late access is harmless in nearly each run; it needs the other thread to free the task in between.""",
  SCH, [{"name": "hand-over via queues, status and callback", "where": "src/mg/sch/TaskScheduler.cpp"}],
  ENGINE + ": use-after-hand-over typestate",
  SCHTRUST, None, ["Task life time"])

P("T06", "Stopping the scheduler finishes all tasks, and emptiness is told truly",
  """Waiting for emptiness, and stopping, return only when no task is queued or being executed, also for tasks which post
  other tasks. All the workers are joined by then, the stop can not hang, and the scheduler can be started again or
  destroyed.""",
  ["schedules", "histories"], "every interleaving of stop, start, emptiness checks, posting and execution",
  """A task in flight between two queues is visible for a moment only.""",
  SCH, [{"name": "worker threads and their state", "where": "src/mg/sch/TaskScheduler.cpp"}],
  ENGINE + ": order of looks versus hand-overs, join/stop obligations",
  SCHTRUST, None, ["TaskScheduler::IsEmpty", "TaskScheduler::WaitEmpty", "TaskScheduler::Stop"])

P("T07", "Coroutine operations of a task suspend and resume it exactly as told",
  """A coroutine which yields, waits for a signal or exits inside of a task is resumed exactly when the task is run for that
  reason, with the signal consumed at most once and the result reported truly. The callback of the task is restored or dropped
  so that nothing of a finished or deleted coroutine is used.""",
  ["histories", "schedules"], "every sequence of coroutine operations and every moment of a signal",
  """The tests go through a few sequences; signals which come between the check and the suspension are rare.""",
  SCH + ["src/mg/box/Coro.h", "src/mg/box/Coro.cpp"], [{"name": "task coroutine awaiters", "where": "src/mg/sch/Task.h"}],
  ENGINE + ": awaiter protocol",
  SCHTRUST, None, ["mg::sch coroutine API"])


AIO = ["src/mg/aio/IOCore.cpp", "src/mg/aio/IOCore_epoll.cpp", "src/mg/aio/IOCore_iouring.cpp", "src/mg/aio/IOTask.cpp",
       "src/mg/aio/IOTask.h"]
AIOTRUST = TRUST + """Both Linux back ends are analysed. The queues, lists and the heap are taken by their contracts (B03, B04 have
checks of their own); the kernel reports events as documented. """

P("C01", "An IO task is in exactly one place of the IO core at any time",
  """A posted IO task, and each task which is woken up, closed, expired or got a kernel event, is queued for execution exactly
  once, however many such reasons meet. The IO core never loses a task and never executes it twice at once.""",
  ["schedules", "histories"], "every interleaving of posts, wakeups, closes, kernel events, deadlines and executions",
  """A task is moved between five queues by several threads; a loss or a doubling needs two of them to meet on one task.""",
  AIO, [{"name": "front, pending, waiting and ready queues", "where": "src/mg/aio/IOCore.cpp"}],
  ENGINE + ": ownership of the task in hand, on all paths", AIOTRUST, None, ["IOTask API"])

P("C02", "No kernel event of a socket is lost by the IO core",
  """Each event or operation result reported by the kernel is kept until the callback of its task, and is handed to it
  unchanged, also when the task is being executed, is queued, or is being closed meanwhile. A task having undelivered events is
  never left waiting.""",
  ["schedules", "histories"], "every batch of kernel events met by tasks in every status",
  """Epoll is used edge-triggered and io_uring reports a completion once: a dropped event hangs a connection forever, and it
  takes an event which comes while its task is in a rare status.""",
  AIO + ["src/mg/aio/IOTask_epoll.cpp", "src/mg/aio/IOTask_iouring.cpp"],
  [{"name": "pending and ready events of a task", "where": "src/mg/aio/IOTask.h"}],
  ENGINE + ": accounting of events on all paths of a scheduling step and of an execution", AIOTRUST, None, ["IOArgs"])

P("C03", "An IO task is closed exactly once and only when nothing uses it",
  """However many threads ask a task to close, it gets exactly one closing callback, which is the last one. By then its socket is
  removed from the kernel and closed once, all of its started operations have ended, and what was written before the request is
  visible.""",
  ["schedules", "histories"], "every interleaving of close requests with wakeups, events, executions and operations in progress",
  """The close meets the other activities of a task only in rare moments, and a mistake is a use-after-free or a hang.""",
  AIO + ["src/mg/aio/IOTask_epoll.cpp", "src/mg/aio/IOTask_iouring.cpp"],
  [{"name": "close guard, closing status, cancel operation", "where": "src/mg/aio/IOTask.cpp"}],
  ENGINE + ": typestate of the closing", AIOTRUST, None, ["IOTask::PostClose"])

P("C04", "A wakeup or a close request of an IO task is never lost",
  """After a wakeup or a close request the task's callback is started at least once after it, in whatever moment of scheduling
  or execution the request comes. No status change made by the IO core overwrites a request it did not see.""",
  ["schedules"], "every interleaving of wakeups and close requests with scheduling and execution",
  """A lost wakeup needs the request to hit a window of a few instructions between two status changes.""",
  AIO, [{"name": "atomic status of a task", "where": "src/mg/aio/IOTask.cpp"}],
  ENGINE + ": allowed transitions of the status, compare-exchange only", AIOTRUST, None, ["IOTask::PostWakeup",
                                                                                       "IOTask::PostClose"])

P("C05", "Deadlines of IO tasks are served in order, not early, and are not forgotten",
  """A task with a deadline is executed as expired only when the deadline is reached, and each reached deadline gets the task
  executed. The scheduler never sleeps longer than until the nearest deadline, and a deadline set in several ways is the
  earliest of them.""",
  ["histories", "inputs"], "every set of deadlines, including none, past and infinite ones, mixed with wakeups and events",
  """Tests use a handful of deadlines and never the borders: equal to now, infinite, longer than the poll's maximum.""",
  AIO, [{"name": "timer heap and poll timeout", "where": "src/mg/aio/IOCore_epoll.cpp"}],
  ENGINE + ": order facts between deadlines, the clock and the timeout", AIOTRUST + "The heap itself keeps its minimum on top. ",
  None, ["IOTask::SetDeadline", "IOTask::IsExpired"])

P("C06", "IO workers sleep only when idle and all of them stop when asked",
  """Whatever creates work or asks the core to stop wakes up the worker which has to notice, also when it is just about to
  sleep. A stop ends without waiting for deadlines or events, joins each worker, and leaves the core ready for a new start; the
  destruction waits for all tasks to be closed.""",
  ["schedules", "histories"], "every interleaving of workers going to sleep with posts, releases of the scheduling role and stops",
  """A missed signal hangs the core only if it falls between the last look and the sleep of a worker.""",
  AIO, [{"name": "ready signal, event descriptors, scheduling role", "where": "src/mg/aio/IOCore.cpp"}],
  ENGINE + ": signal-after-publish, check-before-sleep, join obligations", AIOTRUST, None, ["IOCore::Start", "IOCore::Stop",
                                                                                          "IOCore::WaitEmpty"])

P("C07", "An IO task is not touched after it was handed over",
  """Once an IO task is put into a queue from where another thread takes it, is made ready by a waker, or got its last
  callback, the library does not access it any more on that thread. So it can be deleted right in the closing callback.""",
  ["schedules"], "every moment at which another thread can take, close and delete the task",
  """A late access is harmless in nearly each run; it needs the other thread to free the task in between.""",
  AIO, [{"name": "hand-over via queues, status and callback", "where": "src/mg/aio/IOCore.cpp"}],
  ENGINE + ": use-after-hand-over typestate", AIOTRUST, None, ["IOTask life time"])


P("C08", "Each IO operation of a task tells exactly its own outcome, or waits for it",
  """For each possible outcome of the system call behind a send, receive, connect or accept of an IO task, its event afterwards
  either holds exactly that outcome (the number of bytes, or the error of that very call) and is unlocked, or is locked and
  linked to the task so the next kernel report for it unlocks it. The returned value agrees with the event; a still possibly
  usable socket, an error which allows to retry, and events saved before are not forgotten; the socket, the buffers, the
  offset and the address given to the kernel are the ones of the operation, and with io_uring live until its end.""",
  ["inputs", "fault_sequences"], "each outcome of each system call, in both the epoll and the io_uring builds",
  """The failures of system calls depend on the moment and the network and are not produced by tests on a loopback.""",
  AIO, [{"name": "operations of IOTask and IOEvent", "where": "src/mg/aio/IOTask_epoll.cpp"},
        {"name": "operations of IOTask via io_uring", "where": "src/mg/aio/IOTask_iouring.cpp"}],
  ENGINE + ": outcome of the system call against the resulting state of the event", AIOTRUST +
  "System calls behave as their manual pages tell: -1 and errno, or a result. ", None, ["IOTask", "IOEvent"])

P("C09", "A TCP server gives each accepted client away once and is closed once",
  """Each client accepted by a TCP server is given to the subscriber exactly once, with its own socket and address, and accepting
  goes on until the close. After listening has started, closing it from any thread and any number of times ends in exactly one
  close callback, after which the server touches neither itself nor the subscriber. A server which never listened is closed at
  once and its bound socket is released.""",
  ["schedules", "fault_sequences"], "each state of the server, each result of the accept, each close from any thread",
  """A close racing with an accept, or repeated in a callback, depends on the schedule; a test only tries a few moments.""",
  AIO, [{"name": "life of a TCP server", "where": "src/mg/aio/TCPServer.cpp"}],
  ENGINE + ": states of the server against its callbacks, lock discipline", AIOTRUST, None, ["TCPServer"])

SOCKQ = "each state of a plain or TLS socket, each result of its operations, each moment of a call from another thread"
SOCKWHY = """What comes between two steps of a socket (a close from another thread, a failure, a partial result) depends on the
  schedule and the network; tests try a few of the combinations."""

P("C10", "A TCP or TLS socket tells its close exactly once, as the last thing it does",
  """Once a socket is started, any close of it - by the user from any thread and any number of times, by the peer, or because of
  a failure - ends in exactly one close callback; afterwards neither the subscriber is called nor the socket is touched by the
  worker. By then the socket looks closed and is like new: queues, requests to receive, control steps and the signs of the
  connection are gone and do not leak into its next life. A socket which was never started is closed at once, without a callback.""",
  ["schedules", "fault_sequences"], SOCKQ, SOCKWHY,
  AIO, [{"name": "close of a socket", "where": "src/mg/aio/TCPSocketIFace.cpp"},
        {"name": "close of a TLS socket", "where": "src/mg/aio/SSLSocket.cpp"}],
  ENGINE + ": closing of a socket in each of its states", AIOTRUST, None, ["TCPSocket"])

P("C11", "A failure of a TCP or TLS socket is told once, to the right callbacks",
  """A failed send, receive, connect, handshake, decryption or shutdown of a socket is told by the callback of that kind (if there is
  one) and then by the general error callback, each once and with the error of that very failure, and the socket gets closed.
  When a close is in progress already, further failures are not told. After a failed send or receive no more of those is tried.""",
  ["schedules", "fault_sequences"], SOCKQ, SOCKWHY,
  AIO, [{"name": "errors of a socket", "where": "src/mg/aio/TCPSocketIFace.cpp"}],
  ENGINE + ": each failure against the callbacks and the close which must follow", AIOTRUST, None, ["TCPSocket"])

P("C12", "A connection is told once, when it is really made, and before any data",
  """The connect callback of a socket is called exactly once per connection, after the connect or wrap and the handshake (if any)
  succeeded. No data is sent for the user, told as sent, or told as received before that. The socket looks connected from that
  moment till its close starts, and not before.""",
  ["schedules", "inputs"], SOCKQ, SOCKWHY,
  AIO, [{"name": "handshake", "where": "src/mg/aio/TCPSocketIFace.cpp"}, {"name": "TLS handshake", "where": "src/mg/aio/SSLSocket.cpp"}],
  ENGINE + ": order of the connection, its callback and the data", AIOTRUST, None, ["TCPSocket"])

P("C13", "Data given to a socket is sent once, in order, and what was sent is told",
  """Data given to a socket from any thread gets once and whole into the end of its queue and the socket is woken up to send it. The queue
  is sent from its first unsent byte; exactly the bytes taken by the kernel (by the encryption in a TLS socket) are removed, and
  exactly their number is told as sent. While there is something to send and the connection is fine, the socket waits for the
  kernel or runs again, and never stops.""",
  ["schedules", "inputs"], SOCKQ, SOCKWHY,
  AIO, [{"name": "sending", "where": "src/mg/aio/TCPSocket.cpp"}, {"name": "sending via TLS", "where": "src/mg/aio/SSLSocket.cpp"},
        {"name": "queueing", "where": "src/mg/aio/TCPSocketIFace.cpp"}],
  ENGINE + ": conservation of the data between the queue, the kernel and the callback", AIOTRUST, None, ["TCPSocket"])

P("C14", "Requests to receive are all satisfied, and received data is told once, in order",
  """A request to receive from any thread or callback is never lost: while one is left and the connection is fine, the socket
  waits for the kernel or runs again. Received bytes are put into the receive queue once, exactly as many as came, and are told then;
  data is never told without a request. An empty result is the end of the stream and closes the socket.""",
  ["schedules", "inputs"], SOCKQ, SOCKWHY,
  AIO, [{"name": "receiving", "where": "src/mg/aio/TCPSocket.cpp"}, {"name": "receiving via TLS", "where": "src/mg/aio/SSLSocket.cpp"},
        {"name": "requests", "where": "src/mg/aio/TCPSocketIFace.cpp"}],
  ENGINE + ": conservation of requests and received data", AIOTRUST, None, ["TCPSocket"])

P("C15", "State of a socket shared by threads is used only under its lock",
  """All the members of a socket used by its worker and other threads (state, subscriber, queues of new data and control steps) are read and
  changed only under the socket's lock, and those which belong to the worker only in it. The lock is released on each path and is
  never held while a callback of the user or a control step (a system call) is made.""",
  ["schedules"], SOCKQ, SOCKWHY,
  AIO, [{"name": "lock of a socket", "where": "src/mg/aio/TCPSocketIFace.cpp"}],
  ENGINE + ": lock discipline of a socket", AIOTRUST, None, ["TCPSocket"])

P("C16", "A requested connect, wrap or shutdown is made once and never loses its socket",
  """A connect (with its address, delay, resolve of the domain), wrap of a ready socket, handshake, or shutdown requested from any allowed
  state is not lost, is made once, in this order, and its failure is told. A connect is not made before its delay and resolve
  end; a shutdown waits for the connect. The given sockets, resolves and handshakes have one owner at any time and are released
  exactly once, also when the socket is closed midway or the resolve ends concurrently with its cancel.""",
  ["schedules", "fault_sequences"], "each set of the steps, each outcome of them, each moment of a cancel of the resolve",
  SOCKWHY, AIO, [{"name": "control steps", "where": "src/mg/aio/TCPSocketCtl.cpp"}],
  ENGINE + ": ownership and outcomes of the control steps", AIOTRUST, None, ["TCPSocketCtl", "TCPSocket"])

P("C17", "A TLS socket never exchanges data in the open when encryption is asked for",
  """A TLS socket opened with encryption starts each its connection with a fresh encrypted stream and the given host name; no user's data is
  given to the stream, or taken from it, before the connection is told, which comes only after the TLS handshake ended. Encryption
  enabled later starts after all the earlier data has been given to the open stream.""",
  ["schedules", "inputs"], SOCKQ, SOCKWHY,
  AIO, [{"name": "TLS socket", "where": "src/mg/aio/SSLSocket.cpp"}],
  ENGINE + ": order of encryption, handshake and data", AIOTRUST, None, ["SSLSocket"])


NETTRUST = TRUST + """Linux versions of the sources; the system calls return and set errno as their manual pages say. """

P("D01", "Socket functions tell exactly what the system calls did",
  """Every function of mg/net/Socket and mg/sio/Socket makes the system calls it is named for, with the options and sizes asked
  for: keep-alive, no-delay, dual-stack, reuse-address and non-blocking modes get the values which were asked. It returns success
  only when the calls succeeded and an error with the code of exactly the call that failed; would-block is neither. A descriptor
  opened by a function which then fails is closed, and nothing is closed which is not its own.""",
  ["fault_sequences", "inputs"], "every outcome of every system call inside, every argument",
  """The tests can't make setsockopt(), fcntl(), poll() or accept4() fail, and don't check the options of the sockets.""",
  ["src/mg/net/Socket_Unix.cpp", "src/mg/sio/Socket_Unix.cpp", "src/mg/sio/Socket.cpp"],
  [{"name": "socket system call wrappers", "where": "src/mg/net/Socket_Unix.cpp, src/mg/sio/Socket_Unix.cpp"}],
  ENGINE + ": every outcome of each system call, errno and descriptor typestate",
  NETTRUST, None, ["mg::net::Socket*() functions", "mg::sio::Socket*() functions"])

P("D02", "Each system error has its own code and a server survives the transient ones",
  """An errno is told as the error code of its name, any other errno as the generic system error. After an error of accept()
  which was forwarded from a connection (the ones listed by the manual of accept()), or an interruption by a signal, a server
  goes on; after any other one, including the lack of descriptors, it is told of a critical failure.""",
  ["inputs"], "every errno and every error code",
  """The tests check a few of the codes; most of the errors of accept() can't be caused by a test.""",
  ["src/mg/box/Error.cpp", "src/mg/net/Socket.cpp"],
  [{"name": "tables of codes", "where": "src/mg/box/Error.cpp, src/mg/net/Socket.cpp"}],
  ENGINE + ": the tables evaluated for every value", NETTRUST, None,
  ["mg::box::ErrorCodeFromErrno", "mg::net::SocketIsAcceptErrorCritical"])

P("D03", "A synchronous socket has a known state and loses no data after any failure",
  """A method of sio::TCPServer and sio::TCPSocket called in any state leaves the object in the state its outcome says: a failure
  closes it, and the descriptor is closed exactly once; would-block changes nothing. The queued data is sent in its order, each
  byte once, whatever parts the system takes, and the number of received bytes is the one the system told. A connect is told
  finished only when it is.""",
  ["histories", "fault_sequences"], "every state, every outcome of every system call, every split of the data",
  """Partial sends, connects which finish late and failures of the system in the middle of an operation are not under control
  of the tests.""",
  ["src/mg/sio/TCPServer.cpp", "src/mg/sio/TCPSocket.cpp", "src/mg/sio/Socket_Unix.cpp"],
  [{"name": "state of the synchronous sockets", "where": "src/mg/sio/TCPSocket.cpp, src/mg/sio/TCPServer.cpp"}],
  ENGINE + ": typestate of the object and of its descriptor", NETTRUST, None,
  ["sio::TCPServer", "sio::TCPSocket"])

P("D04", "An asynchronous resolve of a domain name ends exactly once and owns what it uses",
  """Each request to resolve a domain name is told its end exactly once: the found addresses, or a timeout when its deadline has
  passed, or the cancel, or the error the system gave. It is told without the lock of the resolver being held. A request is freed
  only after both its user and the resolver are done with it, also when it is canceled at the moment of its end, and the results
  of the system are freed once. A posted request or cancel always wakes the resolver up.""",
  ["schedules", "histories", "fault_sequences"],
  "every moment of a cancel and of a timeout, every outcome of the resolve, any moves of the request object",
  """The tests resolve one or two names; a cancel or a timeout meeting the end of a request and failures of the system are
  races they don't control.""",
  ["src/mg/net/DomainToIP.cpp", "src/mg/net/DomainToIP.h"],
  [{"name": "resolver queues and references of requests", "where": "src/mg/net/DomainToIP.cpp"}],
  ENGINE + ": ownership of the requests through the queues, lock-protected queues", NETTRUST, None,
  ["DomainToIPAsync", "DomainToIPCancel", "DomainToIPRequest"])

P("D05", "A buffer stream gives out exactly the bytes written into it, in order",
  """Whatever sequence of writes by copy, writes by reference, reservations, fills of the reserved space, peeks, reads, skips and
  pops is done on a BufferStream, the bytes which come out are the written ones, each once, in order. The told sizes of the data
  and of the free space are exact, reserved space is never taken for data nor lost, memory is only written inside of the free
  space and read inside of the data, and each buffer is freed exactly once, when its last owner is gone.""",
  ["histories", "inputs"], "every operation on every stream of up to 3 buffers (full, partial, empty, reserved), with all sizes unbounded",
  """The tests do chosen sequences with chosen sizes; the combinations of partially filled, empty and reserved buffers with the
  sizes at the edges of the buffers are too many for them.""",
  ["src/mg/net/Buffer.cpp", "src/mg/net/Buffer.h"],
  [{"name": "list of buffers with the ends of the read and of the write area", "where": "src/mg/net/Buffer.cpp"}],
  POLY, NETTRUST + """Streams of up to 3 buffers (and 3 more written by reference): an operation only looks at the ends of
  the list, and its loops walk one buffer at a time. A violation of the stated form of the stream after an operation is reported,
  so the forms are an inductive invariant.""",
  None, ["BufferStream API"])

P("D06", "Queues of buffers pass the exact bytes and never change shared buffers",
  """Appending, skipping sent data and dropping empty prefixes of a BufferLinkList keep exactly the unsent bytes in their order,
  and never change a buffer: one buffer can be in many queues at once. The vectors made for a system call cover exactly the
  next unsent bytes, or the free space, without holes. A copy of data or of buffers has exactly their bytes, a
  reference covers all of the data.""",
  ["histories", "inputs"], "every operation on queues of up to 3 buffers in up to 3 links, some empty, any sizes and offsets",
  """The tests don't share buffers between queues and have few empty buffers and partial sends at the edges.""",
  ["src/mg/net/Buffer.cpp", "src/mg/net/Buffer.h"],
  [{"name": "links of shared buffers and the offset in the first one", "where": "src/mg/net/Buffer.cpp"}],
  POLY, NETTRUST + """Up to 3 buffers in up to 3 links, up to 3 vectors; copies of up to 4 buffers; sizes are unbounded.""",
  None, ["BufferLinkList", "BuffersToIOVecsForWrite", "BuffersToIOVecsForRead", "BuffersCopy", "BuffersRef"])

NA("N01", "Every ready task and IO task is served within a bounded time",
   """Under a constant load, no task and no socket which is ready waits forever while others are served; the load is spread
   over all workers.""", ["schedules", "histories"], "every load, number of workers and speed of callbacks",
   "A test sees one load on one machine; starvation needs a particular pattern of ready tasks and slow callbacks.",
   ["src/mg/sch/TaskScheduler.cpp", "src/mg/aio/IOCore.cpp"],
   [{"name": "rounds of the scheduler and of the IO core", "where": "src/mg/sch/TaskScheduler.cpp"}],
   """A bound on waiting depends on the run times of user callbacks, on the length of the queues and on the OS scheduler; the
   round structure which gives eventual service (no task is dropped, the sched role is always re-taken) is decided by T01-T04.""")

NA("N02", "Deadlines fire on time",
   """A task or a resolve with a deadline is woken up not before it and soon after it, whatever other deadlines exist and
   however the clock moves.""", ["schedules", "inputs"], "every set of deadlines and load",
   "Timing in tests has to be loose, so a delay under a particular mix of deadlines passes.",
   ["src/mg/sch/TaskScheduler.cpp", "src/mg/box/Time_Unix.cpp"],
   [{"name": "waiting queue", "where": "src/mg/sch/TaskScheduler.cpp"}],
   """'Soon' is a runtime quantity. The parts which are about logic (a deadline is compared against a fresh time, the sleep is
   bounded by the nearest deadline, the heap of deadlines is exact) are decided by T02, T04 and B09.""")

NA("N03", "Textual forms of hosts and URLs round-trip",
   """An address converted to text and parsed back is the same address, any text is either rejected or parsed into the parts
   it has (protocol, host, port, target).""", ["inputs"], "every text and every address",
   "A test has a list of texts; wrong parses are in the texts which nobody listed.",
   ["src/mg/net/Host.cpp", "src/mg/net/URL.cpp"],
   [{"name": "parsers", "where": "src/mg/net/URL.cpp"}],
   """Equality of texts under inet_pton/inet_ntop, printf and hand-written scanning of unbounded strings is a functional
   property of string values; an analysis without concrete or symbolic execution has no domain which decides it.""")

NA("N04", "TLS delivers the exact bytes between two peers",
   """What one peer writes into an encrypted stream is what the other one reads, in order, for any fragmentation, and the
   handshake accepts exactly the peers which the configured certificates and ciphers allow.""",
   ["inputs", "histories"], "every fragmentation, data, certificate chain and cipher",
   "A test samples a few certificates and sizes.",
   ["src/mg/net/SSLStreamOpenSSL.cpp", "src/mg/net/SSLContextOpenSSL.cpp"],
   [{"name": "OpenSSL streams", "where": "src/mg/net/SSLStreamOpenSSL.cpp"}],
   """The deciding behaviour is inside OpenSSL, which is a binary library here; the repository's part around it (order of the
   events, data before OnConnect, shutdown) is decided by C-properties at the level of the sockets.""")
