from props_base import *
TP = ['src/core/include/ThreadPool.hpp']
P('P01', 'Thread pool runs every submitted task exactly once, in priority order',
  'Every task given to a thread pool that is not being shut down starts promptly (not only after the keep-alive time) and runs exactly once; waiting tasks are taken by descending priority and in order of submission among equals. Its value or exception reaches the returned future, a callable passed by name stays intact, what a task holds is released after it ran, and a pool for blocking tasks runs as many of them at the same time as its maximum number of threads, a computing pool as many as it has threads.',
  'schedules programs', 'all programs of submitting threads (also from inside of tasks), all interleavings with the workers', 'the unit tests submit a handful of tasks and sleep; they see neither a lost wake-up nor a swapped order',
  TP, [('submission', 'BasicThreadPool::execute'), ('priority queue', 'thread_pool::detail::TaskQueue::push/pop'), ('worker loop', 'BasicThreadPool::worker'), ('task recycling', 'BasicThreadPool::createTask')], TRACE, SCHED, rank=14)
P('P02', 'Thread pool shutdown waits for running tasks and ends promptly',
  'requestShutdown() and the destructor, alone or one after the other, return promptly once every task that had started has ended; afterwards no task runs any more, and the futures of tasks that never started report a broken promise. Threads that are idle for longer than the keep-alive time (and only these) end until the minimum number is left, and the pool stays usable with these.',
  'schedules histories', 'all moments of a shutdown or of idling relative to submissions and running tasks', 'tests only let a pool go out of scope at the end',
  TP, [('shutdown', 'BasicThreadPool::requestShutdown'), ('keep-alive', 'BasicThreadPool::worker')], TRACE, SCHED, rank=16)
P('P03', 'Thread pool workers carry the name, affinity and policy that were set',
  'After a pool was created, grew, shrank or was given an affinity mask or scheduling policy, each of its workers has that policy and a non-empty share of the mask (the whole mask for blocking tasks, an even spread over all of its cores for computing ones) before it runs a task, while the caller keeps its own. Worker and task names of any length are accepted and cut to what the system allows, and a task for a core outside of the mask is refused.',
  'histories configurations', 'all sequences of settings, growing and shrinking; all pool sizes, masks and names', 'the unit test sets an empty mask and the default policy once',
  TP, [('constraints', 'BasicThreadPool::updateThreadConstraints'), ('spreading', 'BasicThreadPool::distributeThreadAffinityAcrossCores')], RECS, INP, rank=32)
