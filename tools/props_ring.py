from props_base import *
D = 'src/disruptor/include/disruptor/'
P('D01', 'Ring buffer: claimed slots are unique and never overrun unread events',
  'Every sequence number is handed to exactly one claim of exactly one producer, without gaps, and only after every gating consumer is done with the event that previously used the slot; so a published event stays intact until all consumers handled it, however many producers there are. A claim that does not wait is refused only when there was too little room at some moment of the call. Capacity, cursor, availability and minimum-progress questions are answered with a value that was right at some moment of the call.',
  'schedules programs', 'all interleavings of producers and consumers, buffer sizes, claim sizes and claim strategies', 'the tests run a few schedules of happy-path programs; wrap-around races need particular interleavings',
  [D + 'ClaimStrategy.hpp', D + 'RingBuffer.hpp', D + 'Sequence.hpp'], [('single/multi producer claim', 'SingleThreadedStrategy, MultiThreadedStrategy'), ('minimum gating sequence', 'detail::getMinimumSequence'), ('capacity and claims of the ring', 'RingBuffer::next, tryNext, hasAvailableCapacity')], TRACE, SCHED, rank=2)
P('D02', 'Ring buffer: consumers see only published events, complete and in order',
  'A consumer waiting on a sequence barrier is given an event only after it was published and after all consumers the barrier depends on finished it, and then sees everything the producer wrote before publishing. A published event is eventually delivered to a waiting consumer under every wait strategy; an alert wakes every waiter. Publishing through a translator publishes exactly the claimed slot even if the translator throws.',
  'schedules programs', 'all interleavings of producers and consumers, all claim and wait strategies', 'visibility and lost wake-ups depend on interleavings and memory order that tests on x86 do not reach',
  [D + 'ProcessingSequenceBarrier.hpp', D + 'WaitStrategy.hpp', D + 'ClaimStrategy.hpp', D + 'RingBuffer.hpp'], [('barrier', 'ProcessingSequenceBarrier::waitFor'), ('wait strategies', 'BlockingWaitStrategy, SleepingWaitStrategy, TimeoutBlockingWaitStrategy, YieldingWaitStrategy, ...'), ('availability of published slots', 'MultiThreadedStrategy::publish/getHighestPublishedSequence')], TRACE, SCHED, rank=2)
P('D03', 'Batch processors handle every event exactly once, in order',
  'A running batch processor hands its handler every published event exactly once, in sequence order and without gaps, flags the end of a batch only on the last available event, makes its progress visible only after handling, and after each batch. An exception from the handler goes to the exception handler together with that very event, and processing goes on with the next event; exceptions from start, timeout and shutdown notifications do not stop it.',
  'schedules programs', 'all interleavings, batch shapes and throwing handlers', 'tests handle a handful of events without failures or contention',
  [D + 'BatchEventProcessor.hpp'], [('batch loop', 'BatchEventProcessor::run')], TRACE, SCHED, rank=3)
P('D04', 'Disruptor graphs: handlers run in the order the graph prescribes',
  'In any graph built with the fluent interface (parallel handlers, then/after/And chains, worker pools, custom processors) every handler sees each event after all handlers in front of it have finished that event, every handler (or one member of each pool) sees it exactly once, and no producer overwrites an event some handler still needs. When the processors run and publishing has ended, shutdown returns only after all events were handled, and then every processor stops; halt stops every processor at any time, also right after start; a second start is refused without effect.',
  'schedules programs', 'all graphs, interleavings, throwing handlers and stop times', 'tests use one or two graphs and stop after quiescence',
  [D + 'Disruptor.hpp', D + 'EventHandlerGroup.hpp', D + 'ConsumerRepository.hpp'], [('graph construction', 'DisruptorCore::createEventProcessors/createWorkerPool, EventHandlerGroup'), ('life cycle', 'DisruptorCore::start/halt/shutdown')], TRACE, SCHED, rank=3)
P('D05', 'Worker pools: each event is worked on by exactly one member',
  'Each event published while a worker pool runs is handled by exactly one of its members, none is skipped, dependants see it only after that member finished, producers never overwrite it before, and a member whose handler throws reports the event to the exception handler and goes on. Draining and halting a pool returns only after everything published before was handled, and all members stop.',
  'schedules programs', 'all interleavings of members, producers and dependants', 'tests never let members race for sequences while producers wrap around',
  [D + 'WorkProcessor.hpp', D + 'WorkerPool.hpp'], [('shared work sequence', 'WorkProcessor::run'), ('drain', 'WorkerPool::drainAndHalt')], TRACE, SCHED, rank=3)
P('D06', 'Event processors stop when told and resume without loss or repetition',
  'A halt that comes before, during or after the start of a run ends that run, or the next one if none is under way; each run notifies start and shutdown exactly once and handles events only in between; a processor is never run twice at the same time; a later run continues with the first event not handled yet. If the exception handler itself gives up, the run ends, the processor is no longer running, and a new run delivers everything after its visible progress.',
  'schedules histories', 'all interleavings of halts, runs and failures', 'tests halt an idle processor once',
  [D + 'BatchEventProcessor.hpp', D + 'WorkProcessor.hpp'], [('life cycle flags', 'BatchEventProcessor::run/halt/isRunning'), ('alert of the barrier', 'ProcessingSequenceBarrier::alert/clearAlert')], TRACE, SCHED, rank=4)
P('D08', 'Event pollers deliver every event once and report their state truthfully',
  'A poller hands over every published event exactly once and in order, stops after the event for which the handler asks to stop, delivers the event again if the handler threw, advances its progress by exactly what was handled, never passes the consumers it is gated on, and reports processing, gating or idle according to what was available during the call.',
  'schedules programs', 'all interleavings of polls, producers and other consumers', 'tests poll a prepared buffer from one thread',
  [D + 'RingBuffer.hpp'], [('poll', 'EventPoller::poll')], TRACE, SCHED, rank=5)
P('D09', 'Task queue and schedulers run every task exactly once',
  'The blocking queue is first-in-first-out under any number of threads: nothing is lost or duplicated, a waiting pop returns as soon as there is something, a timed pop gives up only after its full time with nothing there. The task schedulers run each task at most once, no more at a time than they have threads, exactly once while they are not stopped, complete its future only after it ended, and nothing runs after stop returned.',
  'schedules programs', 'all interleavings of pushes, pops, tasks and stop', 'tests use the queue from one thread',
  [D + 'BlockingQueue.hpp', D + 'RoundRobinThreadAffinedTaskScheduler.hpp', D + 'ThreadPerTaskScheduler.hpp'], [('queue', 'BlockingQueue::push/pop/timedWaitAndPop'), ('worker loop', 'RoundRobinThreadAffinedTaskScheduler::workingLoop')], TRACE, SCHED, rank=6)
P('D10', 'Consumers may join and leave a running ring buffer',
  'A gating consumer added while producers run is guaranteed every event after the sequence it starts from, none of which is overwritten before it handled them; one that is removed no longer holds producers back; both are safe at any time with respect to concurrent claims, capacity questions and other joins and removals.',
  'schedules programs', 'all interleavings of joins, removals and claims', 'tests add and remove sequences only while nothing runs',
  [D + 'Sequence.hpp', D + 'RingBuffer.hpp'], [('exchange of the gating list', 'detail::addSequences/removeSequence'), ('reading it', 'RingBuffer::addGatingSequences/getMinimumGatingSequence')], TRACE, SCHED, rank=5)
