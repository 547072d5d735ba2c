from props_base import *
CL = ['src/client/include/Client.hpp', 'src/client/include/ClientContext.hpp', 'src/client/include/ClientCommon.hpp']
P('C01', 'Each client request reaches its broker and its callback gets its own reply once',
  'get() and set() from any number of threads: each request (as long as no more of them wait to be sent than the command queue holds) leaves exactly once, to the broker its URI names, with its service, topic and data and an id no other request has, in the order of the calls of its thread. Its callback is called exactly once, with the content of the first final reply or notification that carries its id; partial, repeated, misaddressed or malformed messages of a broker call no callback and stop nothing.',
  'schedules messages', 'all programs of calling threads, all interleavings with the polling threads, all orders and kinds of broker messages', 'tests use one thread, one broker and well-behaved replies',
  CL, [('commands', 'ClientContext::get/set/poll'), ('requests', 'MDClientCtx::createRequestTo'), ('replies', 'MDClientCtx::handleMessage'), ('connection', 'Client::get/set/receive')], TRACE, SCHED, rank=9)
P('C02', 'Subscription callbacks get each notification of their topic and broker in order',
  'A subscription (of a topic this client is not subscribed to at that broker) is made known to the broker its URI names, and its callback is called once for every notification of exactly that topic from that broker, in the order published and with its content; other topics, brokers and kinds of message, and malformed ones, call nothing. After unsubscribing the broker is told, nothing more reaches that callback but what was under way, and a later subscription of the topic gets its own callback.',
  'schedules messages histories', 'all sequences of subscriptions and unsubscriptions of several topics and brokers, all interleavings with publications', 'tests subscribe once to one topic at one broker',
  CL, [('subscriptions', 'MDClientCtx::subscribe/unsubscribe'), ('notifications', 'SubscriptionClient::receive'), ('dispatch', 'MDClientCtx::handleMessage')], TRACE, SCHED, rank=10)
P('C03', 'Stopping a client is prompt and final',
  'stop() at any moment, also while other threads make calls and messages arrive, and the destructor of a client context return within a second, and once they have returned no callback runs any more and nothing is sent.',
  'schedules', 'all moments of a stop relative to calls, connections, replies and notifications', 'tests stop idle clients',
  CL, [('stop', 'ClientContext::stop'), ('polling threads', 'MDClientCtx::stop/poll')], TRACE, SCHED, rank=20)
