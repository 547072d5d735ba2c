from props_base import *
BR = ['src/majordomo/include/majordomo/Broker.hpp', 'src/zmq/include/zmq/ZmqUtils.hpp']
MDPT = 'TLA+ specification checked by TLC; message histories of the real code (random, under virtual time, through an in-memory stand-in for the message sockets) validated against it by TLC'
MDPN = 'Bounded: random histories of a few clients, workers, publishers and services (1500 in the quick, about 10000 in the thorough tier) plus exhaustive exploration of a small model of the specification. Trusts TLC, the stand-in for libzmq and the harness; network loss and the real REST server are not modelled.'
P('M01', 'Broker: every request reaches one worker, every reply its own client',
  'A client request is either answered by the broker itself or handed unaltered (command, request id, topic, data, error, token) to exactly one worker of the matching service, and each reply of that worker reaches, unaltered and exactly once, exactly the client that asked, be it a socket client or the REST interface. No request or reply is lost, duplicated or swapped while the worker is registered and the client known, whatever else happens in between.',
  'histories schedules', 'all histories of messages from any number of clients and workers', 'the tests run one client with one worker and a handful of messages; interleavings of several are not sampled',
  BR, [('request queueing', 'Broker::receiveMessage, processClients'), ('reply routing', 'Broker::processWorker')], MDPT, MDPN, rank=2)
P('M02', 'Broker: requests go by role, then age, and only to idle workers',
  'A waiting request is handed over as soon as a worker of its service waits: among waiting requests the one whose role comes first in the configured roles (unknown roles last), and within a role the oldest; among waiting workers the one waiting longest. A worker gets at most one request until it sends its final reply, partial replies do not free it, and the broker never sleeps while a request and a worker of the same service are both waiting.',
  'histories', 'all histories', 'the role test queues six requests once', BR, [('priority queues', 'Broker::Service::putMessage/takeNextMessage'), ('waiting list', 'Broker::dispatch, workerWaiting')], MDPT, MDPN, rank=4)
P('M03', 'Broker: longest service name wins, unknown refused, mmi services tell the truth',
  'A request goes to the registered service whose name is the longest that equals the requested name or is a prefix of it ending at a slash (a leading slash not counting); if there is none the client gets exactly one "unknown service (error 501)" reply carrying its request id. mmi.echo returns the message, mmi.service lists all services or tells 200/404 for one, mmi.openapi returns the description given at first registration or an error.',
  'histories inputs', 'all service sets and requested names', 'tests use one service at a time', BR, [('matching', 'Broker::bestMatchingService'), ('internal services', 'Broker::Broker')], MDPT, MDPN, rank=6)
P('M04', 'Broker: notifications reach exactly the matching subscriptions, once each',
  'A published notification is delivered, content unaltered, once for every active subscription whose service is equal and whose filtered parameters agree, on the publisher socket under the subscription topic, to every client subscribed to it through the router, and to the REST interface; nobody else gets it. Subscribing twice, unsubscribing without subscription and different spellings of a topic do not change who is subscribed, and the broker itself listens to a topic exactly while somebody is subscribed.',
  'histories', 'all histories of subscribe, unsubscribe and notify', 'tests subscribe a few fixed topics once', BR + ['src/core/include/Topic.hpp', 'src/majordomo/include/majordomo/SubscriptionMatcher.hpp'], [('subscription tables', 'Broker::subscribe/unsubscribe, receivePubMessage'), ('fan-out', 'Broker::dispatchMessageToMatchingSubscribers')], MDPT, MDPN, rank=5)
P('M05', 'Broker: silent workers are dropped in time, live ones never, everybody is told',
  'A waiting worker that has been silent for longer than the heartbeat interval times the liveness gets no more requests and is forgotten, one that keeps sending is kept; a disconnecting worker gets nothing more. Waiting workers receive a heartbeat at least once per interval and not more often, a message from a worker the broker does not know is answered with a disconnect that does not stop the worker for good, and a shutdown disconnects every worker. Clients are forgotten only after the client timeout without request, the REST interface never.',
  'histories schedules', 'all histories with any passing of time', 'the heartbeat test waits for two heartbeats in one schedule', BR, [('expiry', 'Broker::purgeWorkers, purgeClients'), ('heartbeats', 'Broker::sendHeartbeats'), ('disconnect', 'Broker::disconnectWorker, cleanup')], MDPT, MDPN, rank=7)
P('M06', 'Broker: malformed and hostile messages change nothing and stop nobody',
  'Messages with a wrong number of frames, unknown protocol or command, malformed topic or subscription, commands a peer has no right to send, replies from strangers and junk on the publisher socket neither stop the broker nor corrupt memory, are never passed on as requests, and leave all other clients, workers and subscriptions served as if they had not been sent.',
  'inputs histories', 'all byte sequences on all sockets in all states', 'tests send a single malformed topic', BR, [('frame parsing', 'zmq::receive'), ('command filtering', 'Broker::receiveMessage, processWorker, receivePubMessage')], MDPT, MDPN, rank=8)
P('M07', 'Broker: the address registry lists exactly the live brokers and services',
  'The broker announces each of its addresses, alone and with each of its services, to the name service when they appear, when challenged and periodically. It lists exactly its own addresses and those that remote brokers registered and refreshed within the time-out, challenges remote brokers in time, forgets silent ones, and answers a query with exactly the registered addresses that have the requested scheme and start with the requested path, in order, or "null".',
  'histories inputs', 'all histories of registrations, time and queries', 'the test registers one broker and sleeps', BR, [('registry', 'Broker::registerWithDnsServices, purgeDnsServices'), ('queries', 'detail::findDnsEntry')], MDPT, MDPN, rank=28)
WK = ['src/majordomo/include/majordomo/Worker.hpp', 'src/majordomo/include/majordomo/Rbac.hpp', 'src/zmq/include/zmq/ZmqUtils.hpp']
P('W01', 'Worker: every request is answered exactly once, whatever the handler does',
  'For every GET or SET request that a worker receives and the role of the request permits, the handler is called exactly once, with exactly the request and a reply that already carries its client, request id, topic and token; exactly one final reply is sent: the handler\'s, unaltered, or, if the handler throws anything at all, one with an error naming the service and the exception and no data. Requests are served in order of arrival and a failing handler does not affect later ones.',
  'histories inputs', 'all histories of requests and handler outcomes', 'tests call a few handlers, one throwing a std::exception', WK, [('request processing', 'BasicWorker::processRequest'), ('reply', 'BasicWorker::replyFromRequest')], MDPT, MDPN, rank=10)
P('W02', 'Worker: only roles with the right reach the handler',
  'The handler is called for a GET only if the role named by the token "RBAC=<role>,<hash>" may read (RW, RO) and for a SET only if it may write (RW, WO); ADMIN may always do both, a role that is not listed (or a malformed token) has the rights of the last listed role. Every other request is answered with exactly one "access denied" error to its client, without data, and never reaches the handler.',
  'inputs', 'all tokens, role lists and commands', 'tests try a few tokens on one role list', WK, [('permissions', 'BasicWorker::processRequest, permissionMap'), ('token parsing', 'parse_rbac::role')], MDPT, MDPN, rank=11)
P('W03', 'Worker: notifications are forwarded exactly if subscribed, from any thread',
  'A notification handed to notify() is sent to the broker exactly once, in the order handed over by the thread, with the service name and token of the worker and its topic, data and error unaltered, if at that time a topic is subscribed whose service is the worker\'s and whose filtered parameters agree, and is not sent otherwise; one with an invalid topic is dropped and harms nobody. The active subscriptions are exactly those that the broker currently has for the service of the worker, also after a reconnect. Threads may call notify() at any time, also while sockets of idle threads are being cleaned up.',
  'histories schedules', 'all histories of subscriptions, notifications and reconnects', 'tests notify from one thread with stable subscriptions', WK + ['src/majordomo/include/majordomo/SubscriptionMatcher.hpp'], [('notify', 'BasicWorker::notify, sendNotificationFromThisThread, receiveNotificationMessage'), ('subscriptions', 'BasicWorker::receiveSubscriptionMessage')], MDPT, MDPN, rank=12)
P('W04', 'Worker: announces itself, keeps alive, reconnects, and leaves in order',
  'A worker announces itself with its name and description as the first message on every connection, sends a heartbeat once per interval, gives up a connection exactly if the broker was silent for the liveness number of intervals (then, after the reconnect pause) or disconnected it, and then connects and announces itself again on a new one. After shutdown() or a disconnect because of a broker shutdown it answers what it accepted, disconnects as the last message and run() returns; malformed or unexpected messages from the broker stop nobody.',
  'histories schedules inputs', 'all histories with any passing of time', 'tests run one heartbeat schedule', WK, [('main loop', 'BasicWorker::run'), ('connection', 'BasicWorker::connectToBroker, handleDealerMessage')], MDPT, MDPN, rank=13)
