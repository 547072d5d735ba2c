from props_base import *
TT = 'TLA+ specification checked by TLC; reports of the real code on generated inputs judged by it'
TN = 'Bounded: thousands of generated inputs, biased to special characters, boundary numbers and damaged text; theorems of the specification are checked over a small alphabet. Trusts TLC and the harness.'
P('T01', 'Topics: one canonical subscription text per topic, none a prefix of another',
  'Two topics are equal exactly if service and parameters are equal, whatever the order or spelling they were given in; their subscription texts (ending in #) are equal exactly then, and no such text is a prefix of the text of a different topic, whatever characters keys and values contain. Reading a topic back from its subscription text or its URI gives the same topic, equal topics have equal hashes, and a topic whose service name is not valid, or that has parameters from two sources, is refused.',
  'inputs', 'all service names and parameters with any characters', 'the tests use a dozen topics with plain characters', ['src/core/include/Topic.hpp', 'src/core/include/URI.hpp'],
  [('canonical text', 'Topic::toZmqTopic, fromZmqTopic'), ('parsing', 'Topic::Topic, parseService, isValidServiceName')], TT, TN, rank=14)
P('T02', 'A notification matches a subscription exactly if all filtered parameters do',
  'A notification matches a subscription exactly if the services are equal and, for every parameter of the subscription that has a filter, the notification has this parameter and satisfies the filter: equal text, equal numbers (both complete numbers within the range of the type) or a timing selector matched by the subscribed one. Parameters without filter and further parameters of the notification do not matter, and values that are not valid never match.',
  'inputs', 'all filters, notifications and subscriptions', 'the tests try a few pairs of topics', ['src/majordomo/include/majordomo/SubscriptionMatcher.hpp', 'src/core/include/Filters.hpp', 'src/core/include/TimingCtx.hpp'],
  [('matching', 'SubscriptionMatcher::operator(), testFilters'), ('filters', 'NumberFilter, DomainFilter')], TT, TN, rank=15)
P('T03', 'Timing selectors: parsed, formatted, matched, compared and hashed consistently',
  'A timing selector is accepted exactly if it is empty, ALL, or FAIR.SELECTOR. with ALL or tags C, S, P, T having whole 32 bit numbers or ALL (any case), however long; everything else throws each time it is looked at. The ids are those of the text, missing ones are wild; the formatted text gives an equal context back. matches() holds exactly if every id of the other one is wild or equal (and for matchesWithBpcts also the time stamp); equality, order and hash agree with ids and time stamp. All this follows the current selector of both operands, also if it was assigned after construction.',
  'inputs histories', 'all selector texts and assignments', 'the tests try some twenty selectors', ['src/core/include/TimingCtx.hpp'],
  [('parser', 'TimingCtx::parse'), ('comparison', 'TimingCtx::matches, matchesWithBpcts, operator<=>, operator=='), ('format', 'TimingCtx::toString')], TT, TN, rank=16)
P('T04', 'MIME types: lookup by name or file name gives the first listed type',
  'Looking up a type name (any case, with parameters, in a list) gives the first type of the table whose name occurs in it, looking up a file name gives the first type with an extension (any case) the file name ends in, and everything else gives the unknown type. Every type of the table is found by its own name and extensions.',
  'inputs', 'all names and file names', 'the tests look up some names', ['src/core/include/MIME.hpp'], [('lookup', 'MIME::getType, getTypeByFileName')], TT, TN, rank=33)
