from props_base import *
URI = ['src/core/include/URI.hpp']
P('U01', 'URI parsing assigns every character to the right component',
  'For every string, parsing either rejects it with a URI syntax error or yields scheme, authority, user, password, host, port, path, query, fragment and relative reference exactly as the generic URI syntax divides it, with a component that is absent or empty reported as absent and the original text kept verbatim. A string with characters outside the URI alphabet is rejected in strict mode; absolute URIs and references starting with a slash, "?" or "#" are in scope.',
  'inputs', 'all strings, in strict and relaxed mode', 'the unit tests parse a few dozen well-formed examples; delimiters inside components, empty components, IPv6 hosts, ports out of range are not sampled',
  URI, [('one-pass component parser', 'URI::parseURI'), ('lazy authority parser', 'URI::parseAuthority'), ('accessors', 'URI::scheme..relativeRef')], RECS, INP, rank=20)
P('U02', 'Percent coding is lossless, canonical and memory safe',
  'Encoding any byte string yields only unreserved characters and upper-case percent escapes, and decoding that gives back the original bytes. Decoding any text resolves every complete escape; an incomplete or non-hexadecimal escape or a foreign character is a syntax error in strict mode and is kept literally in relaxed mode.',
  'inputs', 'all byte strings', 'tests use a couple of strings; escapes cut off at the end and non-hex digits are not sampled',
  URI, [('encode', 'URI::encode'), ('decode', 'URI::decode')], RECS, INP, rank=22)
P('U03', 'URIs built from parts parse back to the same parts',
  'A URI built from components (scheme, user, password, host, port or authority, path, query parameters, fragment) has the text the components prescribe and parses back to exactly these components and query parameters. Asking the builder again, copying it, or building from the parsed URI gives the same URI, and setting a part replaces the earlier one.',
  'inputs', 'all component combinations over URI characters, any bytes in query keys and values', 'tests build a few URIs once; repeated building, special bytes and combinations are not sampled',
  URI, [('builder', 'URI::UriFactory::toString/build')], RECS, INP, rank=24)
P('U04', 'Query strings decode to the exact parameter map',
  'The parameter map of an accepted URI contains exactly the keys and values of its query string, split at "&" and ";", each percent-decoded, a key without value mapped to nothing, and the last one winning for repeated keys. A query with a malformed item raises a syntax error each time it is asked for instead of returning a partial map.',
  'inputs histories', 'all query strings, asked for repeatedly', 'tests use one or two queries',
  URI, [('query map parser', 'URI::queryParamMap')], RECS, INP, rank=24)
P('U05', 'URI objects are values: copies, moves and assignments are independent',
  'Whatever sequence of copying, moving, assigning, self-assigning, swapping or storing in containers a URI goes through, every live URI reports the components of its own text, also after the object it came from was changed or destroyed. Equality, ordering and hashing agree with the text.',
  'histories', 'all sequences of value operations', 'tests copy and move once, with identical texts, so stale views into another object are invisible',
  URI, [('copy/move constructors and assignments', 'URI::URI, operator='), ('comparison', 'URI::operator==, <=>, std::hash')], RECS, INP, rank=26)
P('U06', 'Arbitrary bytes never break the URI parser',
  'Parsing and querying any byte string, including zero bytes, truncated escapes and strings of length zero and one, terminates without memory errors and with no failure other than the URI syntax error.',
  'inputs', 'all byte strings', 'tests never feed malformed bytes', URI, [('parser bounds', 'URI::parseURI, decode, queryParamMap')], RECS, INP, rank=26)
P('L01', 'Reader-writer lock: readers and writers never overlap',
  'At no time do a reader and a writer hold the lock together; the reported count equals the number of readers held, or minus the number of writers; every try, lock, unlock and scoped guard takes effect exactly once between its call and return, and what one group did before unlocking is visible to the other group after locking. A lock that is free or held by the same group can always be acquired, and a try fails only when the other group holds it or another thread changed it during the call.',
  'schedules programs', 'all interleavings of any threads using the lock', 'the stress test runs a few schedules on strongly ordered hardware',
  ['src/core/include/ReaderWriterLock.hpp'], [('atomic counter with compare-exchange', 'ReaderWriterLock::lock/tryLock/unlock'), ('scoped guard', 'ReaderWriterLock::ScopedLock')], TRACE, SCHED, rank=10)
P('L02', 'Spin mutex gives mutual exclusion and visibility',
  'At most one thread is between lock and unlock of the spin mutex, with every kind of waiting policy, and each holder sees everything earlier holders did. A free mutex is acquired by some waiting thread.',
  'schedules', 'all interleavings of any number of threads', 'not tested beyond single-threaded use',
  ['src/core/include/SpinWait.hpp'], [('test-and-set with acquire/release', 'AtomicMutex::lock/unlock')], TRACE, SCHED, rank=12)
P('S01', 'Spin waiting returns true only on success and false only after the timeout',
  'Waiting for a condition returns true only after the condition was observed true, returns false only when a non-negative timeout has passed while it stayed false, never gives up when no timeout is set, and rejects timeouts below -1. A zero timeout evaluates the condition without waiting, and a finite one is not overrun by more than the back-off granularity.',
  'schedules inputs', 'all timeouts and all moments at which another thread makes the condition true', 'tests use conditions that hold at once or never',
  ['src/core/include/SpinWait.hpp'], [('deadline loop', 'SpinWait::spinUntil')], TRACE, 'Bounded: sampled timeouts and flip times under virtual time. Trusts TLC, the scheduler shim and the harness.', rank=30)
P('S02', 'Spin back-off gives up the processor after its threshold',
  'Until the configured number of spins is exceeded a spinning thread does not give up the processor; from then on every spin does, and in each configured number of consecutive spins at least one sleeps for a millisecond. The announcement of the next spin and the spin counter agree with that, and a reset starts over.',
  'histories configurations', 'all sequences of spins and resets', 'tests check a single default configuration for a few spins',
  ['src/core/include/SpinWait.hpp'], [('back-off schedule', 'SpinWait::spinOnce')], TRACE, 'Bounded: four configurations, runs of up to 3000 spins. Trusts TLC and the harness.', rank=60)
P('A01', 'Thread and process attributes: set is what get returns, errors surface',
  'Name, CPU affinity and scheduling parameters of a thread or the process read back as they were last set successfully, and setting one never changes another attribute or thread. Whenever the request is invalid (thread object without thread, name longer than 15 characters, no usable processor, priority out of range, invalid process) or the operating system refuses, a system error is raised and nothing changes.',
  'histories inputs fault_sequences', 'all sequences of set/get operations and all refusals of the operating system', 'tests set one valid value each; refusals by the operating system are not exercised',
  ['src/core/include/ThreadAffinity.hpp'], [('error code checks', 'setThreadName.. setProcessSchedulingParameter'), ('mask conversion', 'detail::getAffinityMask')], SEQTR, 'Bounded: random operation sequences against an in-memory stand-in for the operating system calls. Trusts TLC and the stand-in.', level='fault_enumeration', rank=62)
B = ['src/majordomo/include/majordomo/base64pp.hpp']
P('B01', 'Base64 encoding is canonical and lossless',
  'Encoding any byte string gives the padded RFC 4648 text of length 4*ceil(n/3), and decoding that text gives back exactly the original bytes.',
  'inputs', 'all byte strings', 'tests use a handful of strings', B, [('encoder', 'base64pp::encode')], RECS, INP, rank=28)
P('B02', 'Base64 decoding accepts exactly well-formed text',
  'Decoding succeeds exactly for texts that consist of groups of four alphabet characters with at most two padding characters at the very end, and then returns the encoded bytes; every other text, including foreign bytes and misplaced padding, yields no value and no memory error.',
  'inputs', 'all byte strings', 'tests use a handful of invalid strings', B, [('validation', 'detail::is_valid_base64_str'), ('decoder', 'base64pp::decode')], RECS, INP, rank=28)
S = ['src/disruptor/include/BasicSetting.hpp']
P('R01', 'Shared setting written by ordinary threads: consistent real-time reads',
  'The real-time thread always reads one complete value that was current during its access and that stays unchanged until it releases it, and it never waits. Modifications by ordinary threads exclude each other, start from the value published last and are never lost, and once published are what the next access sees.',
  'schedules programs', 'all interleavings of one real-time reader and any modifying threads', 'tests are single-threaded', S, [('pointer exchange and compare-exchange publication', 'detail::NonRealtimeMutable'), ('scoped guard', 'BasicSetting::ScopedAccess')], TRACE, SCHED, rank=14)
P('R02', 'Shared setting written by the real-time thread: complete, latest reads',
  'Ordinary threads always read one complete value, the latest one published by the real-time thread at some moment of their access, unchanged until they release it. The real-time thread never waits, and its next modification starts from what it published last.',
  'schedules programs', 'all interleavings of one real-time writer and any reading threads', 'tests are single-threaded', S, [('double buffer with index, busy and new-data bits', 'detail::RealtimeMutable')], TRACE, SCHED, rank=14)
