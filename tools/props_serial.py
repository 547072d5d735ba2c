from props_base import *
TT = 'TLA+ specification checked by TLC; messages written and received by the real code on generated objects judged by it'
TN = 'Bounded: thousands of generated objects of eleven classes (all supported member types), histories and damaged messages; theorems of the specification are checked for all small objects. Trusts TLC, the harness, its stand-in for the refl reflection library and the sanitizers of the compiler.'
SER = ['src/serialiser/include/IoSerialiser.hpp']
P('Z01', 'IoBuffer: what is put is got back, never anything outside of it',
  'A buffer is a sequence of bytes with a position: numbers, texts and arrays put into it are appended in little-endian format with their lengths, and getting them gives the same values and moves the position behind them. Getting, skipping or looking at more than the buffer holds is an error, for any position and any bytes, and never reads outside. Copying gives an independent equal buffer, moving and swapping exchange contents and owners, resizing keeps the bytes, clearing empties it.',
  'inputs histories', 'all histories of buffer operations', 'the tests try some sequences', ['src/serialiser/include/IoBuffer.hpp'], [('reading', 'IoBuffer::get, getArray, skip, at'), ('writing', 'IoBuffer::put, putRaw, resize, ensure'), ('ownership', 'IoBuffer::operator=, swap, clear')], TT, TN, rank=17)
P('Z02', 'YaS messages have the documented layout and are received into any class',
  'Serialising an object to YaS gives exactly the bytes of the format: header, then for each member type, offset, size, name, unit/description/access notes and value, nested objects delimited by markers, members that are empty pointers left out. Deserialising such a message into an object of the same or any other class sets exactly the members that are there with matching type, unit and access, to the sent values (containers are replaced, not appended), leaves all others as they were, and reports unknown, mismatching and set members: not at all when ignoring, as a list when lenient, as an exception when checking always.',
  'inputs', 'all objects, receiving classes and check levels', 'the tests use a few classes', SER + ['src/serialiser/include/IoSerialiserYaS.hpp'], [('format', 'IoSerialiser<YaS, T>::serialise, FieldHeaderWriter<YaS>'), ('receiving', 'deserialise, FieldHeaderReader<YaS>')], TT, TN, rank=18)
P('Z03', 'CmwLight messages have the documented layout and are received into any class',
  'Serialising an object to CmwLight gives exactly the bytes of the format: number of members, then name, type and value of each, nested objects and maps alike. Deserialising such a message into an object of the same or another class sets exactly the members that are there with matching type to the sent values (containers are replaced), leaves all others as they were, and reports the others according to the check level; a message with a nested object or map that the receiver cannot use is refused.',
  'inputs', 'all objects, receiving classes and check levels', 'the tests use a few classes', SER + ['src/serialiser/include/IoSerialiserCmwLight.hpp'], [('format', 'IoSerialiser<CmwLight, T>::serialise'), ('receiving', 'IoSerialiser<CmwLight, T>::deserialise, FieldHeaderReader<CmwLight>')], TT, TN, rank=19)
P('Z04', 'JSON: valid texts with the values of the object; any JSON object is received',
  'Serialising an object to JSON gives a text valid by RFC 8259 whose parsed value has exactly the members of the object (those that are not empty pointers) with their values, whatever characters texts and keys contain. Deserialising any valid JSON object (any white space, member order, escapes, number notation, unknown members of any kind) sets exactly the members it names, to the values it holds (containers are replaced), leaves the others as they were and reports unknown ones according to the check level.',
  'inputs', 'all objects and JSON texts', 'the tests use a few texts', SER + ['src/serialiser/include/IoSerialiserJson.hpp'], [('writing', 'IoSerialiser<Json, T>::serialise, json::writeString'), ('reading', 'json::readString, readKey, skipField, assignArray')], TT, TN, rank=20)
P('Z05', 'Damaged or hostile messages never crash, hang or spoil the receiver',
  'Whatever bytes are deserialised as YaS, CmwLight or JSON, into whatever class: the call returns or throws an exception in bounded time and memory, reads and writes nothing outside of the message and the receiving object, and the object stays usable: a good message received afterwards is received correctly.',
  'inputs histories', 'all byte strings', 'the tests try a handful of broken messages', SER + ['src/serialiser/include/IoBuffer.hpp', 'src/serialiser/include/IoSerialiserYaS.hpp', 'src/serialiser/include/IoSerialiserCmwLight.hpp', 'src/serialiser/include/IoSerialiserJson.hpp', 'src/serialiser/include/MultiArray.hpp'],
  [('bounds', 'IoBuffer::get, getArray'), ('positions', 'FieldHeaderReader, deserialise'), ('sizes', 'MultiArray, json::skipValue')], TT, TN, rank=7)
P('Z06', 'Request contexts and query parameters are converted without loss',
  'Every member of a request context is written as the query parameter of its name (a flag that is set without value, one that is not set left out) and read back to the same value, also through the text of a URI or topic: texts with any characters, numbers exactly, timing selectors and MIME types. A parameter that is missing, unknown or not valid for its member (no complete number within range, invalid selector, no true/false) leaves the member as it was. The content type of a context is that of its first MIME member, else unknown.',
  'inputs', 'all contexts and query parameters', 'the tests convert a few contexts', ['src/serialiser/include/QuerySerialiser.hpp', 'src/core/include/TimingCtx.hpp', 'src/core/include/MIME.hpp'], [('conversion', 'QuerySerialiser::serialise, deserialise'), ('content type', 'query::getMimeType')], TT, TN, rank=21)
P('Z07', 'MultiArray: every element at its row-major place, copies are independent',
  'A multi-array of dimensions n1..nk has n1*..*nk elements; the element with indices (i1..ik) is the one at its row-major position, index and indices are inverse to each other, and what is written there is read back there and nowhere else. Copies and arrays made of vectors and dimensions are equal and independent, arrays differing in an element are not equal, sums are formed element by element.',
  'inputs', 'all dimensions (1 to 4 of them) and contents', 'the tests use a few small arrays', ['src/serialiser/include/MultiArray.hpp'], [('index', 'MultiArray::index, indices, operator[]'), ('values', 'MultiArray::operator+, operator==')], TT, TN, rank=40)
