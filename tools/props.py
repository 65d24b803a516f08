"""The list of properties; writes ../properties.jsonl (python3 tools/props.py)."""
import json, os
P = []


def p(id, title, statement, over, q, why, files, mech):
    P.append({'id': id, 'title': title, 'statement': ' '.join(statement.split()),
              'quantifier': {'over': over.split(), 'text': ' '.join(q.split())},
              'why_tests_cant': ' '.join(why.split()),
              'anchors': {'files': files.split(),
                          'mechanism': [{'name': m.split('@')[0].strip(), 'where': m.split('@')[1].strip()} for m in mech]}})


p('C01', 'Byte buffer accesses stay inside the buffer',
  '''Every read, write, array transfer and cursor move of a byte buffer first checks that all the bytes it
  touches lie inside the buffer (and before the limit, for relative access); when they do not, it stops instead of touching memory.
  A relative access of n bytes advances the cursor by exactly n, and an absolute access leaves the cursor alone.''',
  'inputs programs', 'every element type, position, limit and index',
  'The tests use a few positions well inside one buffer; off-by-one and width errors only show at the very end of a buffer.',
  'src/misc/pv/byteBuffer.h src/misc/byteBuffer.cpp',
  ['checked access primitives @ src/misc/pv/byteBuffer.h: put/get/putArray/getArray/setPosition/setLimit'])

p('C02', 'Space is reserved for every byte serialized or deserialized, and waiting for space makes progress',
  '''On every path of every serializer and deserializer, the bytes that are put into (or taken from) the buffer without further
  negotiation are covered by a preceding request for at least that many bytes, so that a transport with any small buffer size can
  always flush or refill in time; and a loop that waits for space or data asks for enough to go on: it never asks again (or looks at
  the space left again) without having transferred or requested anything since.''',
  'inputs configurations', 'every value, nesting and buffer size at or above the documented minimum',
  'Tests use buffers large enough to hold the whole message, so a missing or short request is never noticed.',
  'src/misc/serializeHelper.cpp src/misc/bitSet.cpp src/misc/status.cpp src/factory/FieldCreateFactory.cpp src/factory/PVUnion.cpp src/factory/PVStructure.cpp src/factory/PVStructureArray.cpp src/factory/PVUnionArray.cpp src/factory/PVDataCreateFactory.cpp src/pv/pvData.h',
  ['ensureBuffer/ensureData protocol @ src/misc/pv/serialize.h: SerializableControl, DeserializableControl'])

p('C03', 'Writers and readers of the wire format agree on its layout',
  '''For every kind of serializable object (sizes, strings, bit sets, status, type descriptions, scalars, arrays, structures,
  unions), every sequence of primitive fields the writer can emit is one the matching reader consumes, field for field and width
  for width, and the reader consumes nothing beyond it.''',
  'inputs', 'every value and type that can be serialized',
  'Round-trip tests sample a handful of values; rarely used branches (nulls, large sizes, empty choices, optional names) are separate layouts.',
  'src/misc/serializeHelper.cpp src/misc/bitSet.cpp src/misc/status.cpp src/factory/FieldCreateFactory.cpp src/factory/PVUnion.cpp src/factory/PVStructure.cpp src/factory/PVStructureArray.cpp src/factory/PVUnionArray.cpp src/factory/PVDataCreateFactory.cpp',
  ['serialize/deserialize pairs @ src/misc, src/factory'])

p('C04', 'Type description codes are unambiguous and decode to the same type',
  '''Every field kind, scalar type and array-size variant is described on the wire by its own code, decoding that code yields the
  same kind, scalar type and size variant, and a code that no writer emits is rejected with an error.''',
  'inputs', 'all 256 code bytes and all kinds of field',
  'Tests send a few types; the table is a finite map whose every entry (and every hole) matters.',
  'src/factory/FieldCreateFactory.cpp',
  ['getTypeCodeLUT / decodeScalar / FieldCreate::deserialize @ src/factory/FieldCreateFactory.cpp'])

p('C05', 'Byte order is applied to exactly the multi-byte values, on both sides',
  '''When the byte order of a buffer differs from that of the machine, every multi-byte value written to or read from it, alone or
  in an array, has its bytes reversed exactly once; when it is the same, and for single-byte values, none is.''',
  'inputs configurations', 'both byte orders, all element types, single and array access',
  'Round trips through one implementation cancel a symmetric mistake, and most tests use the native order.',
  'src/misc/pv/byteBuffer.h src/misc/pv/epicsEndian.h',
  ['byte order test and swap @ src/misc/pv/byteBuffer.h: reverse, swap, put, get, putArray, getArray'])

p('C06', 'Objects are only treated as a subtype after their kind was established',
  '''Wherever a field description or a data field is treated as a more specific kind (scalar, array, structure, union, or a
  scalar of one type), that kind has been established on the same path, by its kind tag, a checked conversion or its own
  creation; in particular a malformed type description is rejected, never reinterpreted.''',
  'inputs programs', 'all field types, all type descriptions received from a peer',
  'A wrong reinterpretation is undefined behaviour on inputs the tests do not send and often appears to work.',
  'src/factory/FieldCreateFactory.cpp src/factory/PVDataCreateFactory.cpp src/factory/Compare.cpp src/factory/Convert.cpp src/factory/PVUnion.cpp src/factory/PVStructure.cpp src/factory/printer.cpp src/json/jprint.cpp src/json/parseinto.cpp src/factory/TypeFunc.cpp',
  ['static_pointer_cast / static_cast sites @ src'])

p('C07', 'The cache of shared type descriptions never yields a dead or wrong entry',
  '''All accesses to the process-wide cache of type descriptions are serialized by its lock; a new description is replaced by a cached one only if that was
  found, under the lock, to be of the same kind, equal and still alive, and otherwise is entered exactly once under the key stored in it; every concrete
  description removes itself, and nothing else, from the cache when destroyed, and does so before its storage is gone.''',
  'schedules histories', 'all interleavings of creating and releasing type descriptions in different threads',
  'The race between the last release and a concurrent lookup has a window of nanoseconds.',
  'src/factory/FieldCreateFactory.cpp',
  ['Field::cacheCleanup, FieldCreate::Helper::cache @ src/factory/FieldCreateFactory.cpp'])

p('C08', 'Invalid type descriptions cannot be created',
  '''No structure or union type comes into existence with differing numbers of names and fields, with an invalid or repeated field name, or with a missing member, and bounded strings always have a nonzero bound; every way of creating one, including decoding, refuses such input with an error.''',
  'inputs', 'every list of names, members and bounds, by every creation path',
  'Each creation path must validate; tests try a few bad inputs on one of them.',
  'src/factory/FieldCreateFactory.cpp',
  ['validateFieldName(s), Structure/Union constructors, FieldCreate::create* @ src/factory/FieldCreateFactory.cpp'])

p('C09', 'Type and value equality consider every distinguishing attribute',
  '''Two types compare equal only if every attribute that distinguishes them (kind, element type, size variant and bound, type name, member names, member types) was compared and found equal, and two values only if their kind, element type, structure or union type, length, selected member and every element and member were; two missing values are equal, and a missing value never equals a present one.''',
  'inputs', 'all pairs of types and of values',
  'A skipped attribute only shows for a pair that differs in nothing else.',
  'src/factory/Compare.cpp',
  ['compare / operator== family @ src/factory/Compare.cpp'])

p('C10', 'Every field kind and scalar type is handled by every dispatch',
  '''Each operation that dispatches on field kind or scalar type handles every kind it can be given, does for each kind what
  belongs to that kind, and never falls from the handling of one kind into that of another; an unknown kind is an error.''',
  'inputs', 'all kinds and scalar types at each dispatch',
  'Rare combinations (for example an array of unions of unsigned long) are not sampled for every operation.',
  'src/factory src/misc/typeCast.cpp src/misc/anyscalar.cpp src/json src/property src/copy src/pv/pvIntrospect.h',
  ['switch statements over Type and ScalarType @ src'])

p('C11', 'Shared array data is never modified through another owner',
  '''Storage that a frozen (read-only) array value may share with other holders is never written: a mutable array only writes
  storage it alone owns or has just copied, freezing requires sole ownership and takes the array away from its mutable owner,
  and thawing copies unless the value is the only holder.''',
  'histories programs', 'every history of share, copy, slice, freeze, thaw and modify',
  'Each test looks at one history; aliasing shows only when a second holder reads the value later.',
  'src/misc/pv/sharedVector.h',
  ['make_unique, freeze, thaw, resize, push_back @ src/misc/pv/sharedVector.h'])

p('C12', 'Array views never reach outside their storage',
  '''The window (offset, length, capacity) of a shared array always lies inside the storage it owns, after every constructor,
  slice, resize, reserve, append, removal and conversion, and bounds-checked element access rejects every index outside it.''',
  'histories inputs', 'every sequence of window operations with any argument',
  'Boundary arguments (index equal to length, slice beyond the end, sums that overflow) are few among all inputs.',
  'src/misc/pv/sharedVector.h',
  ['shared_vector_base offset/count/total @ src/misc/pv/sharedVector.h'])

p('C13', 'An array field keeps its value when an operation on it fails or does nothing',
  '''Every operation of an array field other than swap() and reuse() leaves the field holding either its complete previous
  value or the complete new one on every way out, including early returns and refusals; an operation that refuses has changed nothing,
  reading operations (including serialization) leave the value alone, and setLength, append, remove, replace and setCapacity end with
  exactly the number of elements asked for.''',
  'fault_sequences inputs', 'every way out of every operation that temporarily takes the value out of the field',
  'Tests do not inspect the field after an operation was refused.',
  'src/factory/PVStructureArray.cpp src/factory/PVUnionArray.cpp src/factory/PVDataCreateFactory.cpp',
  ['take-modify-put back of the array value @ PV*Array::setLength/setCapacity/deserialize'])

p('C14', 'Immutable fields refuse modification through checked operations',
  '''Once a field is immutable, each checked modification (copy and assign of every kind of field; setLength, setCapacity, swap,
  reuse, append, remove, compress of arrays) refuses with an error or returns without effect before anything was changed.
  Immutability is permanent, and making a structure immutable makes every subfield immutable.''',
  'histories', 'every checked modifying operation in every state of the field',
  'Few operations are tried on immutable fields.',
  'src/factory/PVStructureArray.cpp src/factory/PVUnionArray.cpp src/factory/PVDataCreateFactory.cpp src/factory/PVUnion.cpp src/factory/PVStructure.cpp src/factory/PVField.cpp src/pv/pvData.h',
  ['isImmutable guards @ src/factory, src/pv/pvData.h'])

p('C15', 'Every modification of a field notifies its listener, after the change',
  '''When a value is set through put, putFrom, assign, copy, copyUnchecked, replace or PVUnion::set, or an array field is decoded,
  the handler attached to the field is notified after the last change on every successful path, and not by an operation that failed
  without a change. postPut() calls the one attached handler exactly once. (swap, reuse, length editing and PVUnion::select leave the
  notification to their caller.)''',
  'histories', 'all modifying operations, with and without a handler attached',
  'Only one or two operations are tested with a handler.',
  'src/factory/PVDataCreateFactory.cpp src/factory/PVStructureArray.cpp src/factory/PVUnionArray.cpp src/factory/PVUnion.cpp src/pv/pvData.h src/factory/PVField.cpp',
  ['postPut calls @ src/factory, src/pv/pvData.h'])

p('C16', 'Length limits of fixed and bounded types are enforced',
  '''A fixed-size array never changes to another length, a bounded array never grows beyond its bound (capacity included), and
  a bounded string never holds a longer text, whichever operation sets them (setting, resizing, copying, decoding), except for the
  documented unchecked swap(); the attempt is refused with an error, and allowed lengths are accepted.''',
  'inputs histories', 'every operation that sets a length, capacity or value of a limited type',
  'Limits are tested with one operation each.',
  'src/factory/PVArray.cpp src/factory/PVDataCreateFactory.cpp src/factory/PVStructureArray.cpp src/factory/PVUnionArray.cpp src/pv/pvData.h',
  ['checkLength, setCapacity, PVScalarString max length @ src/factory, src/pv/pvData.h'])

p('C17', 'A union never holds a value that does not match its selector',
  '''After every operation on a union (select, set, copy, decode), also when it fails, the selector is either the undefined index
  with no value, or a valid member index with a value of exactly that member type; a variant union only ever has the undefined index.''',
  'histories inputs', 'every sequence of union operations, including failing and malicious ones',
  'Failing operations and hostile selectors are not sampled.',
  'src/factory/PVUnion.cpp src/pv/pvData.h',
  ['selector and value @ src/factory/PVUnion.cpp'])

p('C18', 'Cloned data is independent of its source and of the same type',
  '''Creating a data field from another one yields a new field of the same type (including bounds, identifiers and member names)
  holding an equal value, and never reuses, re-parents or modifies any part of the source.''',
  'inputs', 'all field kinds, nested to any depth, with or without values',
  'Cloning is tested for a few kinds and only by comparing values.',
  'src/factory/PVDataCreateFactory.cpp',
  ['createPVField(PVFieldPtr), createPVScalar(...), createPVScalarArray(...), createPVUnion(...) @ src/factory/PVDataCreateFactory.cpp'])

p('C19', 'Field offsets are computed before they are used',
  '''The numbering of the fields of a structure (own offset, next offset, number of fields) is only ever observed after it has been computed
  from the top of the structure, and every member knows its parent and name before it can be reached.''',
  'histories', 'every order of first accesses to a structure',
  'Any earlier access hides a missing computation.',
  'src/factory/PVField.cpp src/factory/PVStructure.cpp',
  ['computeOffset @ src/factory/PVField.cpp'])

p('C20', 'Failing lookups are reported, never dereferenced',
  '''Looking up a missing field or converting a field to the wrong type yields a null result from the lookups documented to return null and an
  exception from those documented to throw, and no library code uses the result of a null-returning lookup or checked conversion without testing it.''',
  'inputs', 'all lookups with all names and types',
  'Tests mostly look up fields that exist.',
  'src/factory src/copy src/json src/property src/pv/pvData.h',
  ['getSubField / getSubFieldT / getAs / dynamic_pointer_cast sites @ src'])

p('C21', 'Bit sets are always in canonical form',
  '''After every bit set operation the representation has no unused trailing words, so that size, emptiness, equality and the
  serialized form depend only on which bits are set.''',
  'histories', 'every history of bit set operations',
  'Equality of two bit sets that reached the same bits by different histories is rarely compared.',
  'src/misc/bitSet.cpp src/misc/pv/bitSet.h',
  ['recalculateWordsInUse @ src/misc/bitSet.cpp'])

p('C22', 'Bit set operations never touch memory outside their words',
  '''For every index and every pair of bit sets, each access to the words of a bit set is to a word that exists; operations on
  indices beyond the current size either extend the set first or report the bit as clear.''',
  'inputs histories', 'every bit index, word count and received byte count',
  'Out-of-range reads of one word usually go unnoticed.',
  'src/misc/bitSet.cpp src/misc/pv/bitSet.h',
  ['words indexing @ src/misc/bitSet.cpp'])

p('C23', 'Shared mutable state is only touched under its lock',
  '''State shared between threads (the queue, flags and callbacks of a timer, the registry of reference counters, the cache of types, the set of
  references kept by the debug pointers, the counts of a reference monitor, tables created on first use) is only read or written while holding the lock
  that belongs to it, on every path, and every lock taken is released on every way out.''',
  'schedules', 'all interleavings of all operations on shared objects',
  'A data race needs two threads in the same few instructions.',
  'src/misc/timer.cpp src/misc/reftrack.cpp src/misc/debugPtr.cpp src/factory/FieldCreateFactory.cpp src/misc/event.cpp src/misc/thread.cpp',
  ['mutex members and their guarded state @ src/misc'])

p('C24', 'User callbacks are never called while an internal lock is held',
  '''No timer, thread, reference-tracking or structure callback supplied by the user is invoked while the library holds one of its own locks; the library
  does not wait for an event or a thread while it holds one; and two locks are never taken in opposite orders.''',
  'schedules histories', 'all callbacks that call back into the library or block',
  'The deadlock needs a callback that takes a lock the caller holds.',
  'src/misc/timer.cpp src/misc/thread.cpp src/misc/reftrack.cpp',
  ['callback invocations @ src/misc/timer.cpp: run, close'])

p('C25', 'A timer callback is marked scheduled exactly while it is queued',
  '''At every point where the timer lock is free, a callback is marked as scheduled if and only if it is in the queue of the timer, once;
  scheduling a callback wakes the timer thread when it became the next to expire, cancel() and isScheduled() report truly whether it was queued, a cancelled
  callback leaves the queue and no other does, and close() stops the thread and tells every callback still queued, once, that the timer stopped.''',
  'schedules histories', 'all interleavings of schedule, cancel, expiry and close',
  'Tests run a few schedules with long delays.',
  'src/misc/timer.cpp src/misc/pv/timer.h',
  ['onList flag and queue @ src/misc/timer.cpp'])

p('C26', 'Process-wide singletons are initialised once before any use',
  '''Every process-wide table, factory or registry is created exactly once, under a lock or one-time guard, before its first use from any thread, and never changed
  afterwards except under its lock.''',
  'schedules', 'all orders of first use from several threads',
  'First use happens once per process, usually in one thread.',
  'src/factory/FieldCreateFactory.cpp src/factory/PVDataCreateFactory.cpp src/factory/Convert.cpp src/factory/StandardField.cpp src/factory/StandardPVField.cpp src/misc/reftrack.cpp src/property/alarm.cpp src/misc/status.cpp src/misc/timer.cpp',
  ['epicsThreadOnce and static locals @ src'])

p('C27', 'Request parsing reports every error as a null result with a message',
  '''Whatever text is given, creating a request structure either returns a structure or returns null and leaves an explanatory message; no
  exception escapes, and a previous message is not mistaken for a new one.''',
  'inputs', 'every request string',
  'Tests use a list of well-formed strings and few malformed ones.',
  'src/copy/createRequest.cpp',
  ['CreateRequest::createRequest @ src/copy/createRequest.cpp'])

p('C28', 'A request mapper changes all of its state or none of it',
  '''Computing a mapping either installs a complete new mapping or, when it fails, leaves the previous one untouched; swapping and
  resetting cover all of the state; and every mapping access bounds-checks field numbers taken from the caller.''',
  'fault_sequences inputs', 'every request, structure and bit set, valid or not',
  'Tests do not reuse a mapper after a failed computation.',
  'src/copy/requestmapper.cpp src/copy/pv/createRequest.h',
  ['PVRequestMapper::compute/_compute/swap/reset/copy* @ src/copy/requestmapper.cpp'])

p('C29', 'Numeric conversions report failure, never a wrong value',
  '''Every conversion from text to a number checks the status of the underlying parser and reports a failure to the caller, and the value is only
  used or stored after the conversion succeeded.''',
  'inputs', 'all texts and target types',
  'Tests list some good and bad texts per type.',
  'src/misc/parseToPOD.cpp src/misc/typeCast.cpp src/misc/pv/typeCast.h',
  ['parseToPOD, castUnsafe @ src/misc/parseToPOD.cpp, src/misc/pv/typeCast.h'])

p('C30', 'Untyped array and scalar conversions use the types they were given',
  '''Converting or copying a value whose type is only known at run time reads the source as exactly its recorded type and writes the destination
  as exactly its recorded type, for every pair of types, and leaves no element unconverted.''',
  'inputs', 'all pairs of scalar types',
  'There are 144 pairs; tests sample some.',
  'src/misc/typeCast.cpp src/misc/anyscalar.cpp src/misc/pv/anyscalar.h src/factory/PVDataCreateFactory.cpp src/pv/pvData.h',
  ['castUnsafeV, castVTyped, getAs/putFrom @ src/misc/typeCast.cpp, src/factory/PVDataCreateFactory.cpp'])

p('C31', 'Errors never cross or corrupt the JSON library',
  '''No exception escapes from a callback into the JSON parser, each callback failure stops the parse and is reported to the caller with
  its message, every status returned by the JSON generator is checked, and parser and generator handles are freed on every way out.''',
  'inputs fault_sequences', 'all documents, all failures in callbacks',
  'Tests use some malformed documents; failures inside callbacks are rare.',
  'src/json/parseany.cpp src/json/parseinto.cpp src/json/parsehelper.cpp src/json/jprint.cpp',
  ['TRY/CATCH barrier, yg(), handler RAII @ src/json'])

p('C32', 'The JSON parser only applies a token where the target field allows it',
  '''For every sequence of JSON tokens, each value, map or array is applied to a target of a matching kind, the one it is meant for, or rejected with an error; no document, however nested, makes the parser abort, treat one kind of field as another, or unbalance its nesting, and a token that has its place is not always refused.''',
  'inputs', 'all documents against all target types',
  'Mismatched nestings are an unbounded family.',
  'src/json/parseinto.cpp',
  ['frame stack @ src/json/parseinto.cpp'])

p('C33', 'Property views are attached completely or not at all',
  '''A property view (alarm, time stamp, control, display, enumerated) reports success of attach only if every member it later uses was
  found in one structure; otherwise it is left detached completely. Every access on a detached view is refused with an error and
  isAttached() says what is. Setting modifies nothing and reports failure when one of the fields it would modify is immutable. What
  set() stores is what get() delivers, member for member, and a member is only left as it is when it was equal. Detaching releases
  every member.''',
  'histories inputs', 'all structures given to attach, all orders of operations',
  'Tests attach to complete structures only.',
  'src/property/pvAlarm.cpp src/property/pvTimeStamp.cpp src/property/pvControl.cpp src/property/pvDisplay.cpp src/property/pvEnumerated.cpp src/property/alarm.cpp',
  ['attach/detach/isAttached/get/set @ src/property'])

p('C34', 'A variant scalar destroys and copies exactly what it holds',
  '''The storage of a variant scalar value holds a live object of its recorded type at all times: changing, copying, swapping and clearing destroy
  a text exactly once, never leave the type set without a value, and access by another type is refused.''',
  'histories', 'all sequences of assignment, copy, swap, clear between all scalar types',
  'Lifetime errors between pairs of types are invisible without instrumentation.',
  'src/misc/anyscalar.cpp src/misc/pv/anyscalar.h',
  ['AnyScalar storage @ src/misc/pv/anyscalar.h'])

p('C35', 'Time stamps are always normalised',
  '''After every operation on a time stamp, the nanoseconds lie between 0 and 999999999.''',
  'inputs', 'all values, signs and units given to constructors, put, normalize and arithmetic',
  'Negative and fractional inputs on carry boundaries are rarely sampled.',
  'src/property/timeStamp.cpp src/property/pv/timeStamp.h',
  ['TimeStamp::normalize and mutators @ src/property/timeStamp.cpp'])

p('C36', 'Status objects are always valid',
  '''A status always has one of the four defined severities, none is created as OK with a message, the short OK form received
  leaves no message or stack text, combining two statuses yields exactly the more severe one, and a severity outside the defined
  range received from a peer is rejected before the object changes.''',
  'inputs histories', 'all bytes received, all histories of maximize and deserialize',
  'Tests send valid codes only.',
  'src/misc/status.cpp src/misc/pv/status.h',
  ['Status::deserialize/maximize/constructors @ src/misc/status.cpp'])

p('C37', 'Live object counters are balanced',
  '''For every class that counts its live instances, each constructor increments its counter exactly once on success and the destructor
  decrements the same counter exactly once.''',
  'histories fault_sequences', 'all constructors, including copies and failing ones',
  'Counters are only looked at by hand when debugging.',
  'src/factory src/misc',
  ['REFTRACE_INCREMENT/DECREMENT @ src'])

p('C38', 'Copying, moving, swapping and resetting an object covers all of its state',
  '''Each user-written copy, assignment, move, swap, reset and clear operation transfers or resets every data member of its class, with the members of both objects paired correctly, and a copy leaves its source alone. (ByteBuffer::clear() is documented to reset the cursor only; the tagged storage of AnyScalar is C34.)''',
  'histories', 'all classes with such operations, all states',
  'A forgotten member shows only in a history that uses it after the operation.',
  'src/misc src/copy src/pv src/property',
  ['copy/assign/swap/reset members @ src'])

p('C39', 'Memory and handles obtained by the library are released exactly once',
  '''Everything the library allocates with new, malloc or a C library handle and keeps as a raw pointer has one owner that releases it exactly once, on
  replacement and on every way out, with the matching form of release.''',
  'fault_sequences histories', 'all paths, including failures',
  'Leaks and mismatched releases do not fail a test.',
  'src/misc src/factory src/copy src/json',
  ['new/delete/malloc/free/yajl handles @ src'])

p('C40', 'Printed text escapes are correct for every character',
  '''When text is printed with escapes, every non-printable character is written as a valid escape whose two hexadecimal digits denote it, and quotes and
  backslashes are escaped.''',
  'inputs', 'all 256 characters',
  'Tests print a few strings.',
  'src/factory/printer.cpp',
  ['hexdigit, escape @ src/factory/printer.cpp'])

p('C41', 'Partial array copies stay inside both arrays',
  '''Copying a slice of one array field into another checks type, offset, count and stride against the source, never reads outside the source or writes outside the
  destination, and refuses immutable destinations.''',
  'inputs', 'all offsets, counts, strides and lengths',
  'Sampled with a few valid combinations.',
  'src/factory/pvSubArrayCopy.cpp src/factory/Convert.cpp',
  ['copy(...) @ src/factory/pvSubArrayCopy.cpp'])

p('C42', 'Assertions and raw indexing cannot be triggered by remote data',
  '''While decoding received bytes, every size, count, selector or code read from the peer is checked against what it is used for (index, allocation element, loop or type selection)
  before that use, and a bad one is rejected with an error instead of an out-of-range access.''',
  'inputs', 'all received byte strings',
  'Hostile bytes are not sampled by tests.',
  'src/misc/serializeHelper.cpp src/misc/bitSet.cpp src/misc/status.cpp src/factory/FieldCreateFactory.cpp src/factory/PVUnion.cpp src/factory/PVStructureArray.cpp src/factory/PVUnionArray.cpp src/factory/PVDataCreateFactory.cpp',
  ['deserialize functions @ src'])

p('C43', 'A decoded value equals the encoded one',
  'For every field and value, decoding the bytes produced by encoding it, with either byte order, yields an equal field.',
  'inputs', 'all types and values', 'Round trips are sampled.',
  'src/factory src/misc', ['serialize/deserialize @ src/factory, src/misc'])
p('C44', 'Numeric conversions preserve every representable value',
  '''Converting a number between two types that can both represent it yields the same number, without a detour through a type that cannot; and the text of an integer or a boolean is written so that reading it back yields the same one. (Floating-point numbers are written with the default precision of the stream, which is not meant to be reversible.)''',
  'inputs', 'all values of all pairs of types', 'Sampled values only.',
  'src/misc/typeCast.cpp src/misc/parseToPOD.cpp', ['castUnsafe @ src/misc/pv/typeCast.h'])
p('C45', 'Timer callbacks expire in order and on time',
  'The queue of a timer is ordered by expiry time; a callback expires at the time of scheduling plus the delay, later at its last expiry plus its period; only the first of the queue is called, and only once its time has come; it is queued again exactly if it has a period; and the timer thread sleeps exactly until the first callback is due, whatever time other callbacks took.',
  'schedules', 'all delays and loads', 'Timing is sampled.',
  'src/misc/timer.cpp', ['Timer::run, addElement @ src/misc/timer.cpp'])
p('C46', 'Bit set algebra is correct',
  'For all bit sets, setting, clearing, flipping and testing a bit, the operators &=, |=, ^=, or_and, =, swap, equality, the two overlap tests, next set bit, next clear bit and the number of set bits agree with the mathematical operations on sets of numbers, also when both operands are the same object.',
  'inputs', 'all bit sets', 'Sampled sets.',
  'src/misc/bitSet.cpp', ['BitSet operators @ src/misc/bitSet.cpp'])
p('C47', 'JSON output read back gives the same value',
  'Printing a value as JSON and parsing the output into a field of the same type yields an equal value.',
  'inputs', 'all values JSON can represent', 'Sampled values.',
  'src/json', ['printJSON, parseJSON @ src/json'])
p('C48', 'No sequence of API calls deadlocks or blocks forever',
  'With any callbacks supplied by the user that do not block themselves, every library call returns.',
  'schedules', 'all schedules', 'Needs scheduling and environment assumptions.',
  'src/misc/timer.cpp src/misc/thread.cpp src/misc/event.cpp', ['locks and events @ src/misc'])

if __name__ == '__main__':
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(here, 'properties.jsonl'), 'w') as f:
        for x in P:
            f.write(json.dumps(x) + '\n')
    print(len(P))
