"""The properties. properties.jsonl and MANIFEST.json are generated from here by gen.py."""
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    a = {'files': ['src/' + f for f in files], 'mechanism': [{'name': n, 'where': 'src/' + w} for n, w in mech]}
    if state: a['state'] = [{'name': n, 'meaning': m, 'where': 'src/' + w} for n, m, w in state]
    if observe: a['observe_at'] = observe
    a['hook_needed'] = None
    P.append({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': qtext}, 'why_tests_cant': why, 'anchors': a})

SB = ['StringBuilder.cpp', 'StringBuilder.h']

prop('C01', 'A StringBuilder always holds exactly the bytes its edit history says',
 'After any sequence of appends, prepends, hand-offs between builders, number and printf-style appends, culls, case changes, chunking, flattening and clearing, a StringBuilder holds exactly the flat byte string that the same edits make on an ordinary string, binary content included. Every reader (length, byte access, bounded copy-out, fragment access, contiguous view) agrees with that byte string, and the contiguous view is followed by a terminating zero byte. No edit or read touches memory outside the content, and destroying the builders gives back all memory taken.',
 ['histories', 'inputs'], 'all finite histories of public editing calls over several builders, all binary contents and all fragmentations',
 'The unit tests run each call once on a few short strings; the fragment chain that results depends on the whole history of edits.',
 SB, [('fragment chain', 'StringBuilder.cpp'), ('collapse', 'StringBuilder.cpp: _collapse()'), ('hand-off', 'StringBuilder.cpp: concatHandoff*/prependHandoff')],
 ['length()', 'copyToBuffer()', 'position()', 'string()', 'byteAt()'])
prop('C02', 'StringBuilder search, compare and replace do not depend on fragmentation',
 'Locating a byte sequence from an offset gives the first occurrence at or after that offset (or the not-found value), containment and byte-wise comparison give the answers of a flat string, and replacing substitutes exactly the non-overlapping left-to-right occurrences and reports their number. The answers are the same however the content is split in fragments, and searching does not alter the content. The caseless string helpers order and find as the C library ones do.',
 ['inputs', 'histories'], 'all contents, needles (self-overlapping ones included), offsets and fragmentations',
 'Tests search a handful of fixed strings; needles that straddle fragments or restart inside a partial match need many layouts.',
 SB, [('cross-fragment matcher', 'StringBuilder.cpp: locate()'), ('replace', 'StringBuilder.cpp: replace()'), ('compare', 'StringBuilder.cpp: cmpBinString()')])
prop('C03', 'StringBuilder tokenization yields the right tokens, in order, once each',
 'Splitting by a set of delimiter characters yields the maximal runs of other characters in order, chunking yields equal-size pieces with the remainder last, and imploding joins the present fragments with the delimiter between each pair. Each token can be read by index as text, binary, integer, unsigned or floating value with out-of-range indices giving an empty answer, trimmed reads lose only surrounding whitespace, and dropping a token removes that token and no other byte.',
 ['inputs', 'histories'], 'all contents, delimiters, chunk sizes and index sequences',
 'Tests cover a few delimiter strings and short inputs.',
 SB, [('split', 'StringBuilder.cpp: split()'), ('chunk', 'StringBuilder.cpp: chunk()'), ('implode', 'StringBuilder.cpp: implode()'), ('drop', 'StringBuilder.cpp: drop_position()')])
prop('C04', 'Hand-offs between StringBuilders conserve bytes and ownership',
 'When content is moved between builders, wholly, up to a byte limit, or by token positions, the concatenation of what moved and what stayed is exactly what the donor had, in order, with no byte lost, duplicated or shared. A limited copy leaves the donor untouched. After a transfer either builder can be edited or destroyed without affecting the other.',
 ['histories', 'inputs'], 'all networks of transfers among builders, all limits relative to fragment boundaries, all orders of destruction',
 'Tests move one or two strings and destroy them in a fixed order; the boundary cases depend on where limits fall among fragments.',
 SB, [('limited hand-off', 'StringBuilder.cpp: concatHandoffLimit()'), ('limited copy', 'StringBuilder.cpp: concatLimit()'), ('positional hand-off', 'StringBuilder.cpp: concatHandoffPositions()')])
prop('C05', 'Text rendering and date-time reading are exact for every value',
 'Formatted appends produce the text that the C library produces for the same format and arguments, whatever its length, and report its length; numbers appended directly read as the C library prints them. Dumping a buffer as hex shows every byte once, in order, on lines labelled with the offset of their first byte. A date-time text from 1970 to 2099 is read as the epoch second it names, impossible fields are refused, and a rendered timestamp shows the calendar time of its second.',
 ['inputs'], 'all format arguments and output lengths, all buffers, all date-times from 1970 to 2099',
 'Tests format a few values; overflow, length boundaries and calendar edges (leap days, month ends) are not sampled.',
 SB + ['CppPotpourri.cpp'], [('printf-style append', 'StringBuilder.cpp: concatf()'), ('hex dump', 'StringBuilder.cpp: printBuffer()'), ('timestamps', 'CppPotpourri.cpp: stringToTimestamp()')])
prop('C07', 'A ring buffer is a bounded FIFO with exact accounting',
 'Elements leave a ring buffer in exactly the order they entered, each once; an insert beyond capacity is refused and changes nothing, a read from an empty buffer gives nothing, and the count, vacancy and capacity always agree. Peeking (at the head or by index) shows the element that the same number of reads would give without consuming it, and batch operations move exactly as many elements as they report. Clearing empties it and no slot is ever leaked or read past its end.',
 ['histories'], 'all interleavings of inserts, reads, peeks, batch operations and clears, over all capacities and element sizes, past any number of wrap-arounds',
 'The tests walk one capacity once or twice around.',
 ['RingBuffer.h'], [('head/tail arithmetic', 'RingBuffer.h')])
prop('C08', 'A linked list keeps order and membership under any edits',
 'After any sequence of insertions at the end or at the head, removals from the head, by position or by value, and clears, the list holds exactly the elements of the same edits on an ordinary sequence, in order; removal by value removes every occurrence. Index access, membership and size agree with that sequence, operations on absent elements or positions change nothing and say so, and no node is leaked or freed twice.',
 ['histories'], 'all edit histories, duplicates and boundary positions included',
 'Tests perform few removals and only on chosen positions.',
 ['LightLinkedList.h'], [('node chain', 'LightLinkedList.h')])
prop('C09', 'A priority queue serves by priority, and first-come among equals',
 "Dequeuing always gives the element of highest priority, and among equals the one that was enqueued earliest; no element is lost, duplicated or invented. Raising an element places it behind its new equals if it has to overtake others, lowering one places it ahead of its new equals, recycling moves the head to the rear at the rear's priority, and conditional inserts, removals by position and removals by value (of all occurrences) affect only the element concerned. Reported insert positions, reads by position, membership, priority look-ups and size agree with that order at all times.",
 ['histories'], 'all histories of inserts, priority changes, recycling, removals and dequeues with colliding priorities and values',
 'Tests use few elements, mostly of distinct priority.',
 ['PriorityQueue.h'], [('sorted node chain', 'PriorityQueue.h')])
prop('C10', 'An element pool never hands out one element twice',
 'An element pool lends each of its preallocated elements to at most one holder at a time, and lends elements of the pool for as long as any is free; beyond that it lends separately allocated elements, which are destroyed when given back. Elements given back to the pool become available again, membership of the pool is told exactly, and the counts (available, overdrawn, freed, low-water mark, capacity) are exact. The content of a lent element is touched by nobody else, and no element is lost, lent twice or leaked.',
 ['histories'], 'all sequences of loans and returns, foreign and double returns included, for all pool sizes',
 'There is no unit test for the pool.',
 ['ElementPool.h'], [('free list', 'ElementPool.h')])
prop('C11', 'The state machine visits its planned route, in order, and only as allowed',
 'A state machine passes through exactly the states that were planned, in the planned order, with appended states last and prepended states next; its previous and current state are always the last two it stood in. A plan with an undeclared or invalid state is refused as a whole, one that is too long is truncated to the room there is, and an empty one or one without room is refused. An advance without a plan, or one which the machine refuses to enter, leaves plan and position unchanged, and a slowdown or a lockout keeps the machine waiting for exactly the longer of the two, also if the clock wraps meanwhile. The questions about the plan (next, planned, stable) and the printed plan agree with it, and a reset drops the plan.',
 ['histories', 'schedules'], 'all histories of planning, polling, refusal and delay, across clock wrap-around',
 'The tests drive one machine along one scripted route.',
 ['FiniteStateMachine.h'], [('planned route', 'FiniteStateMachine.h'), ('lockout timer', 'FiniteStateMachine.h')])
prop('C12', 'The sequencer runs every requested step once, after its dependencies',
 'A step of an asynchronous sequence is dispatched only when it was requested and all steps it depends on have passed, and it is polled only after it was dispatched; once it completes it is not dispatched or polled again until it is reset, and a dispatch or poll that asks for a retry is retried. A request includes all steps that the requested ones depend on, directly or not. A sequence is reported as fulfilled exactly when every requested step has passed and as completed when each has completed, failed steps are reported as such and only those, the number of transitions reported is right, and an exported state can be imported again. Every requested step that can run does run under continued polling.',
 ['schedules', 'histories'], 'all dependency graphs, request and reset histories, and all outcomes and durations of steps',
 'The tests use one fixed graph with few outcomes.',
 ['AsyncSequencer.cpp', 'AsyncSequencer.h'], [('dependency masks', 'AsyncSequencer.cpp: poll()')])
prop('C13', 'Scheduled work runs at its time, as many times as asked, and never again',
 'Under any pattern of ticks and service calls, an enabled schedule that was added executes at the first service after a tick at or past its due time, in order of coming due and once per due time, and its next due time is one period after the start of that execution; it does not execute while disabled or after its recurrences ran out, and recurs indefinitely if asked to. Delays, enabling, disabling and changes of period and recurrence take effect as reported, also when the work itself makes them or ticks the scheduler, and work of one schedule does not change the due time of another. Adding a schedule twice or beyond the capacity is refused. A jitter probe records how far from its due time each execution after its first was. Executions, service calls and dead time are counted as they happened, also across wrap-around of the clock (for periods below half of its range).',
 ['schedules', 'histories'], 'all histories of schedule edits interleaved with service calls at arbitrary times, including clock wrap and late service',
 'Tests rely on real time and few schedules.',
 ['TimerTools/C3PScheduler.cpp', 'TimerTools/C3PScheduler.h'], [('due-time bookkeeping', 'TimerTools/C3PScheduler.cpp')])
prop('C14', 'Timers, stopwatches and time differences are right across clock wrap-around',
 'A timeout expires exactly when its period has elapsed since it was last reset, reports the exact time remaining until then and none thereafter, expires at once when triggered and always when its period is zero, even if the clock wraps in between. A stopwatch counts its measurements and reports their last, smallest, largest, total and mean duration exactly as recorded, and reports a stop without a start as such. Differences between two readings of the clock, to the past and to the future and at every integer width, are right modulo the width.',
 ['inputs', 'schedules'], 'all pairs of clock readings, all periods, and all sequences of starts, stops and polls',
 'Tests run on a real clock which never wraps during a test.',
 ['TimerTools/TimerTools.h', 'TimerTools/StopWatch.cpp', 'CppPotpourri.h', 'CppPotpourri.cpp', 'TimerTools/C3PTrace.cpp'], [('wrap-safe subtraction', 'CppPotpourri.h'), ('period markers', 'TimerTools/TimerTools.h')])
prop('C15', 'UUIDs compare, copy, print and parse consistently',
 'Comparison of UUIDs gives zero exactly for equal byte contents, copying makes them equal and changes nothing else, and the printed form is the canonical one and parses back to the same UUID, whatever its case and punctuation. Parsing arbitrary text takes its hex digits in pairs for at most 16 bytes, never reads past the text and leaves the bytes that it does not cover as they were; generated UUIDs carry the version and variant of a random UUID, and printing into a buffer that is too short writes nothing.',
 ['inputs'], 'all UUID values and all texts',
 'Tests use random values but few malformed texts.',
 ['uuid.cpp', 'uuid.h'], [('parse and print', 'uuid.cpp')])
prop('C16', 'Enumeration tables and flag containers answer exactly what was declared',
 'Looking up an enumeration by value gives exactly the first declared entry (its text, its context, its validity), or the failure answer when there is none; looking it up by name, in any case, gives the first entry of that name, or else the last declared catch-all, and says whether it was found. Exported keys are those of the valid entries, in order. A flag container reads back for each bit exactly the last value assigned to it, multi-bit sets, clears, flips and masked reads change and read only the given bits, and raw access shows the same word. Unit strings and line endings are named by the symbols and words of their parts, in order.',
 ['inputs', 'histories'], 'all tables, all look-ups, all flag histories',
 'Tests check few flags and one table.',
 ['EnumWrapper.h', 'FlagContainer.h', 'EnumeratedTypeCodes.cpp'], [('definition list search', 'EnumWrapper.h'), ('bit operations', 'FlagContainer.h')])
prop('C17', 'A typed value survives every conversion that can represent it',
 'Storing a value of any supported type and reading it back as the same type gives the same value. Reading a number as another numeric type either gives the numerically same value (to BOOLEAN: whether it is zero; to a floating-point type: the nearest value) or, exactly when an integer type can not hold it, reports failure and writes nothing, and reads never write past the size of the requested type. Setting from another type, from another typed value or by reference obeys the same rule, and a refused one changes nothing; the change count advances exactly on success. The declared conversion risk agrees with what happens. Text rendering shows integers, booleans and strings exactly. Strings and buffers are copied, lent or owned as documented, replacing owned content releases it once, and vectors are set only from vectors of their type or a buffer of their size.',
 ['inputs', 'histories'], 'all type pairs and all values, extremes included, and all histories of reassignment',
 'Tests check random values for chosen type pairs.',
 ['C3PValue/C3PValue.cpp', 'C3PValue/C3PType.cpp', 'C3PValue/C3PValue.h', 'C3PValue/C3PType.h'], [('per-type conversion', 'C3PValue/C3PType.cpp: set_from()/get_as()')])
prop('C18', 'Values and key-value maps survive serialization to CBOR and back',
 "A C3PValue of any integer type, boolean, float, double, text (char pointer or string builder), byte buffer or vector of three numbers, and a KeyValuePair map of such values nested up to 24 levels deep, serializes to one well-formed CBOR item: integers, texts and buffers of any content and length in shortest form, reals with their exact bits, vectors tagged with their type, and a map's entries in their order with repeated keys kept. Entries of a map that have no key or an empty key, and nested maps left with no entry, are not writable: the former are left out, and a serialization that fails writes nothing. Serializing appends to the output without changing what it held, and does not change the value: doing it again gives the same bytes. Reading the bytes back with C3PValue::deserialize() or C3PValueDecoder, however the input is cut into pieces and with other records following, consumes exactly that item and gives values that are equal to the ones written, in kind, key, order and exact value (integers by their value, not their width), and that serialize to the same bytes again; KeyValuePair::unserialize() gives the same for maps that have no maps in them. Nothing that was read back depends on the input's memory, and all of it is released with the value.",
 ['inputs', 'histories'], 'all values of all packable types, all map shapes, all concatenations and fragmentations of input',
 'Tests round-trip a few maps.',
 ['C3PValue/C3PValue.cpp', 'C3PValue/KeyValuePair.cpp', 'C3PValue/C3PType.cpp', 'cbor-cpp/cbor.cpp'], [('encoder', 'C3PValue/C3PType.cpp'), ('decoder', 'C3PValue/C3PValue.cpp: deserialize()')])
prop('C19', 'Hostile or truncated CBOR never corrupts, hangs or is misread as complete',
 "For every byte string, however it is cut into pieces, C3PValue::deserialize() and C3PValueDecoder::next() return in bounded time and with bounded stack (nesting beyond a limit is refused), touch no memory but the input, leak nothing, and give a value only if the input starts with one whole well-formed definite-length item. A truncated item, a length that exceeds the input (up to 2^64-1), a reserved or indefinite length, a map key that is not text, a negative integer below INT64_MIN, a half float or unassigned simple value, or a vector of the wrong size gives no value, at any depth, and leaves the input as it was. An item made of integers, text, buffers, floats, doubles, booleans, tagged vectors, and non-empty arrays and maps of those (in lengths that need not be shortest, nested up to 28 deep) gives exactly the values it encodes; unknown tags, nulls in maps and empty collections may be refused or not. A value that is given consumes exactly its item and nothing that follows. When the decoder is told to consume what it can't parse, what is left is still the tail of the input. After a refused input the same decoder reads good input correctly. KeyValuePair::unserialize() is as safe for every input: in bounds, without leaks, never with more values than bytes; and of a map without maps and arrays in it, each entry that can be had is found, once, under its own key, whatever the others are.",
 ['inputs'], 'all byte strings, in particular truncations, length lies, deep nesting and mutations of valid encodings',
 'Tests decode only well-formed input.',
 ['C3PValue/C3PValue.cpp', 'C3PValue/KeyValuePair.cpp', 'cbor-cpp/cbor.cpp'], [('length checks', 'C3PValue/C3PValue.cpp'), ('decoder state machine', 'cbor-cpp/cbor.cpp')])
prop('C20', 'The CBOR encoder and event decoder follow the CBOR standard',
 'The encoder writes exactly the shortest-form bytes of the CBOR standard for every integer of every width and sign, byte string, text string, array and map header, tag, simple value, boolean and float, and the RFC 8746 tag and bytes for every typed array of numbers; an empty typed array is refused and writes nothing. A fixed output never holds more than its capacity, keeps every item that fitted before the first that did not, and its size is the number of bytes it holds. The event decoder reports for any input exactly the items that its bytes encode, in order and with their exact values, shortest form or not (half-precision numbers are handed on as simple values of 16 bits): whatever the source (a block of memory, a string builder that is kept, consumed or deleted as it is read), and in any number of pieces, reporting an item as soon as its last byte arrives and not before. Reserved and indefinite-length forms, and lengths beyond 31 bits or held in 8 bytes, are reported as one error, after which nothing more is reported and the decoder says that it failed; it says so in no other case. A source that is kept is left unchanged.',
 ['inputs', 'histories'], 'all item values, all nestings, all fragmentations of the input',
 'Tests encode a few values and check no bytes against the standard.',
 ['cbor-cpp/cbor.cpp', 'cbor-cpp/cbor.h'], [('type/length writer', 'cbor-cpp/cbor.cpp'), ('decoder state machine', 'cbor-cpp/cbor.cpp: decoder::run()')])
prop('C21', 'A list of keyed values keeps every entry, in order, under its key',
 'A list of values, keyed or not, holds after any sequence of appends, links, drops, cuts, key changes and value changes exactly the entries given to it, in order, each with its last key and its last value: append() and link() add at the end of the list whichever member they are called on, drop() takes out exactly one entry and leaves the others (moving the head if it was first), unlink() cuts the list before the named entry, and both refuse a stranger and change nothing. A look-up by key, from any entry on, finds the first entry with exactly that key or nothing, and reading through it gives its value or -1 without touching the destination; a look-up by index gives that entry or nothing; counting, listing the keys, stepping to the next keyed entry, and printing (nested maps included) agree with the content. Keys given as mutable text are copied, and constant ones are not. A change of value is noticed once by each observer. Deleting or destructing an entry frees it with its own key, owned value, and the owned entries that follow, and leaves borrowed entries and values to the caller.',
 ['histories'], 'all histories of list edits and look-ups, with colliding, empty, long and missing keys, and owned and borrowed entries',
 'Tests run one scripted scenario.',
 ['C3PValue/KeyValuePair.cpp', 'C3PValue/KeyValuePair.h'], [('key search and chain edit', 'C3PValue/KeyValuePair.cpp')])
prop('C23', 'Base64 encoding and decoding are standard and inverse in any chunking',
 "Whatever bytes are pushed into the encoder, however they are fragmented, come out as exactly the standard Base64 text of each push (or of each chunk of the set length, one per push), padded as the standard says, and the decoder accepts exactly the texts that are valid Base64 and emits exactly the bytes that they stand for; any other text (of a wrong length, with a foreign character, or padded elsewhere than at its end) is refused whole, with nothing emitted. Encoding then decoding gives back the original bytes. A push is refused, with the caller's buffer unchanged and nothing lost, when it is null, empty or shorter than the chunk, when its result doesn't fit downstream, or when the next stage rejects the result; it is taken when it is no longer than the reported availability, which is the most whose result fits, and the return code says whether all, a part or nothing of the buffer was taken.",
 ['inputs', 'histories'], 'all binary contents, all chunkings, and texts with stray characters',
 'Tests push random buffers in a few chunkings.',
 ['Pipes/BufferAccepter/Base64/C3P_B64.cpp'], [('three-to-four state', 'Pipes/BufferAccepter/Base64/C3P_B64.cpp')])
prop('C24', 'Buffer pipelines deliver every accepted byte once, in order',
 "For every chain or tree of buffer stages (limited sinks, forks, pass-through pipes, codecs, the metered test source), the bytes a source is relieved of are always a prefix of those it offered, and every sink receives exactly these bytes from the point it was attached, in order, each once, whatever the sizes of the pushes, the free space, and even if a sink takes less than it promised. A push takes as much as fits at every attached sink, leaves the rest with the caller unchanged, and its return code says whether all, a part or nothing was taken; null and empty pushes are refused. The availability reported is the least free space of the sinks beyond, and everything is delivered once there is room. Typed values pushed into a pipe appear there wholly, in order, or, if they don't fit, not at all and with an error, and the bytes are counted; fed with the stream in any pieces, the receiving end delivers each value exactly once, in order, as soon as it is complete, and leaves an incomplete or overlong one with the caller. The test source reports a breach of the contract exactly if the stage beyond it took an amount its return code doesn't fit, its polling ends when nothing moves any more, and the test sink counts its calls and the pushes that met or missed the length and terminator it was told to expect; a reset clears either.",
 ['histories', 'fault_sequences'], 'all chunkings, sink limits and back-pressure patterns',
 'Tests use unlimited sinks mostly.',
 ['Pipes/BufferAccepter', 'Pipes/BufferAccepter/BufferAccepter.h'], [('claim protocol', 'Pipes/BufferAccepter/BufferAccepter.h')])
prop('C25', 'Multi-string search finds what a naive search finds',
 "A search for several strings at once, over any range of a text fragmented in any way, reports in order, each once, the occurrences of its needles within that range: each time the first at or after the end of the one before, and the longest of those that begin there, with its exact position and needle; it reports none that isn't there, and ends without a report only if there is none left, or if the text ends in a part of a needle that begins before the end of that match; it does so if all that is left is the beginning of a longer needle. It counts the reports, leaves the text unchanged, says whether it is running, and refuses ranges that are not in the text, null or empty terms, terms beyond its capacity, and a second search before a reset; a reset clears the results and keeps the needles.",
 ['inputs'], 'all sets of needles and all texts',
 'The existing test does not pass and samples few texts.',
 ['MultiStringSearch.cpp', 'MultiStringSearch.h'], [('search plan', 'MultiStringSearch.cpp')])
prop('C26', 'Time series statistics are those of the window, exactly',
 "A time series of any numeric type and depth, over its own or the caller's memory, holds the last values fed to it in a ring, one by one or in bulk: counts, the next index, the newest value, which sample a memory index holds (none beyond the window), copies of memory ranges and of the most recent values agree with what was fed. When its window is full, the minimum, maximum, mean, RMS, standard deviation, median (integer extremes included) and signal-to-noise are those of exactly the values in it, whenever they are read; before that, after a purge and after a change of depth they are zero. It is dirty exactly if fed since it was last read or marked clean. Changing the depth restarts it, a depth that cannot be held or external memory is refused, and depth zero de-initializes it; no reading is stale, no access is outside its memory, nothing leaks. A full series survives a CBOR round trip with its type, depth, total, name, units and values, and the parsed value owns it.",
 ['histories', 'inputs'], 'all value sequences, all depths, integer extremes included, and all interleavings of feeding with reads',
 'Tests feed random values to a few depths.',
 ['TimeSeries/TimeSeries.h', 'TimeSeries/TimeSeries.cpp'], [('circular sample window', 'TimeSeries/TimeSeries.h')])
prop('C27', 'Sensor filters output the declared statistic of the window',
 'A sensor filter of any numeric type, or of three-axis vectors, and of any depth, holds the last values fed to it, one by one or in bulk. Its output after each is the last value (RAW), the running average that gives the new value the weight of 1/depth (MOVING_AVG, negative values and integer extremes included), or the median of the full window (MOVING_MED), per axis; when its window is full its minimum, maximum (for vectors, the shortest and longest), mean, RMS, deviation, median and signal-to-noise are those of exactly the values in it, whenever they are read, and before that minimum, maximum and mean are zero. Counts, next index, fullness and the mark of unread output agree with the feeding. A purge or a change of depth restarts it, a change of strategy restarts its output, and a depth that cannot be held or external memory is refused; a filter without depth refuses samples. Its CBOR form lists its description and its values, oldest first. No access is outside its memory, nothing leaks.',
 ['histories', 'inputs'], 'all value sequences, depths and strategies',
 'The filter is not covered by passing unit tests.',
 ['TimeSeries/SensorFilter.h', 'TimeSeries/SensorFilter.cpp'], [('circular sample window', 'TimeSeries/SensorFilter.h')])
prop('C28', 'The console runs each entered line once, with the right arguments',
 "Whatever is typed at the console, however it is cut in pieces, each line ended by the chosen terminator (zero byte, CR, LF or CRLF) and stripped of its blanks is executed once, in the order entered: the handler of the first command with that name, in any case, or else with that shortcut letter, is called with exactly the space-separated words after it; text not yet terminated waits, a backspace erases the last waiting character wherever it falls in a push, and input beyond the console's limit is dropped. A line naming no command or with too few arguments calls none and gives an error message with the command's help. The recall history keeps exactly the last lines that were run (and failed ones on request) up to its depth. Answers, echo, prompts, help on failure and unsolicited prints come out once each and in order, at the output or kept for it while it refuses or is absent, and the built-in help and configuration commands show and change what they say. No input makes the console touch memory out of bounds or leak.",
 ['inputs', 'histories'], 'all input streams, cuts, line lengths, command tables and line terminators',
 'Tests push a few lines whole.',
 ['Console/C3PConsole.cpp', 'Console/C3PConsole.h'], [('line splitter', 'Console/C3PConsole.cpp'), ('command look-up', 'Console/C3PConsole.cpp')])
prop('C29', 'A link message survives its wire format',
 'Every link message header (code, flags, identifier, payload length) and payload that can be serialized is written as the documented bytes, which parse back to the same fields and payload, at every payload size up to the protocol limit of 2^24-1 bytes in all; payload lengths beyond it are refused and change nothing. The header, payload and message lengths reported agree with the bytes on the wire, and a message received whole or in pieces takes exactly its own bytes and leaves what follows. A header is reported valid exactly when its reserved bits are clear, its code is known, its identifier and length fields are no wider than needed, its length covers a header, its check byte fits, and it has an identifier just when a reply is involved (sync excepted). Bytes that cannot be a header (no length field, a length shorter than the header, a wrong check byte) are refused, an unfinished header or message is reported as such, and so a header with its code, low length byte or check byte corrupted is never taken for a valid one. A reply keeps the code and identifier of the message it answers, and carries its own payload.',
 ['inputs'], 'all header fields, all payload sizes and contents, all single-byte corruptions of the header',
 'Tests use few payload sizes.',
 ['M2MLink/M2MMsgHdr.cpp', 'M2MLink/M2MMsg.cpp', 'M2MLink/M2MLink.h'], [('header codec', 'M2MLink/M2MMsgHdr.cpp')])
prop('C30', 'Two linked parties exchange each message once, with its reply',
 "Over a transport that loses nothing but may cut the byte stream anywhere, delay it, or refuse data at times, two links find sync and establish a session (each application is told), whichever end starts first. Once both are established and idle, every message an application sends is handed to the other application exactly once, with its payload, identifier, and reply flags, and in the order sent unless the transport refused data. Messages up to exactly the stated size limit pass, and a new link offers room for that much. Replies and acknowledgements (and replies that ask for a reply in turn) reach the end that asked; a message that wants a reply and gets none (even if the other end asks something under the same number) is delivered four times in all, then given up and counted, and one answered at a later delivery is not sent again. A full outbound queue refuses further messages with its own code, and works again once drained. Log lines reach the counterparty's log when it allows them. A link that has a message to send, or has got a part of one, isn't idle. Once both are idle, each knows the identity of the other if that has one, and only then. What the console says of a link is so, and what it orders (a log line, a query of identity, sync, a verbosity) is done; what it doesn't know it refuses. Keep-alives interfere with none of it. A hangup by either or both ends, orderly or abrupt, ends with both ends hung up, and an orderly one even amid traffic delivers what was accepted before it; a hung-up link refuses to send, log, or hang up, and can be reset and established again.",
 ['schedules', 'histories'], 'all fragmentations and delays of the transport, all message sizes and all interleavings of polling of the two ends',
 'Tests run one exchange with a fixed transport.',
 ['M2MLink/M2MLink.cpp', 'M2MLink/M2MMsg.cpp'], [('sync, framing, message queues', 'M2MLink/M2MLink.cpp')])
prop('C31', 'A link survives garbage, loss and hostile peers, and resynchronizes',
 "For every byte stream a peer may send, in whatever pieces, and whatever the application does meanwhile, a link touches no memory out of bounds, leaks nothing, and gets no further than a few messages per poll. It hands the application (or a service, which gets only the messages of its own slot) nothing but whole messages: with a header that passes every check, no longer than the link's limit, with exactly the payload that followed the header, in the order and as often as they came. Every message it emits is well formed, and every reply it emits answers a message that came. Log lines are written only if that is allowed. The counterparty's identity, once known, is one that arrived, and stays the same to the end of the session. A forced hangup takes a link in any session state to the hung-up state at once, and reset() works from that state only. With keep-alives on, whatever was lost, repeated, invented or damaged in the transport, or sent by a hostile peer before, two ends over a clean transport get back (within a bounded time) to the established and idle state unless a hangup came of it, a hung-up session can be reset and established afresh, and messages sent thereafter are each delivered exactly once.",
 ['inputs', 'fault_sequences', 'schedules'], 'all byte streams, and all transient patterns of loss, insertion and corruption',
 'Tests inject no hostile bytes.',
 ['M2MLink/M2MLink.cpp', 'M2MLink/M2MMsgHdr.cpp'], [('sync recovery', 'M2MLink/M2MLink.cpp'), ('header validation', 'M2MLink/M2MMsgHdr.cpp')])
prop('C33', 'Identities survive serialization and exchange, and malformed ones are refused',
 'An identity of any name, UUID and flags is serialized, into a buffer that has room for its stated length, as exactly that many bytes of the documented layout (without the flags that must not be persisted), and into a shorter one not at all. Those bytes, alone or within a map, parse back to an identity of the same type, name, flags and UUID, which prints and serializes the same and is found by its name and type; a name that does not fit the length field is cut. Any byte string offered as a serialized identity, alone or within a map, is read without touching memory out of bounds or leaking, and yields an identity exactly if it is a well formed one. Two links that were given identities tell each other, and a link knows exactly its present counterparty; an identity lent to a value, map or link is neither changed nor freed.',
 ['inputs'], 'all identity names, UUIDs and flags, and all byte strings as input',
 'Tests cover two identities.',
 ['Identity/Identity.cpp', 'Identity/IdentityUUID.cpp'], [('identity codec', 'Identity/Identity.cpp')])
prop('C34', 'A stored configuration record loads back exactly or is refused',
 'A configuration record holds exactly one value of the planned type for each key of its plan. A value set is the value read back, by name or by number, as its own type or as any integer type that can hold it. An unknown key is refused with -2 and an impossible conversion with -3, changing nothing, neither the record nor the target of the read. A record saved under any name and tag yields an image that holds the name (cut to 16 characters), the tag, its length, and exactly the values that are set; the record is dirty from the first change after that on, and not before. Any record of the same plan, used or new, loads the image, from a buffer or string, with whatever follows it, and then has the same value for every key that was set. An image of which any byte of the payload, tag, version, type, format, length or hash is altered, that is cut, has a byte missing or added within, has the payload of another, or is of another tag or type, is refused with the documented code; so is an image of another list or whose values do not fit the planned types. A refused load changes nothing: the record has the same values and can be read and saved. A plain record (of another kind, with a body of any length) behaves likewise, and keeps the time of its creation. Images made by others with keys in any order, missing, or unknown, load what is planned. No image makes the load touch memory out of bounds or leak.',
 ['inputs', 'fault_sequences', 'histories'], 'all record contents, all single corruptions and truncations of the stored image, all storage faults',
 'Tests save and load one record without faults.',
 ['Storage/SimpleDataRecord.cpp', 'Storage/RecordTypes/ConfRecord.cpp', 'Storage/Storage.h'], [('descriptor and hash', 'Storage/SimpleDataRecord.cpp')])
prop('C35', 'Drawing on an image changes exactly the right pixels and no other memory',
 "For every image size, pixel format (4-bit grey excepted), orientation, mirroring and drawing call with any coordinates, nothing outside of the image's own memory is touched, lent memory of exactly the needed size included, every pixel that isn't part of the shape keeps its value, and every pixel of it that is within the image takes the colour, cut to the format. Coordinates are taken modulo 2^16, such that the last ones lie left of and above the image. A pixel set reads back as set and is stored where and how display drivers expect it (big endian for 16 and 24 bits, by pages for monochrome); a pixel off the image isn't set, is reported so, and reads as 0. Lines, rectangles, round rectangles, circles, ellipses at any angle, triangles, bitmaps and text in any font and size, filled or not, consist of the pixels that their geometry calls for, text advances the cursor and wraps as documented, and the bounds reported for a text enclose exactly its characters. Conversions between formats of colour and to grey keep each channel's leading bits and the luminance. An image in its own memory can be given another size or format, one in lent memory only what fits it; a refusal changes nothing, and memory is freed exactly if it is the image's own. An image serialized, alone or in a map, and deserialized is the same image; any other bytes are taken exactly if they are well formed, and refused otherwise.",
 ['inputs', 'histories'], 'all sizes, formats, orientations and coordinates, off-image ones included',
 'Tests draw within bounds on one format.',
 ['Image/Image.cpp', 'Image/Image.h'], [('pixel addressing', 'Image/Image.cpp'), ('clipping', 'Image/Image.cpp')])
prop('C37', 'Every bus job gets exactly one completion, in queue order',
 'Every job accepted by a bus adapter is started at most once per submission and called back exactly once, with its final state and fault, in queue order (priority first, then order of arrival); a job refused because the queue is full is reported as refused and called back once as flushed. Purging the queue or the active job, or the jobs of one client, completes exactly the affected jobs as flushed and leaves the others queued in order; a recycled job joins the queue again. Jobs of the preallocated pool return to it exactly once and are issued again with no trace of their previous use, transient jobs and owned buffers are freed once, client-owned jobs are left idle, and the transfer statistics are exact.',
 ['schedules', 'histories', 'fault_sequences'], 'all arrivals, durations, failures, recycling requests, purges and queue limits',
 'No passing unit test drives an adapter.',
 ['BusQueue/BusQueue.h', 'BusQueue/BusQueue.cpp', 'BusQueue/SPIAdapter.cpp', 'BusQueue/I2CAdapter.cpp', 'BusQueue/I2CDevice.cpp'], [('work queue and callback queue', 'BusQueue/BusQueue.h')])
prop('C38', 'The logger delivers every wanted line once, in order, and no other',
 'For every history of log calls, verbosities, decorations and sinks, every message logged at a level no higher than the verbosity in force reaches the sink exactly once, in order, with its text intact and one line ending, also when the sink takes only a part, refuses for a while, is replaced, or is absent and the log is fetched instead; a message above the verbosity reaches it never, and is left to the caller. The decorations - time, severity, and the tag, right-aligned to the longest tag so far and cut to 24 characters - appear exactly when enabled, and formatted messages of any length are formatted exactly.',
 ['histories', 'fault_sequences'], 'all log histories, verbosities, decorations and sink refusal patterns',
 'The logger has no passing unit test.',
 ['C3PLogger.h'], [('backlog', 'C3PLogger.h')])
prop('C39', 'The GPS parser reports exactly what valid sentences say, and nothing else',
 'For every stream of NMEA text, however cut in pieces (sentences are read as soon as more than 140 bytes are pending), each complete supported sentence with a right checksum (or, ended by a carriage return, without one) updates the position report with exactly the values it carries: RMC the place and the UTC time, GGA the satellites and altitude in mm, GSA the dilutions of precision, VTG the bearing and the speed in mm/s, and the callback is given the report. GLL, GST and GSV are counted only. A field left empty never leaves a wrong value. A sentence with a wrong checksum or malformed fields changes nothing and is counted as rejected. No input, NUL bytes and endless lines included, makes the parser touch memory out of bounds, leak, or lose a following valid sentence. Distances between places are right to float precision on the whole globe.',
 ['inputs', 'histories'], 'all streams, cuts, corruptions and field values',
 'Tests do not cover the parser in the stable set.',
 ['Pipes/BufferAccepter/GPSWrapper/GPSWrapper.cpp'], [('sentence splitter and checksum', 'Pipes/BufferAccepter/GPSWrapper/GPSWrapper.cpp')])
prop('C40', 'Vector and quaternion arithmetic obeys its algebra',
 'Vector sums, differences, negatives, scalings, dot and cross products, lengths, normalizations, projections, reflections and angles agree with their mathematical definitions on every finite input within rounding (integers: exactly wherever the results are representable), no angle is ever NaN, identities such as the orthogonality of the cross product hold, and equality, assignment and setting are exact. Quaternions are constructed and set exactly, and are the identity by default; normalization gives the same direction with length 1; setDown() of any unit vector, straight up and down included, gives the rotation by a unit quaternion, about a horizontal axis, that turns that vector to the vertical; and they print exactly.',
 ['inputs'], 'all finite component values within a bounded exponent range, all integer component types',
 'Tests check few vectors; quaternions are not tested.',
 ['Vector3.h', 'Quaternion.cpp', 'Quaternion.h'], [('arithmetic', 'Vector3.h'), ('arithmetic', 'Quaternion.cpp')])
prop('C41', 'Generic helpers hold for all arguments',
 'The minimum, maximum, swap, absolute difference, saturation and wrapped-difference helpers give their mathematical result for all arguments of all integer widths for which it is representable. A reference count follows takes and releases exactly, is never negative nor above its limit, and reports the last release. The seeded generator repeats the same stream for the same seed and fills exactly the bytes asked for, and its integers and booleans are those of that stream, and the random-art picture is complete for digests of any length.',
 ['inputs', 'histories'], 'all argument values and widths',
 'Tests sample few values.',
 ['CppPotpourri.h', 'CppPotpourri.cpp'], [('inline helpers', 'CppPotpourri.h')])

prop('C42', 'A UART passes every byte once, in order, both ways',
 'Bytes written to a UART by any of its calls leave on the wire exactly once and in order, and each call takes as many bytes as there is room for and reports that number, leaving the rest with the caller. Bytes arriving on the wire are read, or pushed to the registered consumer as it has room for them, exactly once and in order, with nothing lost that the receive buffer had room for. Pending counts are exact, and a UART that is down or incapable of a direction takes nothing.',
 ['histories', 'schedules'], 'all interleavings of writes, reads, wire activity, consumer back-pressure and resets, and all buffer sizes',
 'The unit tests never run a UART.',
 ['BusQueue/UARTAdapter.cpp', 'BusQueue/UARTAdapter.h', 'RingBuffer.h'], [('transmit and receive rings', 'BusQueue/UARTAdapter.cpp')])

prop('C43', 'A trace keeps the latest points in order and times each path between its marks',
 'While recording, a trace keeps the latest points it was given, up to its capacity, in order and with their time and place, and nothing while it does not record. For each path it keeps the first start mark since the last stop, and a stop mark adds exactly one measurement, from that start to the stop, to the statistics of the place where it stopped; a stop without a start adds none, and paths do not affect each other. The exported text shows all of that (that of the paths also as CBOR), and a reset empties the trace. A start at microsecond zero is as good as any other.',
 ['histories'], 'all histories of points, starts and stops on all paths and places, recording toggles, resets and exports, also across clock wrap',
 'The existing tests do not exercise the trace at all.',
 ['TimerTools/C3PTrace.cpp', 'TimerTools/C3PTrace.h'], [('trace word decoding and path timing', 'TimerTools/C3PTrace.cpp: leave_trace(), recordStop()')])

prop('C22', 'A time series or stop watch sent as CBOR is the same at the receiver',
 'A time series is encoded as the one tagged map that its documentation calls for: its sample type, window and total, its name and units if it has any and, once its window is full, the samples of the window, oldest first. Read back, alone or from a map among other values, it has the same type, name, units, window, total and samples, and both ends agree on values and extremes also after further samples. A stop watch likewise keeps its tag and all of its figures. Whatever map another peer sends, with keys in any order, keys that nobody knows, integers of any width and values of unusable types, is taken for what is usable in it: an unusable value counts as a missing one, a series without a usable sample type is none, and without a usable window it has no samples. No map, however damaged, makes the reader touch memory out of bounds or leak.',
 ['inputs', 'histories'], 'all sample types, windows, samples, names, units, key orders, and all damaged encodings',
 'The existing test sends one series of one type.',
 ['TimeSeries/TimeSeries.cpp', 'TimerTools/StopWatch.cpp', 'C3PValue/C3PValue.cpp'], [('time series codec', 'TimeSeries/TimeSeries.cpp: C3PTypeConstraint<TimeSeriesBase*>'), ('stop watch codec', 'TimerTools/StopWatch.cpp: C3PTypeConstraint<StopWatch*>')])

prop('C36', 'Image tools draw what they were asked for, within the bounds given',
 "An image scaler copies the region it was given, of any image, format, orientation and size, to its place in the target: pixel by pixel at a scale of 1, each pixel as a square of n by n at a scale of n, and every nth pixel of every nth row at a scale of 1/n (a last, partial one may be left out), each colour converted to the target's format, and changes nothing else in either image. A region that isn't within the source, or wouldn't fit the target, however large its figures, an image without memory and a scale that isn't positive are refused, with the documented order of errors, and change nothing. Progress bars, zoom bars, compasses and graphs change no pixel outside of the rectangle they were given, however small it is, and draw in the colours given. The part of a bar that is filled is its fraction of the inner length, from the left or the lower end (a zoom bar: between its two fractions, in either order), the rest is empty, the border is around all, and the figure it was asked to show is written upon it where there's space for it. The needle's red tip points at the bearing, its white tail opposite. A vector's shaft ends at the projection of its components, its axes are those of its rectangle. A graph that fits into the image shows each visible datum at its column, scaled to the range of the visible data (zero included, by the rules of autoscaling), its curve is continuous, its accented datum is marked, and grid lines are where they're due; the labels it was asked for (the ranges, the last datum's value, and the accented datum's index and value) are written where they belong, within the graph, whatever the data and wherever the graph is; a graph that doesn't fit, or has no data, draws none.",
 ['inputs', 'histories'], 'all sizes, places, scales, fractions, angles, data and image formats',
 'The image tools have no test in the stable set.',
 ['Image/ImageUtils/ImageScalers.cpp', 'Image/ImageUtils/ImageUtils.cpp', 'Image/ImageUtils/ImageGraph.cpp', 'Image/ImageUtils/ImageGraph.h'], [('scaler', 'Image/ImageUtils/ImageScalers.cpp: ImageScaler::apply'), ('bars and needles', 'Image/ImageUtils/ImageUtils.cpp'), ('graphs', 'Image/ImageUtils/ImageGraph.cpp')])

prop('C44', 'Three-axis pipelines deliver each vector, transformed as each stage promises',
 "A vector pushed into a graph of TripleAxisPipe stages reaches each stage it is routed to exactly once per path, with its sense, and is never changed in the hands of the one who pushed it. An error figure arrives if, and only if, one was given (a filter hands on its last). A fork gives the same vector to its left and then its right side, whatever the left one returned, and returns 0, -1 or -2 for no, one or two sides that refused or are absent (accepting for later, 1, is no refusal). A convention stage hands on data and error by the permutation and inversion of its afferent convention, unchanged if that is undefined or equal to the efferent one (as it is by default), and returns -2 without an efferent, else what the efferent returned. A terminus takes vectors of its own sense only (0, else -1), stores data, error, time and count, calls its callback once with these, and is fresh if there is no callback or it returned nonzero, until it is read or reset to zero. A single filter feeds its own sense to a SensorFilter3 and emits that filter's output, with an averaged error if it averages, is fresh if no stage took the output, and relays other senses unchanged with the efferent's return code. An orientation filter emits roll and pitch, as the angles of the acceleration against the direction marked or set as up, with yaw 0, and is fresh until read if no stage took it. A compass gives the direction of the field, projected on the horizontal plane given by the acceleration (without which the unit is taken to be level), from the unit's forward axis, in radians, and true north as that plus the declination, wrapped to one turn; it calls its callback once per field vector, numbered. Printing a pipeline names each stage reached. Relay flags are kept per sense.",
 ['inputs', 'histories'], 'all graphs of stages, vectors, conventions and histories of reads and reconnections',
 'The tests of these classes are empty stubs.',
 ['Pipes/TripleAxisPipe/TripleAxisPipe.cpp', 'Pipes/TripleAxisPipe/TripleAxisPipe.h', 'Pipes/TripleAxisPipe/TripleAxisCompass.cpp', 'Pipes/TripleAxisPipe/TripleAxisOrientation.cpp'], [('routing and conventions', 'Pipes/TripleAxisPipe/TripleAxisPipe.cpp'), ('compass', 'Pipes/TripleAxisPipe/TripleAxisCompass.cpp: TripleAxisCompass::_apply_tilt_compensation'), ('orientation', 'Pipes/TripleAxisPipe/TripleAxisOrientation.cpp: TripleAxisOrientation::pushVector')])

prop('C46', 'A plot of binary data shows each byte in its place, and draws nowhere else',
 "A BlobPlotter's apply() draws each byte of its blob as one square of its own in the colour its styler gives that byte (heat and entropy maps: grey of the byte's value; explicit fencing: the colour of the last fence at or before the byte's offset, else black), within the rectangle it was given, and changes no other pixel. A linear plot goes left to right, row by row, with squares as large as still fit whole for every byte; a Hilbert plot follows the Hilbert curve in a field of 2^n by 2^n squares, n at least 1 and no larger than the blob needs, each of min(width, height) / 2^n pixels. A mapping array with room for two values per byte is filled with the offset of each byte's square within the rectangle; one too small isn't touched, nor is memory beyond it. apply() returns 0 if it drew, or there is nothing to draw, -1 if it can't (no styler or memory, or a rectangle that is empty or not within the image), -4 if the rectangle has fewer pixels than the blob has bytes, -5 if no whole square fits; where it draws nothing, the image is unchanged. A fence at an offset that already has one is refused (-1).",
 ['inputs', 'histories'], 'all blobs, rectangles, image sizes and formats, stylers and histories of changes to them',
 'No test covers these classes.',
 ['Image/ImageUtils/BlobPlotter.cpp', 'Image/ImageUtils/BlobPlotter.h'], [('linear plot', 'Image/ImageUtils/BlobPlotter.cpp: BlobPlotterLinear'), ('Hilbert plot', 'Image/ImageUtils/BlobPlotter.cpp: BlobPlotterHilbertCurve'), ('fences', 'Image/ImageUtils/BlobPlotter.cpp: BlobStylerExplicitFencing')])

prop('C45', 'User interface elements hear, draw and answer exactly what they should',
 "An event given to a GfxUIElement reaches only elements that contain its point (left and top edges inclusive, right and bottom exclusive) and aren't muted, each at most once, and stops at the first that claims it, children in the order of their addition. Hover, selection, identification and drag events go to the innermost element first and are always claimed; the element that gets one is entered in the change log with the event, is focused after HOVER_IN and not after HOVER_OUT, selected as it answered, and is told (IDENTIFY excepted). Other events go to the outermost first, and an inactive element and all within it ignore them. A draggable element begins dragging at DRAG_START, moves to the point of each drag event while it drags, and ends at DRAG_STOP. underPointer() is whether the last event that came to it was within. Moving an element moves all within it by as much. render() visits children before their parent, skips muted elements with all within, has each element drawn that was changed (by new place, size, margins, frames, children, unmuting, or on its own demand), that redraws always, or all if forced, gives their number, and draws frames as thick as the borders on the enabled sides, in the border's colour. The inside of an element is its rectangle less the margins and borders it was given. An element frees its children on destruction if, and only if, they are marked for that. A button toggles when released, or if momentary is pressed from touch to release, logs the change, and ignores events if inactive. A slider's value is the touched fraction of its inside (from the left, or bottom if vertical), in steps of 0.01 when scrolled, from 0 to 1; a zoom slider's mark is centred there as far as it fits within bounds, keeping its width, and widens or narrows by 0.005 at both sides when scrolled. Each change of value is logged as one. Of a tab bar's tabs, equal in width, at most one is pressed: the one selected last, touched last, or scrolled to, in a circle; of a tabbed pane's contents, the selected or touched tab's alone is active and drawn, without being forced.",
 ['inputs', 'histories'], 'all trees of elements, layouts, flags and histories of events and changes',
 'No test covers these classes.',
 ['Image/GfxUI.h', 'Image/GfxUI/GfxUI.cpp', 'Image/GfxUI/GfxUIKit.h', 'Image/GfxUI/GfxUIButton.cpp', 'Image/GfxUI/GfxUISlider.cpp', 'Image/GfxUI/GfxUITabBar.cpp'], [('event routing', 'Image/GfxUI/GfxUI.cpp: GfxUIElement::notify'), ('rendering', 'Image/GfxUI/GfxUI.cpp: GfxUIElement::render'), ('sliders', 'Image/GfxUI/GfxUISlider.cpp'), ('tabs', 'Image/GfxUI/GfxUITabBar.cpp')])

prop('C47', 'Views show what they present, as it is, and within their place',
 "A rendered GfxUITextArea is filled with its background and shows the newest lines given to it, in order, one per row of its font's height from the top of its inside, each cut after as many columns as fit, and draws nothing outside of its inside; neither earlier lines nor a longer line's rest are changed by that, and they show once the area is large enough. pushBuffer() takes all of the buffer (1, and the buffer is empty) and breaks it into lines at line-ends, dropping empty ones; the text kept never exceeds scrollbackLength() bytes, for which whole lines go, the oldest first and only as many as needed for the new bytes, but of a buffer that exceeds it by itself the last so many bytes stay. A scrollable area keeps all of that and shows the last lines less as many as it was scrolled up: by one for each MOVE_UP as long as lines are hidden above, less one for each MOVE_DOWN until the last is shown; it claims the event if, and only if, it scrolled. However many lines came or went or its size changed, it never shows less than its rows can hold. An area not scrollable shows the last lines. clear() empties it. A GfxUIChecklist shows each step's label in its own row in the colour of its state: passed, failed, running, requested or idle, in that order of precedence, on demand with its flag and dependencies in hex and its state in words, and whether the request is idle, running, fulfilled or how many steps failed. A GfxUIStopWatch shows the tag, best, worst, mean and last run times in microseconds, a bar that ends at the mean in proportion between best and worst, and 'No data' before any run; watches whose runs took all the same are no exception, and a touch resets the watch. A GfxUIC3PValue shows its value's present string (or a plot of its bytes), except while frozen, which each touch toggles, and its type's name ahead of it if set to; it frees the value if, and only if, it owns it. A GfxUIMagnifier's scale stays within its bounds (refused, -1, unless 0 < min < max) however it is scrolled or set; it draws, in the lower right corner of the image, the part of the source image around the pointer, moved so as to be within the image, enlarged by its scale.",
 ['inputs', 'histories'], 'all texts, sizes, places, styles, states, values and histories of changes, events and renders',
 'No test covers these classes.',
 ['Image/GfxUI/GfxUIKit.h', 'Image/GfxUI/GfxUITextArea.cpp', 'Image/GfxUI/GfxUIChecklist.cpp', 'Image/GfxUI/GfxUIStopWatch.cpp', 'Image/GfxUI/GfxUIC3PValue.cpp', 'Image/GfxUI/GfxUIKeyValuePair.h', 'Image/GfxUI/GfxUIMagnifier.cpp'], [('text areas', 'Image/GfxUI/GfxUITextArea.cpp'), ('check lists', 'Image/GfxUI/GfxUIChecklist.cpp: GfxUIChecklist::_render'), ('stopwatches', 'Image/GfxUI/GfxUIStopWatch.cpp'), ('values', 'Image/GfxUI/GfxUIC3PValue.cpp: GfxUIC3PValue'), ('magnifiers', 'Image/GfxUI/GfxUIMagnifier.cpp')])
prop('C48', 'Identity, scheduler, link and tree views show and steer what they present',
 "A GfxUIIdentity shows its identity's handle, format and string, in that order, each in a row of its own and cut at its width; without an identity it shows none. A GfxUIC3PScheduler's first tab shows how many schedules there are and the scheduler's own profilers (service loop, deadband), its second shows schedules in rows of 64 pixels apart, as many as fit: the handle (coloured by being enabled), whether it is enabled, the time since its last run, period, recurrence and its profiler's figures, all as they are at the time of rendering; schedules that come, run or change in the meantime show up at the next one. A touch of a schedule toggles its being enabled and no other's. A GfxUIMLink's tabs show each line of the link's own report, its local identity, the messages, and buttons: touching 'Cast Sync' turns the link's casting of syncs over and shows what it is, also if it was changed by the link's owner; opening a tab changes nothing; touching 'Hangup' hangs up a live link. A GfxUIKeyValuePair shows each key of its tree in order, each in a row of its own, with its present value right of it, nested trees between braces and indented in rows of their own, nothing over another; rows that don't fit are left out. It does so at each forced render, not just the first, and after showKVP() for the new tree, never touching the old one, which may be gone. At most one tab's name is drawn as active. None of them draws outside of its element, wherever that is placed, and none owns what it presents.",
 ['inputs', 'histories'], 'all texts, trees, schedules, links, sizes, places, styles and histories of changes, events and renders',
 'No test covers these classes.',
 ['Image/GfxUI/GfxUIKit.h', 'Image/GfxUI/GfxUIIdentity.cpp', 'Image/GfxUI/GfxUIIdentity.h', 'Image/GfxUI/GfxUIC3PScheduler.cpp', 'Image/GfxUI/GfxUIC3PScheduler.h', 'Image/GfxUI/GfxUIMLink.cpp', 'Image/GfxUI/GfxUIMLink.h', 'Image/GfxUI/GfxUIKeyValuePair.cpp', 'Image/GfxUI/GfxUIKeyValuePair.h', 'Image/GfxUI/GfxUITabBar.cpp', 'Image/GfxUI/GfxUIStopWatch.cpp'], [('identities', 'Image/GfxUI/GfxUIIdentity.cpp'), ('the scheduler', 'Image/GfxUI/GfxUIC3PScheduler.cpp'), ('links', 'Image/GfxUI/GfxUIMLink.cpp'), ('trees', 'Image/GfxUI/GfxUIKeyValuePair.cpp: GfxUIKeyValuePair::_render'), ('tabs', 'Image/GfxUI/GfxUITabBar.cpp')])
prop('C49', 'A hardware command at the console does what it says to what it names, or nothing',
 "The commands the platform and the bus adapters offer at the console act on the thing named, with the value given, once, and report what was done and what came of it. 'gpio' sets the mode of, writes or reads exactly the named pin and shows the result; a pin that can't be read is not given a level. A pin outside [0, 255], a mode that isn't listed, a reboot reason beyond 8 bits or an I2C address beyond 7 is refused: nothing happens to any other pin, and nothing is reported as done. 'reboot' resets the firmware once for the given reason. 'pfinfo' has the platform describe itself, with its true width, byte order and times. For the SPI and I2C adapters: 'purge' ends the active job, 'ragepurge' the queued ones in order and then the active one, each called back once and marked as flushed, and no other job; 'poll' advances the bus; 'queue' and 'info' show the active job and the first of the queued ones in order, with the true depth, however deep; 'init', 'deinit' and 'verbosity' reach the adapter once with what was asked; 'ping' probes each address from the named one to 127 once, and the map shows for each whether it answered, and nothing for those that were never asked, also if a purge ends the census early. A command that doesn't exist changes nothing. Numbers may be decimal or hexadecimal, words in any letter case.",
 ['inputs', 'histories'], 'all typed lines, pins, modes, addresses, numbers and states of the buses',
 'No test types a command to the platform or an adapter.',
 ['AbstractPlatform.cpp', 'AbstractPlatform.h', 'BusQueue/BusQueue.h', 'BusQueue/SPIAdapter.cpp', 'BusQueue/I2CAdapter.cpp', 'Console/C3PConsole.cpp'], [('pins', 'AbstractPlatform.cpp: callback_gpio_value'), ('reboot', 'AbstractPlatform.cpp: callback_reboot'), ('platform', 'AbstractPlatform.cpp: callback_platform_info, _discover_alu_params'), ('SPI', 'BusQueue/SPIAdapter.cpp: SPIAdapter::console_handler'), ('I2C', 'BusQueue/I2CAdapter.cpp: I2CAdapter::console_handler, io_op_callback'), ('listings', 'BusQueue/BusQueue.h: printWorkQueue')])
prop('C50', 'A view of binary data shows each byte as its selected tabs say, at its place',
 "A view of a blob shows the bytes its value holds in its field (its inside, less the panel of 160 px at the right) by the plotter (linear, or the Hilbert curve at first) and the styler (heat at first, entropy, or a map file, black if it has no fences) whose tabs are selected. At each render the image shows the present bytes at the view's present place, whatever happened before (a touch of a tab, changed bytes, a change in size, a move, a wiped image with a forced redraw, a time in which it was mute), and what the plot leaves of the field is background; a touch selects that tab alone, whose name is shown as selected and the others' as not, each in its place. A blob that doesn't fit is told by its length, a value that isn't a blob by a refusal, both cut at the field's end, and an empty one leaves the field blank. A view that is frozen or has no value leaves its field alone, a mute one draws nothing. It never draws outside of itself nor over its tabs, does not own or change its value, and leaks nothing.",
 ['inputs', 'histories'], 'all blobs, places, styles and histories of touches, changes, moves and renders',
 'No test creates such a view.',
 ['Image/GfxUI/GfxUIBlobRender.cpp', 'Image/GfxUI/GfxUIBlobRender.h', 'Image/ImageUtils/BlobPlotter.cpp'], [('field', 'Image/GfxUI/GfxUIBlobRender.cpp: _render'), ('tabs', 'Image/GfxUI/GfxUIBlobRender.cpp: _notify'), ('life', 'Image/GfxUI/GfxUIBlobRender.cpp: ctor, dtor')])
