#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script: one place to edit the statements)."""
import json, os
P = []


def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text},
              'why_tests_cant': why,
              'anchors': {'files': files, 'state': [dict(zip(('name', 'meaning', 'where'), s)) for s in state],
                          'mechanism': [dict(zip(('name', 'where'), m)) for m in mech], 'observe_at': list(observe)}})


PBS, PBD = 'include/spb/pb/serialize.hpp', 'include/spb/pb/deserialize.hpp'
JSS, JSD = 'include/spb/json/serialize.hpp', 'include/spb/json/deserialize.hpp'
DPB, DJS, HDR = 'src/spb-proto-compiler/dumper/pb/dumper.cpp', 'src/spb-proto-compiler/dumper/json/dumper.cpp', 'src/spb-proto-compiler/dumper/header.cpp'
PRS, OPT, ORD, TYP = 'src/spb-proto-compiler/parser/parser.cpp', 'src/spb-proto-compiler/ast/ast-options.cpp', 'src/spb-proto-compiler/ast/ast-messages-order.cpp', 'src/spb-proto-compiler/ast/ast-types.cpp'

p('C01', 'Protobuf round trip restores every message',
  'For every message type the compiler accepts and every value of it (valid UTF-8 strings, values within the declared options), serializing to protobuf and deserializing the bytes yields an equal message: same values, same presence of optional fields, same oneof member, same elements in the same order, same map entries (a required field or fixed-size array that is absent on the wire reads as its default). '
  'Serializing the decoded message again yields the same bytes when no hash map is involved. (Messages nested more than 100 levels deep are outside of this: the library refuses to read them.)',
  ['inputs', 'programs'], 'all values of all field kinds: 15 scalar types x required/optional/repeated/packed/map key/map value/oneof, nested and recursive messages, custom containers, narrow integers, bitfields, field numbers 1..2^29-1',
  'The tests round-trip a few hand-written values per type; presence of empty values, boundaries of varint lengths, several oneofs in a message and combinations of containers and options are never sampled.',
  [PBS, PBD, DPB, 'include/spb/pb.hpp', 'include/spb/bits.h'],
  [('per-type serialize overloads', PBS), ('per-type deserialize overloads', PBD), ('generated field dispatch', DPB)])
p('C02', 'Google protobuf reads exactly what was serialized',
  'For every message, Google protobuf parses the serialized bytes with the same .proto without error or unknown fields, and finds exactly the same field values, presence, oneof members, list elements and map entries. '
  'Repeated scalars declared packed (explicitly, or by default in proto3) are written as one packed record and all others unpacked, as the schema says, and every varint and tag is of canonical (minimal) length.',
  ['inputs', 'programs'], 'all values of the message types of the corpus (every field kind and label) against an independent implementation',
  'The tests compare with Google for a fixed list of values in a few messages; zigzag, fixed and 64-bit boundaries, large field numbers, map and oneof combinations are not covered.',
  [PBS, DPB, OPT, 'include/spb/pb/wire-types.h'], [('wire encoding of every type', PBS), ('packed/unpacked choice', OPT), ('generated field list', DPB)])
p('C03', 'Any valid protobuf encoding is decoded as Google decodes it',
  'For every byte sequence that is a valid encoding of a message, deserializing gives the same message as Google protobuf: fields in any order, unknown fields (groups included) skipped at every level, repeated scalars packed or unpacked or split in several pieces, last value wins for singular fields, repeated occurrences of a message field merged, map entries with missing, reordered, repeated or unknown parts, the last member of a oneof kept. '
  'Values that are already in the message the bytes are read into are merged in the same way. '
  'By design (and tested) the library is stricter than Google in three places, which are not part of this: a bool is one byte 0 or 1, an integer which does not fit its type is refused, and a field whose wire type does not match the schema is refused instead of being skipped.',
  ['inputs', 'histories'], 'all valid encodings of all values: the encodings are mutated structurally, far beyond what any single serializer emits',
  'Tests decode bytes made by the two serializers in their canonical form; a sender in another language may use any other valid form.',
  [PBD, DPB, 'include/spb/pb/wire-types.h'], [('field dispatch, unknown field skipping', PBD), ('packed and unpacked paths', PBD), ('map entry reader', PBD)])
p('C04', 'JSON round trip restores every message and the JSON is valid',
  'For every message, the JSON that is written is well-formed RFC 8259 JSON in valid UTF-8 with unique keys, and deserializing it yields an equal message (presence, oneof member, lists, maps, exact integers and floating-point values including NaN, infinities and -0, arbitrary bytes and Unicode strings; a required string or bytes that is empty is left out and reads back empty). '
  'The number of characters returned and predicted equals the number written.',
  ['inputs', 'programs'], 'all values of all field kinds, including every Unicode scalar, control characters, empty values, extreme numbers and non-finite floats',
  'Tests compare a few literal JSON texts; escaping, non-finite numbers, empty-but-present values, long strings crossing internal buffers are not sampled.',
  [JSS, JSD, DJS, 'include/spb/json/base64.h', 'include/spb/to_from_chars.h'], [('string escaping, numbers, lists, maps', JSS), ('JSON reader', JSD), ('generated key and enum tables', DJS)])
p('C05', 'JSON is interchangeable with Google\'s JSON mapping',
  'For every message, Google\'s JSON parser accepts the written JSON with the same .proto and obtains the same message; conversely JSON written by Google (with any of its printing options: whitespace, proto or camelCase names, enums as numbers, default values) is accepted and gives the same message. '
  'Equivalent spellings of the same JSON text (whitespace, escapes, order of keys, quoted numbers, unknown keys, null for an optional, repeated or map field) give the same message. '
  '(Left aside: unknown enum numbers, which the library refuses by design, and the sign of -0, which Google drops.)',
  ['inputs', 'configurations'], 'all messages of the corpus x both directions x printing options x respellings',
  'The tests contain a few literal JSON texts; interoperability of key names, 64-bit integers, enum names, map keys, base64 and escapes needs an independent implementation over many values.',
  [JSS, JSD, DJS, HDR], [('JSON names of fields', DJS), ('escape decoding, number parsing, unknown value skipping', JSD)])
p('C06', 'Protobuf decoding is memory safe on arbitrary bytes',
  'For every byte sequence and every message type, deserializing from protobuf (plain or delimited, from memory or a reader) terminates and either returns or throws an exception: no out-of-bounds or use-after-free access, undefined behaviour, crash, stack exhaustion or hang. '
  'Memory allocated stays proportional to the size of the input, however large the lengths it claims, and a message that was (partly) decoded stays usable and destructible.',
  ['inputs'], 'all byte sequences: mutated valid encodings, truncations at every byte, hostile lengths, tags and nesting depths, random bytes',
  'A unit test can only show particular bad inputs; parsers fail on the ones nobody thought of. The repository has no fuzzing in its test run.',
  [PBD, 'include/spb/io/buffer-io.hpp', 'include/spb/utf8.h', 'include/spb/bits.h'], [('istream with remaining size', PBD), ('length prefix checks, nesting limit', PBD)])
p('C07', 'JSON decoding is memory safe on arbitrary text',
  'For every byte sequence and every message type, deserializing from JSON (from memory or a reader) terminates and either returns or throws an exception, without out-of-bounds access, undefined behaviour, crash, stack exhaustion, hang or memory out of proportion to the input. '
  'A strict prefix of a JSON document of a message is never accepted, wherever it is cut.',
  ['inputs'], 'all byte sequences: mutated valid documents, truncations at every byte, hostile nesting, numbers, escapes, base64 and keys, random bytes',
  'A unit test can only show particular bad inputs; the tests have a list of malformed literals, mostly small enough to fit the internal buffer.',
  [JSD, 'include/spb/io/buffer-io.hpp', 'include/spb/json/base64.h', 'include/spb/to_from_chars.h', 'include/spb/utf8.h'], [('buffered reader', 'include/spb/io/buffer-io.hpp'), ('token parsing', JSD)])
p('C08', 'Results do not depend on how input and output are chunked',
  'Deserializing the same bytes gives the same outcome (same message, or an exception) from memory, a container, or a reader that returns the data in pieces of any sizes, and the reader is never asked to write outside the buffer it is given nor read past the end of a delimited or bounded message; serializing gives the same bytes to a writer, a buffer or a container, and the returned sizes agree. '
  'An exception thrown by the user\'s reader or writer reaches the caller, whichever call throws it.',
  ['inputs', 'schedules', 'fault_sequences'], 'all messages x all chunkings of the input (one byte at a time, random sizes, splits at internal buffer boundaries) x exception thrown at the k-th callback for every k',
  'Tests read from memory or with one-byte readers on short inputs; values crossing buffer boundaries at every offset and exceptions from every callback are not covered.',
  ['include/spb/io/buffer-io.hpp', 'include/spb/io/io.hpp', 'include/spb/io/function_ref.hpp', 'include/spb/pb.hpp', 'include/spb/json.hpp', PBD, JSD],
  [('buffered reader, refill and view', 'include/spb/io/buffer-io.hpp'), ('overloads on buffers, containers and callbacks', 'include/spb/pb.hpp')])
p('C09', 'Predicted sizes are exact and delimited streams keep their framing',
  'For every message, the predicted serialized size (protobuf, delimited protobuf, JSON) equals the number of bytes written, and serializing into a buffer of exactly that size never writes outside it. '
  'Any sequence of messages written delimited back to back is read back one by one, each call consuming exactly its own bytes, and a stream cut anywhere inside a message is reported by an exception rather than returned as a shorter message.',
  ['inputs', 'histories', 'crash_points'], 'all messages (sizes around every varint length boundary), all sequences of messages of mixed types, every cut point of the stream',
  'The tests check sizes on a handful of values and one or two delimited messages; nested length prefixes, packed lists and cut points are not enumerated.',
  [PBS, PBD, 'include/spb/pb.hpp', JSS, 'include/spb/json.hpp'], [('size pass and write pass of the serializer', PBS), ('delimited option', 'include/spb/pb.hpp')])
p('C10', 'Strings are accepted if and only if they are valid UTF-8',
  'A string field, map key or oneof string is accepted when serializing to or deserializing from protobuf or JSON exactly when its bytes are well-formed UTF-8 (no overlong forms, surrogates, code points above U+10FFFF, stray or missing continuation bytes), wherever the bytes fall relative to chunk boundaries; otherwise an exception is thrown. '
  'Bytes fields accept any content.',
  ['inputs'], 'all byte strings: every sequence of 1-2 bytes, every 3-4 byte sequence of boundary bytes, in any position of a longer string, any chunking',
  'The tests include selected valid and invalid sequences validated in one piece; the state machine has 2^32 inputs and the chunked path carries state across calls.',
  ['include/spb/utf8.h', PBS, PBD, JSS, JSD], [('UTF-8 state machine', 'include/spb/utf8.h'), ('chunked string reading', PBD)])
p('C11', 'Declared sizes, counts and integer widths are never exceeded',
  'When a field has a maximum size, maximum count, fixed size, fixed count, narrow integer type, bit-field or narrow enum type, deserializing protobuf or JSON either stores exactly the encoded value within the limit or throws an exception: it never truncates, wraps, drops elements or stores more than allowed. '
  'Values on the limit are accepted, and a maximum set for a file or message applies to its fields unless a field sets its own (strings, bytes and repeated fields; not the keys and values of maps). Serializing a field larger than its maximum size or count throws.',
  ['inputs', 'configurations'], 'all values inside, on and beyond every limit, for every integer type x width x label and every container limit, in both formats',
  'The tests try a few fields on a few values; the matrix of type x width x label x format x value around the boundary is large.',
  [PBD, JSD, DPB, DJS, OPT, 'include/spb/bits.h', 'include/spb/concepts.h'], [('max_size/max_count checks', PBD), ('narrow integer range checks', 'include/spb/bits.h'), ('option inheritance', OPT)])
p('C12', 'Base64 encodes and decodes bytes exactly',
  'For every byte sequence, the JSON form of a bytes field is its standard padded base64 encoding (RFC 4648), and decoding it returns exactly the same bytes, for any length and wherever the text crosses internal buffers. '
  'Text that is not valid padded base64 (foreign characters, wrong padding or length, missing end) is rejected with an exception and never changes data silently.',
  ['inputs'], 'all byte sequences of all lengths; all single-character corruptions, truncations and paddings of base64 texts',
  'Tests contain a handful of RFC vectors; the streaming decoder works on pieces of the reader buffer whose alignment depends on the position in the document.',
  ['include/spb/json/base64.h', JSS, JSD], [('base64 encoder and streaming decoder', 'include/spb/json/base64.h')])
p('C13', 'Generated code is faithful to every accepted schema',
  'For every .proto file (proto2 or proto3, with imports, nested types, recursion through optional or repeated fields, oneofs, maps, keywords as names, defaults, comments and documented options) that the compiler accepts, the generated C++ compiles, has the documented types, names, enum values and default values, and its protobuf and JSON agree with Google protobuf for the same .proto. '
  'Valid schemas using only the documented features are accepted whatever their formatting and order of definitions '
  '(except those which have no C++ order of definition: nested types that depend on each other, recursion through oneofs or maps).',
  ['programs'], 'all schemas built from the documented features: random schemas with random names, types, nesting, dependencies, options, formatting and comments',
  'The tests compile one fixed set of .proto files; dependency ordering, name lookup, option scoping and formatting depend on the combination.',
  [PRS, ORD, TYP, OPT, HDR, DPB, DJS], [('parser', PRS), ('ordering of messages, pointers for cycles', ORD), ('type resolution', TYP), ('options', OPT), ('code generation', HDR)])
p('C14', 'The compiler never crashes and is deterministic',
  'For every input file content and imported content the compiler terminates with success, or with a non-zero exit code and a message naming the file and the line of the problem: no crash, undefined behaviour, out-of-bounds access, hang or leak of an uncaught exception. '
  'Compiling the same files again, in another directory or together with other files, produces identical output.',
  ['inputs', 'programs'], 'all byte sequences as .proto content (token- and byte-level mutations of real schemas, truncations at every byte), repeated runs',
  'The tests feed the parser a list of small malformed schemas without sanitizers; nothing explores truncations or mutations of realistic files.',
  [PRS, 'src/spb-proto-compiler/parser/char_stream.h', ORD, TYP, OPT, 'src/spb-proto-compiler/main.cpp'], [('character stream', 'src/spb-proto-compiler/parser/char_stream.h'), ('error reporting with line and position', PRS)])
p('C15', 'The compiler reports every input/output failure',
  'When an input, imported or output file cannot be opened, read, created or completely written (missing, a directory, no permission, device full, error at any single read or write), the compiler exits non-zero with a message; exit code 0 means that every generated file is complete on disk. '
  'Imports of the files which define options (spb.proto, nanopb.proto, google/protobuf/descriptor.proto) are allowed to fail. '
  'A later run without the failure, in the same directory and over whatever earlier runs left there, succeeds with complete output. '
  'Running it does not change any of its input files.',
  ['fault_sequences', 'configurations'], 'a fault injected at every single system call that opens, reads, writes or closes a file, one at a time, for several schemas',
  'The tests never make I/O fail.',
  ['src/spb-proto-compiler/io/file.cpp', 'src/spb-proto-compiler/main.cpp'], [('file reading and writing', 'src/spb-proto-compiler/io/file.cpp'), ('exit code', 'src/spb-proto-compiler/main.cpp')])
p('C16', 'The library itself never allocates on the heap',
  'Serializing any message to protobuf or JSON into a caller\'s buffer or writer, and computing its size, performs no heap allocation and no deallocation. '
  'Deserializing into a message made only of fixed-capacity containers performs no heap allocation unless an exception is thrown, and what the message holds stays within the declared capacities.',
  ['inputs'], 'all messages for serialization; all accepted inputs for messages of fixed-capacity containers; from memory and from readers',
  'No test counts allocations; whether one happens depends on sizes, escapes, buffers and types.',
  [PBS, PBD, JSS, JSD, 'include/spb/io/buffer-io.hpp', 'include/spb/json/base64.h', DPB, DJS], [('fixed buffers on the stack', 'include/spb/io/buffer-io.hpp'), ('non-owning callbacks', 'include/spb/io/function_ref.hpp')])
p('C17', 'Concurrent use of distinct or read-only messages is safe',
  'Any number of threads may at the same time serialize the same unmodified message, and serialize or deserialize distinct messages of the same or different types, to protobuf and JSON, including inputs that are rejected: there is no data race, and every thread gets the result it would get alone.',
  ['schedules', 'inputs'], 'all interleavings of concurrent operations (many threads, same and different types, first use included), over random messages and damaged inputs',
  'All tests are single-threaded.',
  [PBS, PBD, JSS, JSD, DPB, DJS], [('no shared mutable state', 'include/spb'), ('generated tables are constant', DJS)])
p('C18', 'Malformed input is rejected, never half-accepted',
  'Bytes that are not a valid protobuf encoding (truncated values or lengths, length running past its message, over-long varints, field number zero, invalid wire types, unbalanced groups) and text that is not a valid JSON document of the message (missing or extra commas, colons, quotes or brackets, bad escapes or numbers, wrong value types, values out of range) are rejected with an exception, at every nesting level. '
  'What Google protobuf rejects as malformed protobuf is not accepted as a complete message. '
  'JSON leniences of the library are outside of this: text after the end of the document, raw control characters in strings, additional spellings of numbers (leading zeros, "1.", ".5"), the content of strings in ignored values, null in the place of bytes, required fields that are missing.',
  ['inputs'], 'all single edits (deletion, duplication, replacement of a structural token, truncation, length and tag corruption) of valid encodings at every position and level',
  'The tests list some malformed literals per type; acceptance of a damaged document depends on where the damage is.',
  [PBD, JSD, 'include/spb/to_from_chars.h'], [('wire type and length checks', PBD), ('token checks', JSD), ('number parsing', 'include/spb/to_from_chars.h')])

here = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here, '..', 'properties.jsonl'), 'w') as f:
    for x in P:
        f.write(json.dumps(x) + '\n')
