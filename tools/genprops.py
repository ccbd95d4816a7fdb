#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the source text of the properties)."""
import json, os
P = []
def p(id, title, st, over, text, why, files, mech, observe):
    P.append(dict(id=id, title=title, statement=st, quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe, hook_needed=None)))

p("C01", "Untyped decoding accepts and produces exactly what encoding/json does",
  "For every byte sequence, decoding it into an empty interface destination succeeds exactly when encoding/json accepts it as one JSON value surrounded only by JSON white space, and then yields the same value: same nesting, same object contents with the last duplicate key winning, same strings, numbers as the same float64 or, when number mode is on, as the literal text unchanged. This holds identically for every entry point (byte slice, string, reader, stream decoder, iterator), for every position of the interface (top level, struct field, map value, slice or array element) and for every size and nesting depth. Two exceptions: string bytes that are not valid UTF-8 are kept as they are instead of being replaced, and there is no nesting limit of 10000.",
  ["inputs", "configurations"], "all byte sequences, all entry points, number mode on and off",
  "The tests decode a few hundred hand-written documents; the language of JSON texts, its malformed neighbours and their alignment with internal buffers and stacks is unbounded.",
  ["iterator_read.go", "iterator_read_array.go", "iterator_read_object.go", "iterator_str.go", "iterator_number.go", "iterator_float64.go", "stack.go", "iterator.go", "eface.go"],
  [("dispatch on the first byte", "iterator_read.go: readFunctions"), ("nesting stack as a bit set", "stack.go"), ("stack driven reader", "iterator_read.go: readWithStack"), ("trailing data check", "iterator.go: unmarshal")],
  ["jzon.Unmarshal / UnmarshalFromString / UnmarshalFromReader", "Decoder.Decode", "Iterator.Read / ReadVal"])

p("C02", "Validation and skipping recognise exactly one complete JSON value",
  "For every byte sequence the validity test answers true exactly when the whole input is one JSON value per RFC 8259 (as encoding/json's validity test does), and ignored content - skipped values, object members that match no field, captured raw values - is held to the same grammar. Skipping a value consumes exactly the bytes of that one value after leading white space and leaves the position directly behind it, fails if no complete valid value starts there, and the variants restricted to one kind (string, number, array, object) succeed only on that kind. Raw capture returns exactly the bytes of the value, whether the input is a byte slice or arrives through a reader in pieces.",
  ["inputs", "configurations"], "all byte sequences, all start positions, both input kinds",
  "The tests sample hand-picked texts; the grammar's boundary (numbers, escapes, control characters, nesting beyond one machine word, values cut at buffer ends) is infinite.",
  ["iterator_skip.go", "iterator_skip_array.go", "iterator_skip_object.go", "iterator_skip_number.go", "iterator_skip_str.go", "iterator_raw.go", "stack.go", "val_decoder_skip.go", "val_decoder_json_rawmessage.go"],
  [("skip dispatch table and skipWithStack", "iterator_skip.go"), ("number state machine", "iterator_skip_number.go"), ("capture mode of the buffer", "iterator.go: readMore, iterator_raw.go")],
  ["jzon.Valid", "Iterator.Skip / SkipString / SkipNumber / SkipArray / SkipObject / SkipRaw / ReadRaw / AppendRaw", "Unmarshal into struct with unknown members, json.RawMessage"])

p("C03", "Typed decoding yields the same success or failure and value as encoding/json",
  "For every destination type built from booleans, integers, floats, strings, byte slices, slices, arrays, maps with string, integer or text-unmarshaler keys, pointers, structs, interfaces, json.Number and raw messages, every initial content of the destination and every input text, default decoding succeeds exactly when encoding/json does and then leaves the same content (including what null, absent members, short and long arrays, existing map entries and existing pointers do). Exceptions: slices always get a new backing array instead of reusing old elements; string bytes that are not valid UTF-8 are kept unchanged; numbers quoted in strings (string option, integer map keys, json.Number) are only accepted as plain JSON number text; after an error only the fact of the error is guaranteed.",
  ["inputs", "programs", "configurations"], "all destination types, all initial destination values, all inputs",
  "The tests cover a few dozen types with one or two inputs each; the product of type shapes, prior contents and texts is not sampled.",
  ["decoder_config.go", "iterator_val.go", "val_decoder.go", "val_decoder_native.go", "val_decoder_native_slice.go", "val_decoder_native_array.go", "val_decoder_native_map.go", "val_decoder_native_ptr.go", "val_decoder_native_struct.go", "val_decoder_native_struct_small.go", "val_decoder_native_struct_one_field.go", "val_decoder_native_interface.go", "val_decoder_native_int.go", "val_decoder_native_uint.go", "val_decoder_native_float.go", "val_decoder_json_number.go", "val_decoder_json_rawmessage.go", "eface.go"],
  [("per type decoder built once and cached", "decoder_config.go: createDecoderInternal"), ("three struct decoders by number of fields", "val_decoder_native_struct*.go"), ("pointer arithmetic over destination memory", "val_decoder_native_*.go")],
  ["jzon.Unmarshal and variants with typed destinations"])

p("C04", "The result of decoding does not depend on how a reader delivers the bytes",
  "For every input and every way a well-behaved reader cuts it into reads (including one byte at a time, reads that return no data and no error, and data returned together with end of input), decoding through the reader gives the same success or failure and the same values as decoding the whole text from a byte slice. This holds for one-shot decoding, the stream decoder and every token-level iterator call (reading, skipping, raw capture), for every destination, and however many earlier documents have passed through the same iterator.",
  ["inputs", "histories", "configurations"], "all inputs, all partitions into reads, all destinations",
  "Every byte position of every token is a potential cut; the tests use a handful of one-byte-at-a-time readers on small inputs.",
  ["iterator.go", "iterator_str.go", "iterator_number.go", "iterator_int.go", "iterator_int8.go", "iterator_int16.go", "iterator_int32.go", "iterator_int64.go", "iterator_float.go", "iterator_float32.go", "iterator_float64.go", "iterator_skip_number.go", "iterator_skip_str.go", "iterator_raw.go", "iterator_object.go", "iterator_array.go"],
  [("refill of the window at head == tail", "iterator.go: readMore / nextByte / nextToken / expectBytes"), ("capture mode keeps the window", "iterator.go: readMore")],
  ["UnmarshalFromReader, Decoder.Decode, Iterator.* over adversarial readers versus byte slice"])

p("C05", "Truncated input and I/O faults surface as errors and lose no data silently",
  "Input that ends before a value is complete never decodes successfully, and when a reader fails with an error before the value is complete the decode reports that very error (wrapped in the one-shot functions, its text included), while values completely delivered before the fault are still produced. When a writer fails, the flush or encode call reports the writer's error, a short write keeps exactly the unwritten suffix so that a later flush continues the stream without loss or duplication, and an encoder that has failed keeps reporting an error without writing anything more. A decoder that has failed keeps reporting an error and delivers no further values.",
  ["inputs", "fault_sequences", "histories"], "all documents x all fault positions x all fault sequences of readers and writers",
  "Faults must be placed at every byte of every document and every write; the tests inject a handful.",
  ["iterator.go", "decoder.go", "encoder.go", "streamer.go", "iterator_float.go", "iterator_number.go", "errors_decoder.go"],
  [("error returned by readMore", "iterator.go: readMore"), ("unwritten suffix kept on short write", "streamer.go: Flush"), ("sticky errors", "decoder.go: Decode, encoder.go: Encode")],
  ["Decoder.Decode, UnmarshalFromReader, Iterator.*", "Encoder.Encode, Streamer.Flush"])

p("C06", "The stream decoder delivers every value once, in order, at exact offsets",
  "For every stream of concatenated or white-space separated JSON values and every sequence of calls, successive decodes deliver exactly the values of the stream, each once and in order, then report end of input (io.EOF), exactly as encoding/json's decoder does; a malformed value is reported as an error and nothing after it is delivered. After each successful decode the reported input offset is the number of stream bytes up to the end of that value (or further only over white space once more-data has been asked), buffered bytes followed by the rest of the reader are exactly the undelivered stream, and more-data answers true exactly when a further token other than a closing bracket or brace follows. Options set on the decoder (number mode, unknown field rejection) apply to every following decode.",
  ["inputs", "histories", "configurations"], "all value streams, reader partitions and call sequences",
  "The tests decode short streams with one call pattern; offsets, buffering and interleavings of calls with reads are unbounded.",
  ["decoder.go", "iterator.go", "iterator_val.go", "decoder_config.go"],
  [("offset accounting at refill", "iterator.go: readMore"), ("window exposure", "decoder.go: Buffered / InputOffset / More")],
  ["Decoder.Decode / More / Buffered / InputOffset"])

p("C07", "Encoding is valid JSON and the same document encoding/json would write",
  "For every value of every supported type, encoding fails exactly when encoding/json fails, and otherwise the output is syntactically valid JSON that equals encoding/json's output byte for byte, up to the order of map entries and the spelling of the escapes for backspace and form feed. This holds for marshalling, the stream encoder (each value followed by one newline) and the streamer, for values behind pointers and interfaces, nil values, every map key type, struct options, and text and JSON marshalers. Exceptions: cyclic values; pointer-receiver marshalers are also called on unaddressable values; raw messages, marshaler output and json.Number text are copied as they are, without validation, compaction or escaping.",
  ["inputs", "programs", "configurations"], "all values of all supported types",
  "The type and value space is unbounded; the tests compare a few hundred values.",
  ["encoder_config.go", "val_encoder.go", "val_encoder_native.go", "val_encoder_native_struct.go", "val_encoder_native_map.go", "val_encoder_native_slice.go", "val_encoder_native_array.go", "val_encoder_native_ptr.go", "val_encoder_native_interface.go", "val_encoder_direct.go", "val_encoder_native_base64.go", "val_encoder_json_number.go", "val_encoder_json_rawmessage.go", "val_encoder_json_marshaler.go", "val_encoder_text_marshaler.go", "streamer_val.go", "streamer.go", "encoder.go"],
  [("per type encoder built once and cached", "encoder_config.go: createEncoderInternal"), ("direct (pointer shaped) versus indirect interface data", "val_encoder_direct.go"), ("comma state", "streamer.go: onVal")],
  ["jzon.Marshal, Encoder.Encode, Streamer.Value"])

p("C08", "What is encoded decodes back to the same value",
  "For every value of a type made of booleans, numbers, valid UTF-8 strings, byte slices, slices, arrays, maps, pointers and structs (and untyped trees of maps, slices, strings, float64, booleans and nil), encoding it and decoding the text into a fresh destination of the same type succeeds and gives an equal value, where empty and omitted members are restored as Go's zero value and nil and empty slices and maps keep being distinguished (null versus empty) outside omitempty, and a pointer to something written as null comes back as nil. The text also decodes to the same value with encoding/json, text written by encoding/json decodes to the same value here, and encoding the decoded value again gives the same document.",
  ["inputs", "programs"], "all round-trippable values and types, both directions between the two libraries",
  "Round trips couple every encoder with every decoder over an unbounded value space; the tests check the directions separately on fixed values.",
  ["encoder_config.go", "decoder_config.go", "streamer_str.go", "streamer_float.go", "streamer_int.go", "iterator_str.go", "iterator_float64.go", "iterator_int64.go", "val_encoder_native_base64.go", "val_decoder_native_slice.go", "val_encoder_native_map.go", "val_decoder_native_map.go"],
  [("encoders and decoders resolve the same struct description", "struct.go: describeStruct")],
  ["jzon.Marshal then jzon.Unmarshal, crossed with encoding/json"])

p("C09", "Numbers are exact: no wrap-around, correct rounding, shortest text",
  "Reading an integer of any width gives the exact mathematical value of the literal or an error: a value out of range, a fraction, an exponent or a malformed literal is never turned into another integer. Reading a float gives the correctly rounded (round to nearest even) value of the literal in the requested precision, a magnitude too large for it is an error, and the literal obeys the JSON number grammar exactly. Writing an integer gives its exact decimal text, writing a finite float gives the same shortest text that encoding/json writes (which reads back to the same bits), and NaN and infinities are refused.",
  ["inputs"], "all number literals and all values of all twelve numeric types, through every reading and writing entry point",
  "The tests check boundary literals only; the digit-group arithmetic and overflow tests are data dependent for every length and every digit.",
  ["iterator_int.go", "iterator_int8.go", "iterator_int16.go", "iterator_int32.go", "iterator_int64.go", "iterator_float.go", "iterator_float32.go", "iterator_float64.go", "iterator_number.go", "streamer_int.go", "streamer_float.go", "val_decoder_native_int.go", "val_decoder_native_uint.go", "val_decoder_native_float.go", "number.go"],
  [("per width overflow tests", "iterator_int*.go"), ("fast path and fallback to strconv", "iterator_float*.go"), ("digit pair tables", "streamer_int.go"), ("exponent clean-up", "streamer_float.go")],
  ["Iterator.ReadInt*/ReadUint*/ReadFloat*/ReadNumber, Unmarshal into numeric destinations and map keys", "Streamer.Int*/Uint*/Float*, Marshal"])

p("C10", "Strings survive escaping and unescaping exactly and output is safe to embed",
  "Decoding a string literal - as a value, object key, byte slice source or appended text - yields exactly the characters it denotes, with every escape, surrogate pair, lone surrogate (replaced by U+FFFD) and unescaped character handled as encoding/json does, and rejects every malformed escape and raw control character; string bytes that are not valid UTF-8 are kept as they are. Encoding any Go string gives a quoted JSON string that decodes back to the same characters with invalid UTF-8 replaced by U+FFFD, never contains a raw control character, U+2028 or U+2029, and with HTML escaping on never contains a raw <, > or &, while with it off these are not escaped. The setting in force for the streamer, encoder or configuration applies to every value, object key and quoted option alike.",
  ["inputs", "configurations"], "all strings and all string literals, HTML escaping on and off",
  "Escapes interact with buffer refills, temporary buffers and multi-byte sequences at every offset; the tests use short fixed strings.",
  ["iterator_str.go", "iterator_skip_str.go", "iterator_object.go", "streamer_str.go", "streamer.go", "val_encoder_native_struct.go", "val_encoder_native_map.go", "val_encoder_native.go", "convert.go"],
  [("escape tables", "streamer_str.go: safeSet / htmlSafeSet"), ("surrogate handling", "iterator_str.go"), ("temporary buffer", "iterator_str.go: tmpBuffer")],
  ["Iterator.ReadString / ReadStringAsSlice / ReadStringAndAppend, Unmarshal", "Streamer.String / Field, Marshal, Encoder.SetEscapeHTML, EncoderOption.EscapeHTML"])

p("C11", "A well-formed sequence of streamer calls writes exactly the described document",
  "For every properly nested sequence of streamer calls (arrays, objects, fields and raw fields, all scalar writers, raw text, Go values) the bytes that reach the writer are exactly the JSON document the calls describe, with commas and colons exactly where they belong and nothing added or lost. Flushing at any points, and any sizes of the pieces, does not change the concatenated output; a flush writes everything pending, and without a writer it is refused with an error. After an error the streamer ignores further writes and reports that first error until it is reset, a reset streamer starts a fresh document, and values written inside a custom encoder compose in the same way.",
  ["programs", "histories", "fault_sequences"], "all properly nested call sequences with interleaved flushes, resets and errors",
  "The tests run a few chains; separators depend on the whole call history.",
  ["streamer.go", "streamer_val.go", "streamer_int.go", "streamer_float.go", "streamer_str.go", "streamer_pool.go", "val_encoder.go"],
  [("comma flag", "streamer.go: onVal / poped"), ("sticky error", "streamer.go: Error"), ("buffer retention", "streamer.go: Flush")],
  ["Streamer.* against a model that rebuilds the expected text"])

p("C12", "Calls are isolated from each other: no shared memory, no leftover state",
  "Results are owned by the caller: values returned by decoding or encoding never share memory with the input or with later results, so that later calls, reuse of the input buffer or of a released object, or changes made to one result never alter another result, and the input itself is never modified. Every call behaves as it would in a fresh process: number mode, unknown field rejection, HTML escaping, contexts, errors, partial documents and the types seen before on an iterator, decoder, encoder, streamer or the same configuration never influence a later user of the library, even after failed calls, panicking user hooks, or reuse of released objects. Results documented as temporary (raw slices and string slices of the iterator) are only valid until the next call on that iterator.",
  ["histories", "inputs"], "all histories of calls, including failing ones, over shared pools and configurations",
  "State leaks only show after particular earlier calls; tests run calls in a fixed order and do not revisit old results.",
  ["iterator_pool.go", "streamer_pool.go", "iterator.go", "streamer.go", "decoder_config_adaptor.go", "encoder_config_adaptor.go", "convert.go", "encoder_config.go", "iterator_str.go", "stack.go", "val_decoder_json_rawmessage.go", "val_encoder_native_base64.go"],
  [("reset on return to the pool", "iterator_pool.go, streamer_pool.go"), ("re-initialisation on borrow", "decoder_config_adaptor.go, encoder_config_adaptor.go"), ("copy on return", "encoder_config.go: Marshal, iterator_raw.go: AppendRaw")],
  ["results re-compared after further calls; every call compared with the same call in a fresh process state"])

p("C13", "Concurrent use is race-free and gives the sequential results",
  "Package functions and one configuration value may be used from any number of goroutines at once, including the very first use of a type, of mutually recursive types and of different types at the same time, with custom decoders and encoders registered. Under every schedule there is no data race, no deadlock and no panic, and every call returns the same result as when it runs alone.",
  ["schedules", "histories"], "all interleavings of calls on shared configurations, cold and warm",
  "The repository has practically no concurrent tests; a race needs two first uses to overlap.",
  ["decoder_config.go", "encoder_config.go", "iterator_pool.go", "streamer_pool.go", "stack.go", "iterator_val.go", "streamer_val.go", "decoder_config_adaptor.go", "encoder_config_adaptor.go"],
  [("copy-on-write caches behind an atomic value", "decoder_config.go: createDecoder, encoder_config.go: createEncoder"), ("object pools", "iterator_pool.go, streamer_pool.go, stack.go")],
  ["race detector reports and result comparison over many goroutines"])

p("C14", "Direct memory access is safe: the collector and the sanitizers see no corruption",
  "For every input and type, decoding and encoding only touch memory that belongs to the value, the input or the library's own buffers: no out-of-bounds or misaligned access, no use of memory already freed or moved, and no neighbouring field, element or variable is changed. Everything a decoded value refers to stays reachable, so that garbage collections or stack growth at any moment - during reads, inside user hooks, or afterwards - never change or lose any part of a result.",
  ["inputs", "schedules", "programs"], "all types and inputs, collections and stack moves at every point",
  "Unsafe code that is wrong usually still passes tests; corruption needs a collection or stack move at a particular moment.",
  ["convert.go", "eface.go", "iface.go", "link_reflect.go", "val_decoder_native_slice.go", "val_decoder_native_map.go", "val_decoder_native_ptr.go", "val_decoder_native_array.go", "val_decoder_native_struct.go", "val_encoder_native_map.go", "val_encoder_direct.go", "val_encoder_native_struct.go"],
  [("write barriers and typed allocation", "link_reflect.go"), ("slice growth", "val_decoder_native_slice.go"), ("interface word layout", "eface.go, iface.go")],
  ["values with guard fields under GC stress, clobberfree, checkptr and AddressSanitizer builds"])

p("C15", "No input or destination makes the library panic, hang or crash",
  "Every call on untrusted data returns in time roughly proportional to its size, with a value or an error, for every byte sequence, every nesting depth of ignored or untyped content, and every reader or writer behaviour that io allows. Unusable destinations and values - nil, non-pointers, nil pointers, typed nil pointers, nil interfaces with methods, nil embedded pointers to unexported structs, interfaces that refer to themselves in a loop of any shape, unsupported types, nil marshalers - give an error or the result encoding/json gives, never a panic. A failed call leaves the library fully usable.",
  ["inputs", "configurations", "fault_sequences"], "all byte sequences, destinations, values and reader behaviours",
  "Crashes live in the inputs nobody wrote a test for.",
  ["iterator_val.go", "iterator_read.go", "iterator_skip.go", "stack.go", "val_decoder_native_interface.go", "val_decoder_native_ptr.go", "val_decoder_native_struct.go", "val_encoder_json_marshaler.go", "val_encoder_text_marshaler.go", "eface.go", "iface.go", "errors_decoder.go", "is_empty.go", "val_decoder.go", "val_encoder.go"],
  [("explicit stack instead of recursion", "stack.go"), ("destination checks", "iterator_val.go: ReadVal"), ("loop detection", "val_decoder_native_interface.go")],
  ["every public entry point with panics, timeouts and exit status observed"])

p("C16", "Token-level reading agrees with one-shot decoding and is strict about types",
  "For every valid document, walking it with any mixture of the iterator's calls (next value type, array and object iteration in both the begin/more and the callback form, scalar reads, skips, raw captures, untyped and typed reads of sub-values) delivers exactly the elements, members and scalars in document order that decoding the whole document gives, and leaves the position directly behind each consumed value. Each typed read accepts only its own JSON kind and returns an error otherwise (a string read does not accept null, an integer read does not accept a float or a string), the next value type is reported correctly for every byte without consuming anything but white space, and malformed separators are always reported. Errors returned by callbacks stop the iteration and are returned unchanged.",
  ["inputs", "programs"], "all documents and all mixtures of iterator calls, over both input kinds",
  "The walk is a program over the document; the tests use each call in isolation.",
  ["iterator.go", "iterator_array.go", "iterator_object.go", "iterator_str.go", "iterator_bool.go", "iterator_null.go", "iterator_number.go", "iterator_raw.go", "iterator_skip.go", "iterator_val.go", "iterator_read.go", "value_type.go"],
  [("value type table", "value_type.go"), ("begin/more protocol", "iterator_array.go, iterator_object.go")],
  ["Iterator.* driven by random plans against a reference parse"])

p("C17", "Decoder options mean exactly what they say, per configuration",
  "A decoder configuration gives, for every type and input, the default result changed only as its options say: an alternative tag name behaves as the json tag otherwise does, only-tagged-fields ignores untagged fields, case sensitivity matches member names exactly (otherwise exact matches and Unicode case folding as in encoding/json), number mode turns untyped numbers into number literals, unknown field rejection fails on members matching no field at any level. A registered custom decoder is used for its type wherever that type is decoded (root, pointer target, field, slice, array, map value) with a pointer to the right memory, and its error is reported. Options of one configuration never affect another configuration or the package functions.",
  ["configurations", "inputs", "programs"], "all option combinations, types and inputs",
  "Options multiply with types and inputs; the tests set one option on one struct.",
  ["decoder_config.go", "decoder_config_adaptor.go", "struct.go", "struct_tag.go", "struct_field.go", "val_decoder_native_struct.go", "val_decoder_native_struct_small.go", "val_decoder_native_struct_one_field.go", "val_decoder.go", "iterator.go"],
  [("frozen options", "decoder_config.go: NewDecoderConfig"), ("per iterator copies of runtime options", "decoder_config_adaptor.go")],
  ["DecoderConfig.* with twin types decoded by encoding/json"])

p("C18", "Encoder options mean exactly what they say, per configuration",
  "An encoder configuration gives, for every value, the default output changed only as its options say: an alternative tag name behaves as the json tag otherwise does, only-tagged-fields leaves out untagged fields, HTML escaping is applied or not to every string and key (a configuration with explicit options does not escape unless told to), and a change at run time on a streamer or encoder overrides it for that object only. A registered custom encoder is used for its type wherever that type occurs (root, behind pointers and interfaces, field, slice, array, map value), receives a pointer to the right value, decides omission of empty fields, and what it writes appears verbatim in place. Options of one configuration never affect another configuration or the package functions.",
  ["configurations", "inputs", "programs"], "all option combinations, types and values",
  "Options multiply with types and values; the tests set one option on one struct.",
  ["encoder_config.go", "encoder_config_adaptor.go", "struct.go", "struct_tag.go", "val_encoder_native_struct.go", "val_encoder_direct.go", "val_encoder.go", "streamer.go", "encoder.go"],
  [("frozen options", "encoder_config.go: NewEncoderConfig"), ("run time override", "streamer.go: EscapeHTML")],
  ["EncoderConfig.* with twin types encoded by encoding/json"])

p("C19", "User marshal and unmarshal hooks run exactly when and with what they should",
  "Decoding calls a type's JSON or text unmarshaler exactly once for every value of that type in the document, in document order, with exactly the bytes of the value (or the unquoted text), on the addressed destination, and with encoding/json's rules for null, pointers, map keys and which of the two interfaces wins; encoding calls the JSON or text marshaler (including for map keys) exactly once per value in output order, with nil pointers and interfaces written as null without a call. The hook's output appears in place verbatim or as an escaped string, an error from a hook stops the operation and is reported, and hooks may use the library themselves. Exceptions: pointer-receiver marshalers are also called on unaddressable values, map keys are always decoded with the text unmarshaler, and unmarshalers receive bytes that they must copy to keep.",
  ["programs", "inputs", "histories"], "all types with hooks, positions and documents",
  "Call count and order are trace properties over arbitrary documents and type shapes.",
  ["val_decoder_json_unmarshaler.go", "val_decoder_text_unmarshaler.go", "val_encoder_json_marshaler.go", "val_encoder_text_marshaler.go", "val_decoder_native_map.go", "val_encoder_native_map.go", "val_decoder_native_ptr.go", "val_decoder_native_interface.go", "val_encoder_native_interface.go", "decoder_config.go", "encoder_config.go", "iface.go"],
  [("interface detection", "decoder_config.go, encoder_config.go"), ("direct or indirect receiver", "val_encoder_json_marshaler.go, val_encoder_text_marshaler.go")],
  ["recorded hook call logs compared with encoding/json's and with the document"])

p("C20", "Struct fields resolve to names and options exactly as in encoding/json",
  "For every struct type - exported and unexported fields, embedded structs and pointers at any depth, name conflicts, recursive types, tags with names, dashes, invalid characters, omitempty and string options, any number of fields - encoding writes the same members in the same order and with the same omissions and quoting, and decoding assigns each member to the same field, as encoding/json does, including case-insensitive matching with exact matches preferred and allocation of embedded pointers. The string option of marshaler types and quoted numbers not in plain JSON number form are excepted.",
  ["programs", "inputs"], "all struct types, values and member names",
  "Field resolution is a function of the whole type; the tests use a dozen struct types.",
  ["struct.go", "struct_tag.go", "struct_field.go", "struct_field_fold.go", "struct_field_upper.go", "val_decoder_native_struct.go", "val_decoder_native_struct_small.go", "val_decoder_native_struct_one_field.go", "val_encoder_native_struct.go", "is_empty.go"],
  [("breadth-first field collection with dominance", "struct.go: describeStruct"), ("fold functions", "struct_field_fold.go"), ("emptiness per kind", "is_empty.go")],
  ["Marshal and Unmarshal of generated struct types against encoding/json"])

p("C21", "Errors name their cause and the place in the input",
  "Every failing decode reports why: input that ends inside a value gives io.EOF (io.ErrUnexpectedEOF from the stream decoder once a value has begun), a complete value followed by anything but white space gives ErrDataRemained, malformed text gives an error that names the first byte which cannot continue a valid document. An integer literal out of range gives IntOverflowError, a member matching no field while unknown fields are refused gives UnknownFieldError with exactly that name (structs without any field excepted), unusable destinations or values give ErrNilPointerReceiver, ErrPointerReceiver, ErrEmptyIFace, ErrNilEmbeddedPointer, ErrEfaceLooping or TypeNotSupportedError, and the writing side gives ErrFloatIsNan, ErrFloatIsInfinity or ErrNoAttachedWriter. This holds for every route (package functions, configurations, iterators, stream decoder). One-shot calls return a *DecodeError whose text is that cause followed by a fragment of the input (at most 40 bytes) from around the place where decoding stopped; it stays what it was whatever happens later, and wrapping an error twice changes nothing.",
  ["inputs", "configurations"], "all byte sequences, destinations, values and decoding routes",
  "Each error is a statement about the whole input before it; the tests look at whether there is an error, and at a dozen of them closely.",
  ["errors_decoder.go", "errors_encoder.go", "iterator.go", "iterator_val.go", "iterator_str.go", "iterator_number.go", "iterator_object.go", "iterator_array.go", "iterator_skip.go", "iterator_bool.go", "iterator_null.go", "iterator_read.go", "decoder.go", "val_decoder_native_struct.go", "val_encoder.go"],
  [("wrapping with a place", "iterator.go: WrapError"), ("end of input in a stream", "decoder.go: Decode"), ("first byte that does not fit", "iterator_*.go")],
  ["Unmarshal, Decoder.Decode and Iterator.* errors compared with the reference reader's verdict and position"])

p("C22", "Memory follows the data in hand, not the length of the stream",
  "Reading a stream of any length through a reader - with the stream decoder, token by token, or as one call that ignores content - keeps only a bounded window plus the value being delivered: memory retained does not grow with the values or bytes already consumed, also when earlier calls on the object failed or captured raw values. Writing through the encoder or a flushed streamer retains nothing of what has been written. The memory allocated by one call is at most proportional to its input and result. Using the library repeatedly with the same types accumulates neither memory (its caches grow with the number of types only, never with names or strings in the data) nor goroutines.",
  ["inputs", "histories"], "all streams, writers and call histories",
  "Growth shows only after many megabytes or calls; the tests read a few bytes.",
  ["iterator.go", "iterator_raw.go", "iterator_skip.go", "iterator_object.go", "iterator_array.go", "iterator_pool.go", "streamer.go", "streamer_pool.go", "decoder.go", "encoder.go", "stack.go", "decoder_config.go", "encoder_config.go", "struct_field.go"],
  [("window kept while reading", "iterator.go: readMore"), ("capture of raw bytes", "iterator_raw.go, iterator_skip.go"), ("flush", "streamer.go: Flush")],
  ["heap after collection measured at marks within long streams and long call histories; bytes allocated per call"])

p("C23", "On 32-bit platforms everything holds as on 64-bit ones",
  "Where int, uint, uintptr and pointers have 32 bits, decoding and encoding give what encoding/json gives on that platform: int, uint, uintptr and named types of them (also as map keys, quoted members, members dropped when empty, custom options) read exactly the literals in their 32-bit range, report IntOverflowError for others and are written exactly, while 64-bit integers and floats keep their full range in fields at any offset; layouts, hooks, options, streams, skipping and capturing, the streamer, memory safety and totality are what they are on 64-bit platforms. Streams may be longer than the platform's int can count: positions, values and errors stay right beyond 2^31 bytes.",
  ["inputs", "platforms"], "all types, values, texts and call sequences in programs built for a 32-bit platform",
  "The tests are run for 64-bit platforms only, and the size of int selects different coders.",
  ["val_decoder_native_int.go", "val_encoder_native_int.go", "val_decoder_native_uint.go", "val_encoder_native_uint.go", "val_decoder.go", "val_encoder.go", "iterator_int.go", "streamer_int.go", "is_empty.go", "struct.go", "link_reflect.go", "eface.go", "decoder.go", "iterator.go"],
  [("size of int selects the coder", "strconv.IntSize in iterator_int.go and others"), ("position in a stream", "decoder.go: InputOffset")],
  ["the other properties' monitors built for GOARCH=386, run against encoding/json and the references on that platform"])

p("C24", "The Go release and the compiler's options make no difference",
  "Built with any supported Go release (here 1.23 to 1.27, with the map implementations and runtime functions of each), with or without compiler optimisations, and with or without the library's debug tag, the library decodes, encodes, streams, walks and shares memory as that release's encoding/json (v1) and the documents demand: what it borrows from the runtime (layout of interfaces, slices, maps and map iterators, functions linked by name, values hidden from escape analysis) fits the release it is built with, stays safe under its garbage collector, and the debug tag's assertions hold on every path.",
  ["builds", "inputs"], "all programs, inputs and releases",
  "The tests are run with one release and its default options.",
  ["link_reflect.go", "link_reflect_above_go118.go", "link_reflect_below_go118.go", "val_encoder_native_map_above_go118.go", "val_encoder_native_map_below_go118.go", "val_encoder_native_map.go", "val_decoder_native_map.go", "eface.go", "iface.go", "convert.go", "build.go", "build_debug.go", "iterator.go", "struct.go"],
  [("functions linked by name", "link_reflect.go"), ("map iterator", "link_reflect.go: hiter"), ("debug assertions", "iterator.go: readMore")],
  ["the other properties' monitors built with go1.24, go1.26, go1.27, -N -l and -tags debug"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
        f.write(json.dumps(x) + "\n")
