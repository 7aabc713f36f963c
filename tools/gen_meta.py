#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (the texts live here once)."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PF = "src/parquet_format.rs"
MOD = "src/thrift/protocol/mod.rs"
CR = "src/thrift/protocol/compact.rs"
CW = "src/thrift/protocol/compact_write.rs"
ST = "src/thrift/protocol/stream.rs"
AR = "src/thrift/protocol/compact_stream.rs"
AW = "src/thrift/protocol/compact_stream_write.rs"
ER = "src/thrift/errors.rs"
VD = "src/thrift/varint/decode.rs"
VA = "src/thrift/varint/decode_async.rs"
VE = "src/thrift/varint/encode.rs"
VF = "src/thrift/varint/encode_async.rs"

P = []
def p(id, title, statement, over, text, why, files, mech, technique, note, state=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, technique=technique, note=note, state=state))

p("C01", "Every Parquet metadata value survives a synchronous write and read",
  "Any value of any of the 49 Parquet metadata types (structs, unions, enumerations, at any nesting), written with the synchronous writer and read back with the synchronous reader, plain or boxed, comes back equal field by field, with absent optional fields still absent. The reader takes exactly the bytes that were written.",
  ["inputs"], "all values of all 49 public Parquet types: every presence pattern of optional fields, every enum code, every union member, extreme integers, strings of any UTF-8, binaries, lists from empty to tens of thousands of elements",
  "the tests round-trip two hand-written values (one schema element, one page header); the domain of field combinations and integer, string and list sizes is unbounded",
  [PF, CR, CW, MOD], [("generated writer of each type", PF + " write_to_out_protocol"), ("generated reader of each type", PF + " read_from_in_protocol"), ("field delta and boolean packing", CW + " write_field_header / write_bool")],
  "property-based testing: round trip over generated values of all types",
  "random search with shrinking; the equality compares an independent model value and the crate's own PartialEq")
p("C02", "Every Parquet metadata value survives an asynchronous write and read",
  "Any value of any Parquet metadata type, written with the asynchronous writer and read back with the asynchronous reader, comes back equal field by field and the reader takes exactly the bytes that were written, however the transport splits the bytes and however often it answers that it is not ready.",
  ["inputs", "schedules"], "all values as in C01, over all splits of the byte stream into partial reads and writes and all placements of pending answers",
  "the two async tests use an in-memory cursor that is always ready and never splits, and two fixed values",
  [PF, AR, AW, ST], [("generated async reader and writer of each type", PF + " stream_from_in_protocol / write_to_out_stream_protocol"), ("async primitives", AR + ", " + AW)],
  "property-based testing: round trip over generated values and transport schedules",
  "random search over values and poll schedules with a single-threaded executor that fails on lost wake-ups")
p("C03", "Synchronous, boxed and asynchronous writers produce the same bytes",
  "For any Parquet metadata value the synchronous writer, the synchronous writer behind a box and the asynchronous writer produce identical bytes and return identical byte counts. Writing the same value again produces the same bytes again.",
  ["inputs"], "all values of all Parquet types, each through all three writers",
  "no test compares the writers; the sync and async code are two separate copies of several thousand generated lines",
  [PF, CW, AW, MOD], [("sync writers", PF + " write_to_out_protocol, " + CW), ("async writers", PF + " write_to_out_stream_protocol, " + AW), ("forwarding for boxed protocols", MOD + " impl TOutputProtocol for Box<P>")],
  "property-based testing: differential (three writers) over generated values",
  "differential check; a defect common to all writers is C09's business")
p("C04", "Synchronous and asynchronous readers agree on every input",
  "For any byte string and any size limit the synchronous reader, the synchronous reader behind a box and the asynchronous reader have the same outcome: the same value after the same number of bytes, or an error of the same class and kind. This holds for typed values, for generic values, for skipping and for message envelopes.",
  ["inputs", "configurations"], "all byte strings (valid, structurally wrong, damaged, foreign, deeply nested, arbitrary), all size limits, all Parquet types and all wire types",
  "the tests read two valid encodings with each reader; agreement on invalid, hostile and limit-exceeding inputs is never exercised",
  [PF, CR, AR, MOD, ST, VD, VA], [("sync reader", CR + ", " + MOD), ("async reader", AR + ", " + ST), ("size accounting", CR + " / " + AR + " update_remaining")],
  "fuzzing with structured mutators: differential (sync, boxed, async readers)",
  "differential check over generated hostile inputs; where the harness's memory ceiling refuses an allocation only acceptance is compared")
p("C05", "Reported byte counts equal the bytes that reach the transport",
  "Every writing call that returns a byte count returns exactly the number of bytes it handed to the transport, for every Parquet type and every protocol-level call (structs, fields, lists, sets, maps, strings, binaries, booleans, integers, doubles, messages), with the synchronous, boxed and asynchronous writers. The counts of a sequence of calls add up to the length of the output.",
  ["inputs", "histories"], "all values and all sequences of protocol calls, also over transports that accept only part of each write",
  "two tests assert one count each on one value; the README promises the count for the whole write API",
  [PF, CW, AW], [("count accumulation in generated writers", PF + " write_to_out_protocol / write_to_out_stream_protocol"), ("counts of protocol primitives", CW + ", " + AW)],
  "property-based testing: invariant between returned counts and transport contents",
  "random values and call sequences, all writers; transports with short writes")
p("C06", "Reading never panics and always ends after work linear in the input",
  "For any byte string, any size limit and any reading entry point - typed values, skipping, message envelopes, application exceptions, or any balanced sequence of protocol-level reads, synchronous or asynchronous - the call returns a value or an error: it never panics, aborts, overflows the stack or runs forever. The number of protocol operations and of source reads is at most linear in the number of input bytes.",
  ["inputs", "histories"], "all byte strings, limits, entry points and balanced call sequences, including continuing after an error",
  "no test feeds a malformed input; panic freedom is a universally quantified README promise",
  [PF, CR, AR, MOD, ST, ER, VD, VA], [("checked field-id arithmetic", CR + " read_field_begin"), ("bounded recursion of skip", MOD + " skip_till_depth"), ("bounded varints", VD + " VarIntProcessor"), ("required-field verification before unwrap", PF + " verify_required_field_exists")],
  "fuzzing with structured mutators: crash, hang and work-bound monitoring",
  "the harness runs cases in a worker process; panics, aborts, stack overflows and hangs (60 s) are recorded and shrunk; built with overflow checks on")
p("C07", "Memory used while reading is bounded by the size limit and the input",
  "While reading or skipping any byte string under a size limit, the memory allocated at any moment stays below a small constant multiple of the limit plus a small constant multiple of the bytes of input present, whatever lengths and counts the input declares. A short input that declares a huge collection therefore cannot make the reader allocate more than the limit allows.",
  ["inputs", "configurations"], "all byte strings, particularly those with declared lengths and counts at and around the limit, all limits from zero up, both readers",
  "no test sets a limit or measures memory; the README promises the bound to avoid running out of memory on hostile files",
  [CR, AR, MOD, ST], [("size accounting", CR + " / " + AR + " update_remaining"), ("list growth", MOD + " / " + ST + " read_list"), ("fallible reservation", CR + " / " + AR + " read_bytes")],
  "fuzzing with a counting allocator: peak-memory bound as oracle",
  "bound used: 3 x limit + 2048 x input bytes + 64 KiB, measured per case by a counting global allocator",
  state=[("remaining budget", "bytes the protocol instance may still hand out", CR + " remaining")])
p("C08", "The size limit accepts exactly what fits and rejects the rest as over limit",
  "A reader with a size limit reads everything whose footprint fits and fails with the size-limit error as soon as it does not: the smallest sufficient limit is at least the bytes of all strings and binaries plus 8 per collection element, and exceeds that by at most 2 per struct. If a limit suffices, every larger limit gives the same result. The budget covers the whole life of a reader: values read one after the other, and skipped unknown fields, all draw on it.",
  ["inputs", "histories", "configurations"], "all valid encodings and histories of values on one reader, all limits, the exact threshold in particular",
  "every test uses an unlimited budget",
  [CR, AR], [("size accounting", CR + " / " + AR + " update_remaining"), ("charging of strings, lists, sets, maps and structs", CR + " read_bytes, read_list_set_begin, read_map_begin, read_struct_begin")],
  "property-based testing: metamorphic (threshold search, monotonicity) and model footprint",
  "the threshold is found by bisection and compared with an independent footprint model")
p("C09", "Written bytes are Thrift compact protocol for the Parquet schema",
  "The bytes written for any Parquet metadata value are a valid compact-protocol encoding which an independent decoder, knowing only the Thrift specification and the field numbers and types of the Parquet schema, decodes to exactly that value: the right field ids, wire types, union members and enum codes, nothing omitted and nothing added. This holds for the synchronous and the asynchronous writer.",
  ["inputs"], "all values of all Parquet types",
  "the tests only feed the crate's own output back to itself, so a symmetric error (a swapped field id, a different integer encoding) passes; two tests compare a few literal bytes",
  [PF, CW, AW, VD], [("field ids and types in generated writers", PF + " write_field_begin calls"), ("compact encoding", CW + ", " + AW), ("varint and zigzag", VD)],
  "property-based testing: differential against an independent reference decoder",
  "trusts the harness's own decoder and its transcription of parquet.thrift (field id, requiredness, type of every field), which was checked against the unmodified crate")
p("C10", "Every encoding the specification allows is read",
  "A value is read correctly from every valid encoding of it that other writers may choose: struct fields in any order, field ids in the long form instead of deltas, list sizes in the long form, boolean elements announced as type 1 or 2, false elements written as 2 or 0. The reader takes exactly the bytes of the value.",
  ["inputs"], "all values, all field permutations, all combinations of the alternative encodings, both readers",
  "the tests read only what the crate itself writes, in its own single style",
  [PF, CR, AR], [("field header decoding", CR + " / " + AR + " read_field_begin"), ("collection header decoding", CR + " / " + AR + " read_list_set_begin"), ("dispatch on field id", PF + " read_from_in_protocol")],
  "property-based testing: reference encoder with drawn encoding choices",
  "reference encoder draws every free choice of the specification")
p("C11", "Unknown fields are skipped without affecting anything else",
  "Inserting fields with unknown ids, of any wire type and any content (including binary that is not UTF-8, maps, sets, and nesting up to the default skip depth), at any place in any struct of an encoding does not change the value that is read. The reader takes exactly the bytes of the extended encoding.",
  ["inputs"], "all values, all insertion points, all unknown fields of every wire type and nesting, both readers",
  "no test contains an unknown field, which is the schema-evolution guarantee of the format",
  [PF, MOD, ST, CR, AR], [("default arm of field dispatch", PF + " read_from_in_protocol"), ("recursive skip", MOD + " / " + ST + " skip_till_depth"), ("field id stack", CR + " / " + AR + " read_struct_begin / read_struct_end")],
  "property-based testing: metamorphic (inserting unknown fields leaves the value unchanged)",
  "insertion by the reference encoder, nesting up to 64 levels")
p("C12", "Incomplete or contradictory values are rejected, never invented",
  "If a required field of any struct anywhere in the value is missing, if a union holds no member, an unknown member only or more than one member, or if a string is not UTF-8, reading fails with a protocol error. It never yields a value with defaults filled in.",
  ["inputs"], "all values with every single required field removed in turn, every union emptied, replaced or doubled, every string corrupted, both readers",
  "no test reads an invalid value; there are about a hundred required fields and five unions, each with sync and async code",
  [PF, MOD, CR, AR], [("required field checks", PF + " verify_required_field_exists calls"), ("union member counting", PF + " received exactly one union field"), ("UTF-8 check", CR + " / " + AR + " read_string")],
  "property-based testing: mutation of valid values at one random place, error class as oracle",
  "each case invalidates one place of one value")
p("C13", "Truncated input is reported as end of file",
  "Reading any proper prefix of a valid encoding fails with the end-of-file error, wherever the cut lies: inside a length, an integer, a string or binary payload, a collection, or between fields. It never yields a value and never a different error.",
  ["inputs", "crash_points"], "all valid encodings, all cut points, both readers",
  "no test truncates anything",
  [CR, AR, VD, VA, ER], [("payload length check", CR + " / " + AR + " read_bytes"), ("varint end of file", VD + ", " + VA), ("error mapping", ER + " From<io::Error>")],
  "property-based testing: enumeration of cut points over generated encodings",
  "all cut points for short encodings, 40 random ones for long encodings")
p("C14", "The result does not depend on how the source delivers its bytes",
  "Reading gives the same outcome after the same number of bytes whether the source delivers everything at once or in arbitrary pieces, with interrupted reads (synchronous) or not-ready answers (asynchronous) in between. A reader never asks the source for bytes beyond the value it decodes.",
  ["inputs", "schedules"], "all byte strings (valid and hostile), all splits, all placements of interruptions and pending answers",
  "the tests read from slices and cursors, which always deliver fully",
  [CR, AR, VD, VA], [("byte-wise varint reading", VD + ", " + VA), ("exact reads", CR + " / " + AR + " read_byte, read_double, read_bytes")],
  "property-based testing: metamorphic over generated delivery schedules",
  "sources that end or fail right after the value detect over-reading")
p("C15", "A failing source is reported with its own error, never hidden",
  "If the source fails at any byte offset before the value is complete, reading fails, and the error tells the transport kind that corresponds to the source's error (not open, already open, timed out, end of file, unknown). No partial value is returned.",
  ["inputs", "fault_sequences"], "all valid encodings, all fault offsets, all error kinds, all splits, both readers",
  "no test injects a failure",
  [CR, AR, VD, VA, ER], [("error propagation", CR + ", " + AR), ("error mapping", ER + " From<io::Error>")],
  "property-based testing with fault injection",
  "three random offsets and kinds per case over random splits")
p("C16", "Writers deliver all bytes in order or report the failure",
  "Over a transport that accepts writes only partly, is interrupted or answers not ready, the writer still delivers exactly the bytes it would deliver to a perfect transport and the same count. If the transport fails, accepts nothing more, or fails to flush, the writer reports an error of the corresponding kind, and what reached the transport before is an exact prefix.",
  ["inputs", "fault_sequences", "schedules"], "all values and call sequences, all short-write, interruption and pending schedules, all fault and full-sink offsets, failing flushes, all writers",
  "the tests write to a growable buffer, which takes everything and never fails",
  [CW, AW, VE, VF, ER], [("complete writes", CW + " / " + AW + " write_byte, write_bytes, write_double"), ("varint writing", VE + ", " + VF), ("flush", CW + " / " + AW + " flush")],
  "property-based testing with fault injection; model: the bytes on a perfect transport",
  "one random fault offset per case")
p("C17", "Variable-length integers encode minimally and decode exactly",
  "Every integer of every supported width encodes to the minimal base-128 form (zigzag for signed types), reports the right length, and decodes back to itself from a slice, a reader and an asynchronous reader, taking exactly its bytes. Truncated encodings are not accepted, and a run of continuation bytes longer than the type allows is refused after a bounded number of bytes.",
  ["inputs", "schedules"], "all integers of eight widths, all truncations, overlong runs, arbitrary byte strings, split and interrupted readers",
  "the tests sample a handful of integers and only some widths",
  [VD, VA, VE, VF], [("codec", VD + " VarInt impls"), ("streaming decode", VD + " VarIntProcessor, read_varint; " + VA), ("streaming encode", VE + ", " + VF)],
  "property-based testing: round trip and reference codec around length boundaries",
  "eight widths per case, values concentrated on length boundaries")
p("C18", "Any Thrift value written through the protocol API is read back unchanged",
  "Any sequence of protocol-level writes that forms a Thrift value - all eleven wire types including maps, sets, doubles and bytes, nested, with arbitrary 16-bit field ids in any order - produces bytes that an independent decoder reads as that value, with the right returned count, and that every reader of the crate reads back unchanged. This holds for the synchronous, boxed and asynchronous protocols.",
  ["inputs", "histories"], "all Thrift values, all field-id sequences, all protocol implementations",
  "the Parquet types use no map, set, double or 16-bit field and only small ascending field ids, so those paths are never run by a test",
  [CW, AW, CR, AR, MOD], [("field header with deltas", CW + " / " + AW + " write_field_header"), ("map header", CW + " / " + AW + " write_map_begin"), ("forwarding for boxed protocols", MOD)],
  "property-based testing: round trip and differential against a reference codec",
  "values up to 6 levels deep in the quick tier")
p("C19", "Skipping takes exactly the bytes of a value, down to the depth limit",
  "Skipping a value of any wire type leaves the reader exactly behind it, with the following fields keeping their ids, and charges the size limit exactly as reading does. It succeeds if and only if the nesting depth of the value is within the given limit (64 by default), and otherwise fails with the depth-limit error, for every limit including zero and negative ones.",
  ["inputs", "configurations"], "all values up to 140 levels deep, all depth limits from -128 to 127, both readers",
  "no test skips anything",
  [MOD, ST, CR, AR], [("recursive skip", MOD + " / " + ST + " skip_till_depth"), ("default depth", MOD + " MAXIMUM_SKIP_DEPTH")],
  "property-based testing: skip compared with a full read and a depth model",
  "deep spines around the 64-level default and exact thresholds")
p("C20", "Message envelopes and application exceptions survive, damaged ones fail",
  "A message envelope (name, type, sequence number) and its payload are written in the compact-protocol form and read back unchanged by the synchronous and asynchronous protocols; a wrong protocol id or version, an unknown message type or a truncated envelope is rejected with the matching error. Application exceptions keep their text and kind through write and read, unknown codes become the unknown kind, unknown fields are skipped, and the envelope verifiers accept exactly equal sequence numbers, names and message types.",
  ["inputs"], "all names, message types, 32-bit sequence numbers, payloads, exception texts and codes, damaged envelopes",
  "no test touches messages or application exceptions",
  [MOD, CR, CW, AR, AW, ER], [("envelope", CR + " / " + AR + " read_message_begin, " + CW + " / " + AW + " write_message_begin"), ("exceptions", ER + " read_application_error_from_in_protocol / write_application_error_to_out_protocol"), ("verifiers", MOD + " verify_expected_*")],
  "property-based testing: round trip, reference encoding and damaged envelopes",
  "envelopes compared with the reference encoding")
p("C21", "A protocol instance keeps no memory between complete values",
  "On one protocol instance, any history of complete operations - typed values, generic structs, bare values and messages, each read typed, read generically or skipped - gives for each operation what a fresh instance would give, and the positions and counts advance by exactly each operation's bytes. After seeking a reader to the start of any earlier value, that value is read again correctly. The same holds for a value that follows foreign bytes which were accepted.",
  ["histories"], "all histories of 2 to 10 operations over all operation kinds, both APIs, with seeks in between",
  "every test uses a protocol instance for one value",
  [CR, AR, CW, AW], [("field id stack", CR + " / " + AR + " / " + CW + " / " + AW + " *_field_id_stack"), ("pending boolean", CR + " pending_read_bool_value, " + CW + " pending_write_bool_field_identifier"), ("seek", CR + " impl Seek")],
  "stateful (model-based) property testing over operation histories",
  "histories of up to 10 operations, some of up to 400",
  state=[("last field id and stack", "base of field-id deltas, saved at each nested struct", CR + " last_read_field_id, read_field_id_stack"), ("pending boolean", "boolean value carried by a field header", CR + " pending_read_bool_value")])
p("C22", "Enumerations keep every 32-bit code, and listed constants keep their numbers",
  "Each of the seven Parquet enumerations converts from and to any 32-bit code without loss, writes it and reads it back unchanged whether or not it is a listed constant, alone and inside other values. The listed constants have the numbers of the Parquet definition.",
  ["inputs"], "all 32-bit codes for all seven enumerations",
  "the tests use two constants",
  [PF], [("open enum structs", PF + " Type, ConvertedType, FieldRepetitionType, Encoding, CompressionCodec, PageType, BoundaryOrder")],
  "property-based testing: round trip of arbitrary codes; table of the Parquet constants",
  "constants compared with a transcription of parquet.thrift")
p("C23", "Reading then writing gives a stable normal form",
  "Whatever bytes the reader accepts as a value, writing that value and reading it again gives the same value, and writing once more gives the same bytes. The result of reading depends only on the bytes it took and is the same every time.",
  ["inputs"], "all accepted byte strings, including those with unknown fields, repeated fields, unusual encodings and damage that happens to be harmless",
  "no test re-writes what it read from foreign bytes",
  [PF, CR, CW, AR, AW], [("generated readers and writers", PF), ("protocols", CR + ", " + CW + ", " + AR + ", " + AW)],
  "fuzzing with structured mutators: idempotence of decode and encode",
  "only accepted inputs are non-trivial; their share is reported")
p("C24", "Error codes and transport errors convert without loss",
  "Each error-code enumeration (transport, protocol, application) converts from and to its documented numbers, and refuses all other 32-bit codes with an error of unknown kind. Source and sink errors become the documented transport error kind, text messages are kept, and every error can be displayed.",
  ["inputs"], "all 32-bit codes, all I/O error kinds, all message texts",
  "no test converts an error",
  [ER], [("code conversions", ER + " TryFrom<i32> impls"), ("io::Error mapping", ER + " From<io::Error>"), ("display", ER + " Display impls")],
  "property-based testing: conversion tables over arbitrary codes",
  "tables transcribed from the Thrift specification and the crate's documentation")
p("C25", "Constructors place every argument in its own field",
  "Building any Parquet struct through its constructor from the fields of an existing value gives a value equal to it, for optional arguments given as a value, as present or as absent. No argument is dropped, swapped or defaulted.",
  ["inputs"], "all values of all struct types with constructors",
  "the tests call two constructors with mostly distinguishable defaults; several constructors take ten or more arguments of the same type",
  [PF], [("generated constructors", PF + " new functions")],
  "property-based testing: rebuild from parts",
  "distinct random field values make swaps visible")
p("C26", "The reader accepts exactly the valid values an independent decoder accepts",
  "For any byte string that is well-formed compact protocol with the expected field types, the reader agrees with an independent schema-driven decoder: it accepts if and only if all required fields, union members and strings are valid, with the same value and the same number of bytes. For repeated fields the last one counts.",
  ["inputs"], "all byte strings, valid, damaged, foreign or arbitrary, that are well formed for the schema",
  "the tests never read bytes the crate did not write itself",
  [PF, CR, AR, MOD, ST], [("generated readers", PF + " read_from_in_protocol / stream_from_in_protocol"), ("protocol decoding", CR + ", " + AR)],
  "fuzzing with structured mutators: differential against a reference decoder",
  "inputs whose known fields carry another wire type than the schema says, and inputs that are not well formed, are outside the property (the crate, like all generated Thrift code, does not check wire types)")
p("C27", "Lengths and counts that do not fit the wire format are refused",
  "Writing a string, binary or list of 2^32 or more bytes or elements fails with a protocol error before any of its content or a wrong length reaches the transport. A string or binary of just under 2^32 bytes is written in full, with the right length and count.",
  ["inputs"], "all lengths around and above 2^32, strings, binaries and lists, all writers",
  "no test writes more than a few bytes",
  [CW, AW, PF], [("checked length conversion", CW + " / " + AW + " write_bytes"), ("checked list count", PF + " len().try_into()?")],
  "property-based testing: boundary search around 2^32 with lazily mapped memory",
  "uses zero pages, so it costs address space and no memory")

p("C28", "Any output protocol is driven with complete, balanced, described calls",
  "Writing a Parquet value or an application exception to any output protocol - any implementation of the synchronous or asynchronous output trait, plain or boxed - describes exactly that value: every struct, field and list that is begun is ended, fields carry the ids, types and names of the Parquet definition, each at most once and closed by a field stop, lists announce as many elements as follow, and strings and binaries use their own calls. The reported byte count is the sum of what the protocol's calls returned.",
  ["inputs"], "all values of all Parquet types, over protocols that return arbitrary counts and that may be pending at any call",
  "the tests only use the compact protocol, for which ends, names and several counts are no-ops",
  [PF, MOD, ER], [("generated writers", PF + " write_to_out_protocol / write_to_out_stream_protocol"), ("application exceptions", ER + " write_application_error_to_out_protocol"), ("forwarding for boxed protocols", MOD + " impl TOutputProtocol for Box<P>")],
  "property-based testing: recorded call history parsed against the Parquet schema",
  "the recorder's counts are arbitrary, so that every call's count must be added exactly once")
p("C29", "Any input protocol is driven with complete, balanced, matching calls",
  "Reading a Parquet value or an application exception, or skipping a value of any type, from any input protocol - any implementation of the synchronous or asynchronous input trait, plain or boxed - makes exactly the calls the value is made of: every struct, field, list, set and map that is begun is ended, unknown and skipped fields included, lists are read for as many elements as announced, strings and binaries are read with their own calls, and nothing is read past the end. Names given by the protocol carry no meaning.",
  ["inputs"], "all values of all Parquet types in every field order and with unknown fields of every type, all generic values to skip, over protocols that may be pending at any call",
  "the tests only use the compact protocol, for which every end call is a no-op; skipping is never tested",
  [PF, MOD, ST, ER], [("generated readers", PF + " read_from_in_protocol / stream_from_in_protocol"), ("skipping", MOD + " / " + ST + " skip_till_depth"), ("lists", MOD + " / " + ST + " read_list"), ("application exceptions", ER + " read_application_error_from_in_protocol")],
  "property-based testing: strict scripted protocol as monitor of the call history",
  "the script is built from the model value, not from the crate's writer")
p("C30", "An error of a protocol comes back unchanged and ends the operation",
  "When any one call on an input or output protocol fails while a Parquet value or application exception is written or read, or a value is skipped, the caller gets that very error (class, kind and message) and no further call is made on the protocol, synchronously, boxed or asynchronously.",
  ["inputs", "fault_sequences"], "all values, all calls of the operation as the failing one, all error classes",
  "no test makes a protocol fail; the documentation tells callers to give up a protocol after an error, which a swallowed error or a late call breaks",
  [PF, MOD, ST, ER], [("error propagation in generated code", PF), ("skipping and lists", MOD + " / " + ST + " skip_till_depth, read_list"), ("application exceptions", ER)],
  "property-based testing with fault injection at every protocol call",
  "the failing call is drawn uniformly over the calls of the operation")
p("C31", "A boxed protocol behaves like the protocol inside it",
  "Every call made on a boxed input or output protocol, with whatever arguments, reaches the protocol inside as the same call with the same arguments, and its answer - value, count or error - is returned unchanged, through any number of boxes and through trait objects.",
  ["inputs", "histories"], "all sequences of calls with all arguments, including failing ones",
  "no test uses a boxed protocol, and typed values never use sets, maps, doubles, messages or flushes",
  [MOD], [("forwarding for boxed protocols", MOD + " impl TInputProtocol for Box<P>, impl TOutputProtocol for Box<P>")],
  "property-based testing: differential (boxed against plain protocol) over call histories",
  "random call sequences")
p("C32", "Values compare, order, hash and copy by their contents",
  "Two values of a Parquet type are equal exactly if all their fields are; their order is total, agrees with equality, is antisymmetric and transitive; equal values have equal hashes; a clone equals its original and has the same contents. Using metadata values as keys of maps and sets is therefore safe.",
  ["inputs"], "all pairs and triples of values of all Parquet types, particularly those that differ in one place",
  "the tests compare two pairs of equal values; a difference that equality misses is never presented",
  [PF], [("derived comparisons", PF + " derive(Clone, Eq, Hash, Ord, PartialEq, PartialOrd)")],
  "property-based testing: algebraic laws against the model's equality",
  "the order itself is not specified, only its laws")

p("C33", "After a seek a reader forgets what it was in the middle of",
  "A synchronous protocol over a seekable source can be put at the start of any complete value with its own seek, also when the value read last was left in the middle (after any number of its protocol-level reads) or when bytes at another place, or of another type, were read and accepted before. It then reads or skips that value exactly as a new protocol would. Nothing of the earlier read is left over: no open field, no nesting, no pending boolean.",
  ["histories"], "all values and all numbers of calls after which their reading is left, all accepted foreign bytes, each followed by a seek to any complete value",
  "the tests never seek and always read a value to its end; peeking into metadata and then jumping elsewhere does both",
  [CR, MOD], [("pending boolean", CR + " pending_read_bool_value, read_field_end, Seek::seek"), ("field-id bookkeeping", CR + " read_struct_begin / read_struct_end"), ("seeking", CR + " impl Seek for TCompactInputProtocol")],
  "property-based testing: stateful histories of partial reads and seeks against new readers",
  "a protocol that has answered an error is given up, as its documentation demands",
  state=[("field-id stack", "ids of the enclosing structs' last fields", CR + " read_field_id_stack"), ("pending boolean", "value of a boolean field header not yet read", CR + " pending_read_bool_value")])

with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for x in P:
        a = {"files": x["files"], "mechanism": [{"name": n, "where": w} for n, w in x["mech"]]}
        if x["state"]:
            a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in x["state"]]
        a["observe_at"] = ["public API of the crate"]
        a["hook_needed"] = None
        f.write(json.dumps({"id": x["id"], "title": x["title"], "statement": x["statement"], "quantifier": {"over": x["over"], "text": x["text"]}, "why_tests_cant": x["why"], "anchors": a}) + "\n")

m = {"version": 1, "setup_cmd": "./check.sh build", "checks": [], "not_applicable": [],
     "notes": "One Rust harness (/verif/harness) with a path dependency on /repo; every check rebuilds it from /repo's working tree. No hooks in /repo are needed: everything is observed through the public API. Counterexamples are shrunk and written to /verif/replays; './check.sh replay FILE' runs one again."}
for x in P:
    m["checks"].append({"property": x["id"], "quick_cmd": "./check.sh %s quick" % x["id"], "thorough_cmd": "./check.sh %s thorough" % x["id"], "technique": x["technique"], "level": "exploration",
        "level_note": "No violation among the generated cases, not a proof; " + x["note"] + "."})
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(ROOT, "MANIFEST.json"), "a").write("\n")
