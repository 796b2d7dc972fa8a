#!/usr/bin/env python3
"""Source of properties.jsonl: edit here, run, commit both."""
import json, os
P = "core/src/parser.rs"; EN = "core/src/encode.rs"; MO = "core/src/model.rs"; FO = "core/src/formats.rs"
TO = "core/src/tokenizer.rs"; DS = "core/src/datastream.rs"; MB = "core/src/message_buf.rs"; FH = "core/src/field_helpers.rs"
BU = "core/src/builder.rs"; DI = "core/src/display.rs"; MU = "core/src/macro_utils.rs"; MA = "macros/src/lib.rs"; MAU = "macros/src/utils.rs"
props = []
def p(id, title, statement, over, qtext, why, files, mech, observe, hook=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": hook}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    props.append({"id": id, "title": title, "statement": statement,
                  "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

p("C01", "Byte-for-byte re-emission of well-formed logs",
  "For every well-formed ULog stream without appended data, parsing it with header, timestamps and padding included and no subscription allow list, and encoding the returned messages in order, reproduces the input byte for byte. This holds for every message type the format defines and for message types the library does not know.",
  ["inputs"], "all well-formed ULog streams: any mix of definitions, nested/array/padded formats, infos, parameters, subscriptions, data, strings (tagged or not), dropouts, syncs, removals and unknown types, with any values",
  "test_roundtrip re-emits the four sample logs in test_data only; those contain no tagged strings, removals or unusual types, so anything those logs lack is never compared.",
  [EN, P, FO, TO, DI, MO], [("one encoder per message kind", EN), ("values kept with their declared type", P + " parse_field_value")],
  ["Encode::encode output vs. input bytes"])

p("C02", "Messages are decoded exactly as the format defines",
  "For every well-formed ULog stream, each message is returned exactly once, in stream order, as its own message kind, with exactly the keys, types, values, names, ids, flags, log levels, tags and timestamps that its bytes encode under the ULog format. For logged data this includes nested and array fields in declaration order, padding fields of any size (which may be missing only at the end), the message's own timestamp, and the instance number of messages that have several instances.",
  ["inputs"], "all well-formed ULog streams, all field types, array sizes, nesting shapes, orders and values",
  "Unit tests decode a few fixed logs and compare a handful of fields; the decoder's behaviour on other types, nestings, paddings and message orders is not sampled.",
  [P, FH, MB, FO, TO, MO], [("format-driven recursive decoder", P + " parse_data_message_sub"), ("little-endian cursor", MB), ("format grammar", FO)],
  ["items returned by the parser's iterator vs. an independent description of the stream"])

p("C03", "Whatever is accepted re-encodes to something that decodes the same",
  "For any byte stream that declares no appended data, encoding in order the messages the parser returned without error (header, timestamps and padding included, no allow list) gives a stream that parses without any error to the same sequence of messages. Encoding that second result reproduces the re-encoded stream exactly.",
  ["inputs"], "arbitrary byte streams, including corrupted, non-canonical and hostile ones",
  "The round-trip tests use only canonical logs for which every message parses; non-canonical input (odd spacing, surplus bytes, non-0/1 booleans, failing messages in between) is never re-encoded.",
  [EN, P, FO, TO], [("encoders mirror decoders", EN)], ["second parse of the re-encoded stream vs. first parse"])

p("C04", "No input crashes or hangs the library",
  "For any byte stream, with any combination of parser options, iterating the parser to the end, and rendering, flattening, encoding or mapping what it returns onto user structs, never panics, aborts or overflows the stack. The iteration always ends, yielding at most one item per message present in the stream plus at most one final error.",
  ["inputs", "configurations"], "arbitrary byte streams (random, mutated, truncated, adversarial format definitions, huge declared sizes, self-referential types), all option combinations",
  "Tests feed valid logs and one unknown token; hostile sizes, recursive definitions and malformed messages are never tried.",
  [P, TO, FO, FH, MB, DI, MO, MA], [("bounds-checked cursor", MB), ("errors instead of panics", "core/src/errors.rs")],
  ["panics, process exit status, CPU time, number of items"])

p("C05", "Resource use follows the bytes present, not the sizes declared",
  "The memory and the work spent on any one message are bounded by the bytes actually present in that message and by the size of the format definitions read so far. They never grow with an array length, nesting or self-reference that the stream merely declares without supplying the bytes for it.",
  ["inputs"], "all streams, in particular format definitions and info or data messages declaring arrays up to the largest integer, zero-size element types, exponential or cyclic nesting",
  "No test measures memory, and none declares an array larger than its data.",
  [FH, P, FO], [("decoding stops at the end of the message", MB), ("pre-allocation", FH + " parse_array")],
  ["allocator-level peak and total bytes per message"])

p("C06", "Streaming: constant memory and prompt delivery",
  "Iterating a log whose definitions and set of subscriptions are fixed keeps only a bounded amount of memory however long the log is. Each message is delivered as soon as its own last byte is available, without the parser asking the source for any byte beyond it.",
  ["inputs", "histories"], "logs of any length and any mix of messages; sources that deliver a message at a time",
  "Tests parse small files from disk and observe neither memory nor read-ahead.",
  [P, DS, "README.md"], [("one message buffered at a time", P + " read_message"), ("exact-size reads", DS)],
  ["live heap after each message; reads issued before each message is returned"])

p("C07", "A truncated log yields exactly its complete messages",
  "If a well-formed log is cut at any byte, the parser returns exactly the messages that are complete before the cut, unchanged, and never a message made up from the missing part. A cut inside a message's payload is reported as one error after them, a cut between messages as a normal end, and a cut inside the 16-byte file header as an invalid header with nothing else returned.",
  ["crash_points", "inputs"], "every cut position of every well-formed log (power loss while logging)",
  "No test truncates a log.",
  [P, DS], [("end-of-file detection", DS + " read_exact, " + P + " read_message_header")],
  ["items returned for each prefix vs. items of the whole log"])

p("C08", "Results do not depend on how the source delivers bytes or fails",
  "The messages returned are the same whatever sizes the source's reads return and however often they are interrupted. If the source fails with an I/O error while message data is being read, all messages delivered in full before the failure are returned unchanged, the failure is reported once with its original kind, and no message is ever returned after it, even if the source recovers. Nor is anything returned that a source delivers after it has reported its end.",
  ["fault_sequences", "inputs"], "all well-formed logs, all partitions of the stream into reads, all positions and kinds of transient or persistent read error",
  "Tests read files through BufReader; no test has a short read, an interruption or a read error.",
  [DS, P], [("exact reads over any reader", DS + " read_exact")], ["items returned under a fault-injecting reader"])

p("C09", "One bad message costs exactly one error",
  "If a message with a valid length prefix has malformed contents, the parser reports exactly one error in its place, and every other message that does not depend on it is returned exactly as if the bad message were absent.",
  ["inputs"], "any well-formed log with malformed messages inserted at any positions: short payloads, invalid UTF-8, broken definitions, unknown types, bad levels, unknown ids",
  "Tests stop at the first error or contain none; what follows an error is never checked.",
  [P, FO, TO], [("payload is read in full before being interpreted", P + " read_message")],
  ["items with and without the bad messages"])

p("C10", "The allow list selects data messages and nothing else",
  "With a subscription allow list, data messages whose subscription name is listed are returned exactly as without the list, every other data message of a known subscription is replaced in place by an ignored marker, and all other messages are unchanged. Encoding the result omits the ignored messages and gives a stream that parses to exactly the kept messages.",
  ["inputs", "configurations", "histories"], "all well-formed logs (including ids that are removed and reused for another name) and all allow lists, including empty lists and names that never occur",
  "test_sub_allow_list checks one list on one file and stops after the first few messages; removal and reuse of ids and re-encoding are not touched.",
  [P, BU, EN], [("name filter resolved to ids", P + " SubscriptionFilter")], ["filtered items vs. unfiltered items"],
  state=[("allowed ids", "ids whose current subscription is listed", P)])

p("C11", "Output options only add or remove what they name",
  "Including or excluding the header, the timestamp fields or the padding fields changes nothing else in what is returned: the header option adds one leading header message, the timestamp option keeps or drops the top-level timestamp field of data messages, and the padding option keeps or drops padding fields. Message timestamps and all other fields, values, orders and errors are the same under all eight combinations.",
  ["configurations", "inputs"], "all eight option combinations on all streams",
  "Tests use one or two combinations and never compare them.",
  [P, BU], [("field filter", P + " filter_fields, parse_padding")], ["items under each combination vs. the all-included result"])

p("C12", "Nothing at or beyond the first appended-data offset is interpreted",
  "When the flag bits declare appended data, the parser returns exactly the messages that lie completely before the first non-zero appended-data offset, then ends; no byte at or beyond that offset ever contributes to a message returned after the flag bits. Without that declaration, or when all offsets are zero, offsets have no effect.",
  ["inputs", "crash_points"], "all logs with flag bits and all offsets: at message boundaries, inside messages, inside message headers, before the current position, beyond the end",
  "No test log has appended data.",
  [P], [("byte limit", P + " max_bytes_to_read")], ["items returned vs. message extents"],
  state=[("read limit", "first non-zero appended offset", P)])

p("C13", "Logs that cannot be understood are refused",
  "A stream that does not begin with the ULog magic bytes, or whose flag bits set any incompatibility bit other than 'data appended', is refused with the corresponding error. After that error the parser never returns a message from the stream.",
  ["inputs"], "all headers and all settings of the 64 incompatibility bits, followed by any contents",
  "No test has a bad header or any incompatibility bit set.",
  [P, MO], [("header and flag validation", P + " read_file_header, parse_flag_bits")], ["first error and all later items"])

p("C14", "Unknown and out-of-place messages pass through untouched",
  "A message whose type is unknown to the library, is not interpreted by it, or is not valid in the section where it appears is returned in place with its type byte and its complete payload unchanged. Its presence changes nothing about any other message.",
  ["inputs"], "all type bytes outside the known set, sync and removal messages, definition messages after the definitions end, data before them; payloads of every length up to the maximum",
  "Tests contain one unknown token inside a format definition and no unknown message type.",
  [P, EN], [("fallback arms", P + " parse_definition, parse_data")], ["raw message items vs. input; rest vs. log without them"])

p("C15", "Data is interpreted under the subscription currently in force",
  "Over any sequence of subscription additions, removals, replacements and data messages, each data message is decoded with the format of the latest subscription in force for its id, carrying the instance number once an instance above zero has been announced for that name, and data for an id not currently subscribed is an error. A subscription to an undefined format is an error and changes nothing, and lookups of subscriptions and formats on the parser always reflect the messages returned so far.",
  ["histories"], "all histories of add / remove / re-add over shared ids, names and instances interleaved with data",
  "Sample logs add each subscription once and never remove one.",
  [P, MA], [("subscription table", P + " next_sub, parse_data")], ["items and lookups vs. a reference table"],
  state=[("subscriptions", "live id table", P), ("names with several instances", "instance number reporting", P)])

p("C16", "Derived mappings deliver exactly the mapped data",
  "For every enum of data structs accepted by the derive macros, whatever the names (short of names that shadow Rust's prelude) and the visibility of the enum, its variants and its structs, each data message of a subscription whose name and instance match a variant is yielded once, in stream order, as that variant, with every struct field holding exactly the value logged for the field of that name. Names follow the documented rules: snake case of the struct or field name unless overridden, instance 0 unless specified, absent optional fields None, nested structs and arrays of structs converted recursively.",
  ["programs", "inputs"], "all valid struct and enum declarations (names, overrides, field types, orders, subsets, optionals, nesting, instances) against all matching logs",
  "The tests derive a handful of fixed structs against one file; other names, types, orders and layouts are never compiled or compared.",
  [MA, MAU, MU], [("accessor generation", MA + " derive_logged_struct"), ("dispatch on name and instance", MA + " derive_logged_enum"), ("typed conversion", MU)],
  ["values yielded by generated programs vs. an independent description of the log"])

p("C17", "Derived mappings never deliver a wrong value for a mismatched schema",
  "If a logged format lacks a required field or holds it with another type or shape than the struct declares, the derived stream yields an error instead of a value, and never panics or substitutes another field's data. Such errors do not affect the delivery of other mapped messages, before or after.",
  ["programs", "inputs"], "all struct declarations against all logged formats, including reordered, retyped, missing, padded and hostile ones",
  "Only one missing-field case is tested.",
  [MA, MU], [("missing-field check", MA + " from_format"), ("type check on conversion", MU + " FromField")], ["items of derived streams over mismatching logs"])

p("C18", "Derived streams forward every unmapped message as configured",
  "With a catch-all variant, every message that is not mapped is yielded in place and unchanged through that variant, except that data of unlisted subscriptions appears as ignored markers and subscription announcements appear only when forwarding is requested (the last setting counts), and then only those no variant maps; extra subscriptions added on the builder are delivered decoded. Without a catch-all variant only mapped data and errors are yielded, and asking for extra subscriptions or forwarding is refused as an invalid configuration.",
  ["configurations", "inputs", "programs"], "all enums with and without a catch-all, all builder settings, all logs",
  "Tests look for the presence of a message kind, not for completeness, order or content of what is forwarded.",
  [MA], [("forwarding arms", MA + " derive_logged_enum"), ("builder", MA)], ["items of derived streams vs. items of the plain parser"])

p("C19", "With thread_safe, parsed data can be shared across threads freely",
  "With the thread_safe feature, messages returned by a parser can be moved to, shared with, cloned, read, encoded and dropped by any number of threads concurrently, while parsers run on other threads, without any data race. Every thread observes exactly the values a single-threaded run gives.",
  ["schedules"], "all interleavings of clone, read, render, encode, drop and parse operations on shared messages",
  "The only test is a compile-time Send + Sync assertion; nothing is executed on several threads.",
  [MO, P], [("atomic reference counting", MO + " Shared")], ["ThreadSanitizer and Miri reports; per-thread digests"])

p("C20", "No undefined behaviour in the library's unsafe code or elsewhere",
  "No use of the public interface of the library on any input leads to undefined behaviour: no invalid, out-of-bounds or dangling memory access, invalid value, or misuse of raw slices. Byte views of character arrays always cover exactly the characters of the array.",
  ["inputs"], "all inputs through the parsing, encoding, rendering, character-array and mapping interfaces, including empty arrays",
  "Ordinary tests cannot observe undefined behaviour and never run under an interpreter or sanitizer.",
  [MO, EN], [("transparent character newtype viewed as bytes", MO + " CCharSlice::as_bytes, " + EN + " ArrayChar")],
  ["Miri and AddressSanitizer reports; byte views vs. characters"])

p("C21", "Parsing is deterministic, isolated and silent",
  "Parsing the same bytes gives the same result every time, however many parsers are active in the process, interleaved or on other threads, and whatever they parse. The library itself writes nothing to standard output or standard error.",
  ["histories", "schedules", "inputs"], "all inputs, all interleavings of several parsers in one process, with and without a logger installed",
  "Tests run one parser at a time and ignore what is printed.",
  [P, TO], [("all parser state is per instance", P)], ["results of interleaved parsers vs. solo runs; captured standard streams"])

p("C22", "The byte readers behave as exact little-endian cursors",
  "Over any sequence of operations, the message buffer and the data stream return exactly the next bytes in order, interpreted as little-endian values, and advance by exactly the number of bytes consumed. A request for more bytes than the message buffer holds is an error that consumes nothing and never panics, and the reported remaining length is always exact.",
  ["histories", "inputs"], "all operation sequences with all sizes up to the largest integer, on all buffers and readers",
  "Unit tests read each type once with the value 42 and never run past the end of a message buffer.",
  [MB, DS], [("checked cursor", MB + " advance"), ("skip and typed reads", DS)], ["returned values and remaining lengths vs. a reference cursor"])

p("C23", "Rendered and flattened values are faithful",
  "The text rendering of any parsed value, parameter, info, logged string or subscription shows its key or name and its exact value: numbers in full precision so that they read back to the same value, booleans and characters as such, character arrays as quoted text, arrays as complete lists in order, release versions in hexadecimal, and nested structures by their format name; a format definition shows all its fields with their types. Flattening a data message lists every leaf value exactly once, in order, under its full path, and trimming a character array removes exactly its trailing NULs.",
  ["inputs"], "all values of all types, all nestings and array lengths",
  "No test renders or flattens anything.",
  [DI, MO], [("Display implementations", DI), ("flatten", MO)], ["rendered text and flattened lists vs. an independent rendering"])

p("C24", "Encoding is exact on any sink and reports every sink failure",
  "Encoding a message writes the same bytes whatever amounts the sink accepts per write and however often it is interrupted. If the sink fails, encoding returns that failure, never success, and everything accepted by the sink until then is a prefix of the correct output.",
  ["fault_sequences", "inputs"], "all messages, all partitions into short writes, all positions and kinds of write failure",
  "Tests encode only into vectors and ordinary files, which never write short or fail.",
  [EN], [("write_all and error propagation", EN)], ["bytes accepted and result under a fault-injecting writer"])

p("C25", "Encoding refuses what the format cannot represent",
  "Encoding a message whose contents exceed the 65535-byte message limit, or whose typed key exceeds 255 bytes, fails with an error. It never writes a message whose length fields disagree with its contents.",
  ["inputs"], "all messages a user can build or modify through the public fields, with sizes around and beyond the limits",
  "Tests only re-encode parsed messages, which are always within the limits.",
  [EN], [("length prefixes", EN)], ["encode result and output length fields around the limits"])

p("C26", "Derived streams are as robust as the parser beneath them",
  "Whatever the bytes and whatever the source, the items of a derived stream are exactly the mapping of the plain parser's items, in order: a malformed message or a failed mapping gives one error in its place and disturbs nothing else, a log cut or failing at any point yields the mapping of what came before and then the same error and end, and a source that reads in pieces or is interrupted changes nothing. A derived stream never panics, delivers each item before more of the log is needed, and keeps its memory constant however long the log.",
  ["inputs", "fault_sequences", "histories"], "all byte streams, all sources (whole, piecemeal, interrupted, failing, unbounded), for declared structs with optional, renamed, nested and array fields, any instance filters, with and without catch-all",
  "The macro tests run over intact sample files read whole, so errors, damage, end of log and live sources are never seen through a derived stream.",
  [MA, P, MU], [("generated iterator", MA + " derive_logged_enum"), ("accessors", MU), ("parser iterator", P + " next")],
  ["items of derived streams vs. a reference mapping of the plain parser's items", "bytes asked for before each item", "live heap"])

p("C27", "A parser does exactly what it was configured to do",
  "A parser without settings behaves as documented: no header, no timestamps, no padding, every subscription. Of settings made repeatedly the last counts; the order among different settings, the place where the allow list is given (builder or parser), the collection it comes in and duplicates in it make no difference; an empty list admits nothing. An allow list set while reading governs exactly the data read from then on, whatever was announced before. What one parser is told never affects another.",
  ["configurations", "histories", "inputs"], "all sequences of settings on builder and parser, before and between items, over all streams",
  "Tests use three fixed configurations, each set once, in one order, before reading.",
  [BU, P], [("builder", BU), ("allowed ids", P + " set_allowed_subscription_names")], ["items vs. the projection of the fully included items by the effective settings"])

p("C28", "Messages users build or edit are written as the format prescribes",
  "A valid message of any kind that a user assembles or edits through the public fields encodes to exactly the bytes the ULog format prescribes for its contents, from the values it holds now and not from what was once parsed; its parts encode to the same bytes as in the whole; and a log written of such messages parses back to the same messages.",
  ["inputs", "histories"], "all valid messages of every kind with all value types, built from scratch or parsed and then changed in any field",
  "Tests only re-encode messages as they were parsed.",
  [EN, MO], [("one encoder per message kind", EN)], ["encoded bytes vs. the generator's own layout; second parse"])

p("C29", "Results do not depend on how the library is built",
  "For every byte stream, everything observable (items, errors, rendered text, encoded bytes, flattened lists, derived streams) is the same whether the library is built optimised or not, with or without arithmetic checks and debug assertions, and with or without the thread_safe and macros features.",
  ["inputs", "configurations"], "all byte streams, well-formed, damaged and hostile; all build profiles and feature combinations",
  "The tests run in one build only, and compare it with nothing.",
  ["core/Cargo.toml", P, MB, EN, MO], [("feature gates", MO + " cfg(feature)"), ("arithmetic on sizes from the stream", P)], ["digest of everything observable, compared between builds"])

p("C30", "Results do not depend on the machine",
  "For every byte stream, everything observable is the same on 64-bit and 32-bit machines and on little-endian and big-endian ones, save that an array size that does not fit the machine's word is refused at its definition.",
  ["inputs", "configurations"], "all byte streams, well-formed, damaged and hostile; machines of either byte order and word size",
  "The tests run on the developer's machine, which is 64-bit and little-endian.",
  [MB, DS, EN, P, FH], [("explicit little-endian reads and writes", MB), ("lengths and sizes in usize", P)], ["digest of everything observable, compared between machines"])

p("C31", "What the derive macros cannot map is refused at compile time",
  "A declaration that the derive macros cannot map exactly as written is refused by the compiler, never accepted and silently mapped otherwise: generics, lifetimes and where clauses, unnamed fields, ULogData on anything but a struct, ULogMessages on anything but an enum, a variant with other than one field or of a type that is not mapped, more than one catch-all or one of another type, a field of a type that no ULog value maps to, a variant with named fields, and any attribute of a struct, field, enum or variant, or inside a variant, that is unknown, misplaced, repeated, of no known form, or of a wrong type or range. The same declaration without the fault is accepted. Variants without any field list are left open.",
  ["inputs", "configurations"], "all declarations of structs and enums with one fault of any of these kinds",
  "Tests that compile declare only what is accepted; what must be refused is not tested at all.",
  [MA, MU], [("checks of the declaration", MA), ("attributes", MA + " LoggedVariantAttr::from_variant")], ["accepted or refused, for pairs of declarations that differ in the fault only"])

p("C32", "The pieces used by hand agree with the streams and do not disturb them",
  "While a log is read, a message body handed to parse_data() and then filtered with filter_fields() gives exactly what the stream yields for that message at that point, or an error where the stream yields one, and neither this nor looking up formats changes what the stream yields afterwards. filter_fields() removes the top-level timestamp and padding it is told to remove and nothing else, however often. An accessor made by hand from a looked-up format yields exactly what the derived stream yields; on a message with fields left out or in another order it finds fields by name, leaves absent optional ones empty and refuses absent required ones. find_field() finds by name whatever the index, and a field converts to exactly its own type with its exact value. A format handle stays as it was when obtained. (Messages parsed by hand out of turn: all but additions and removals of subscriptions.)",
  ["inputs", "histories"], "all logs, well-formed and damaged; all interleavings of the stream with pieces used by hand; all fields, types and orders",
  "Tests call these pieces on a few fixed values and never in the middle of a stream.",
  [P, MU, MA], [("parse_data, get_format, filter_fields", P), ("find_field, FromField", MU), ("generated accessors", MA)], ["items of a disturbed stream vs. an undisturbed one; messages, values and accessors by hand vs. the streams and the reference mapping"])

p("C33", "Errors name their cause",
  "Every error is of the kind that names its cause and carries what identifies it. Source failures after the header are Io holding the very error of the source, and encoding returns the very error of the sink, or InvalidInput for a message that cannot be represented. Text that is not UTF-8 is Utf8 with the offending text. An undefined format, named by a subscription, field, key or lookup, is UndefinedFormat with exactly that name; an unknown subscription looked up is UndefinedSubscription with its id; a parameter of an unsupported type is UnknownParameterType naming the parameter; data without a scalar uint64 timestamp is MissingTimestamp; a bad header is InvalidHeader; unknown incompatible flags are UnknownIncompatBits; a log cut inside a message is UnexpectedEndOfFile. Bodies too short and levels out of range are ParseError, malformed definitions that or UnexpectedEndOfFile, and data of an id without a subscription says the id. In derived streams and accessors, a schema without required fields is InvalidFieldName naming the subscription, all missing fields and no others, a field of another type is TypeMismatch, and settings without a catch-all variant are InvalidConfiguration. Each error shows as text that names the same, and leads to the error beneath as its source().",
  ["inputs", "fault_sequences"], "all logs with one fault of any of these kinds at any place; all failing sources and sinks; all schemas that lack or change mapped fields",
  "Tests at most check that some error comes back.",
  ["core/src/errors.rs", P, DS, EN, MA, MU], [("kinds of errors and their text", "core/src/errors.rs"), ("where they arise", P), ("missing fields", MA), ("mismatches", MU)], ["kind, payload, text and source() of every error, beside the fault that was put in"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in props:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(props))
