#!/usr/bin/env python3
"""Writes /verif/properties.jsonl and /verif/MANIFEST.json."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BIN, CMP, WIRE = "encoding/thriftbinary/thriftbinary.go", "encoding/thriftcompact/thriftcompact.go", "encoding/thriftwire/"
CT = "encoding/thriftcompact/types.go"
SKIP, BUF, VAR, PROTO, TYPES = WIRE+"skip.go", WIRE+"bufio.go", WIRE+"varint.go", WIRE+"protocol.go", WIRE+"types.go"
AR, AD, FI, ER = "thrift/arshal.go", "thrift/arshal_default.go", "thrift/fields.go", "thrift/errors.go"
MEMO = ["internal/thriftmemo/memo.go", "internal/thriftmemo/memogen.go"]
PT = "testing/thrifttest/protocol.go"
PA, SC, NO, TO = ["tools/thriftfile/"+f for f in ("parser.go", "scanner.go", "nodes.go", "tokens.go")]
P = []
def p(id, title, statement, over, text, why, files, mech, technique, note):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=mech, where=files[0])]), _t=technique, _n=note))

p("C01", "Marshal then Unmarshal gives the value back",
  "For every protocol and every value of a supported Go type, passed by value or by pointer, what Marshal writes is decoded by Unmarshal into a new variable of that type to the same value, and exactly the bytes written are consumed. Equal means equal through pointers, with doubles compared bit for bit; a nil and an empty slice, map or byte string are equal, an optional field that is zero (or whose IsZero method says so) comes back as the zero value of its type, and a nil pointer that has to be written because it is required or an element comes back as a pointer to a zero value.",
  ["inputs", "programs"], "every supported Go type (scalars, named types, byte strings, UUIDs, structs, maps, sets, lists, pointers, recursive types) x every value x three protocols",
  "The repository's tests sample a few dozen types with a few values each; sizes, field-ID gaps, buffer alignments and nestings between the samples are never written.",
  [AR, AD, FI, BIN, CMP], "Marshal/Unmarshal closures per Go type over the protocol readers and writers",
  "bounded exhaustive state-space exploration of the implementation against a reference model", "Every value of the generator within the bounds is run on the real code and compared with the model; integers, sizes and buffer alignments have spaces of their own. Trusts mc/uni's model of the Go mapping.")
p("C02", "Binary protocol bytes follow the specification",
  "In the strict and the non-strict binary protocol, every value is written as exactly the bytes the Thrift binary protocol specification prescribes (big-endian integers and doubles, length-prefixed strings, 16 raw bytes for UUIDs, typed field, list, set and map headers, a stop byte after a struct). Every such encoding is read back as that value.",
  ["inputs"], "every wire value of the twelve types at any nesting, field ID and size",
  "A round trip in which both sides share a mistake passes; the tests compare bytes for a handful of values only.",
  [BIN, AD], "binary Reader and Writer", "bounded exhaustive exploration, implementation compared with an independent reference codec in every state",
  "All integers of 8 and 16 bits, all field IDs, boundary sizes, all nested values of the generator. Trusts mc/ref, which is itself compared with published vectors.")
p("C03", "Compact protocol bytes follow the specification",
  "In the compact protocol, every value is written as exactly the bytes the Thrift compact protocol specification prescribes: zigzag varints, little-endian doubles, short and long field headers by difference of field IDs, booleans inside field headers and as 1 and 2 inside containers, short and long list headers, one byte for an empty map. Every such encoding is read back as that value, with the right field IDs at every nesting depth.",
  ["inputs"], "every wire value of the twelve types at any nesting, field ID order and size",
  "Same as for the binary protocol; in addition the encoding of a field depends on the fields and structs around it, and the tests try few combinations.",
  [CMP, CT, VAR], "compact Reader and Writer with last-field-ID stack and pending bool field", "bounded exhaustive exploration, implementation compared with an independent reference codec in every state",
  "All field IDs after 12 previous ones, all integers of 16 bits, boundary sizes, all nested values of the generator. Two headers for one difference that overflows 16 bits are both accepted.")
p("C04", "Message envelopes follow the specification and are told apart",
  "Message headers of the three protocols are written as specified for every name, message type (call, reply, exception, oneway) and 32-bit message ID, and read back unchanged, with messages following one another on one stream. A strict binary reader and a compact reader reject messages of other protocols or versions; a non-strict binary reader takes both binary forms.",
  ["inputs", "histories"], "every header, every pair of writer and reader protocol, sequences of messages",
  "The tests write a few headers; IDs with high bits, version bits and mixed protocols are not enumerated.",
  [BIN, CMP], "WriteMessageBegin and ReadMessageBegin", "bounded exhaustive exploration against a reference codec, including all values of the version bytes",
  "All pairs of version bytes are tried. Message types outside 1 to 4 are left open.")
p("C05", "Skipping a value consumes exactly that value; unknown fields are harmless",
  "Skip, for each of the twelve types and each protocol, consumes exactly the bytes of one value, whatever its nesting. A struct decoded with additional fields the Go type does not know, of any type and ID at any position and depth, gives the same Go value as without them.",
  ["inputs"], "every wire value as unknown field or skipped value, every position",
  "Skipping is tested on a few values; what breaks it is a combination of header form, previous field ID and pending boolean.",
  [SKIP, AD, BIN, CMP], "Skip, the Skip methods of the readers and the unknown-field branch of struct decoding", "bounded exhaustive exploration against a reference codec",
  "Every wire value of the generator is skipped and followed by a sentinel; unknown fields are inserted at every position of three nested structs.")
p("C06", "Decoding does not depend on how the input is delivered",
  "Values and messages decode to the same result however the input stream delivers its bytes: in any chunks, one byte at a time, with empty reads in between, or with the end of the stream reported together with the last bytes or afterwards.",
  ["schedules", "inputs"], "every way to cut the input, every protocol, decoding, streaming reads and skipping",
  "The tests hand over whole buffers or one-byte readers; partial reads at particular offsets of particular values are not enumerated.",
  [BUF, VAR, BIN, CMP, SKIP], "buffered reads with Peek, Discard and ReadFull", "exhaustive enumeration of delivery schedules on the real code",
  "All cuts of short inputs, all single and double cuts of longer ones, chunk sizes around the buffer size.")
p("C07", "Truncated or failing input is always reported",
  "If the input ends or fails before the last byte of a value or message, decoding, reading or skipping it returns an error, and when the input failed with an error of its own, errors.Is finds that error in it. If the input fails only after the last byte, the value is returned unharmed.",
  ["fault_sequences", "crash_points", "inputs"], "every offset of every input x end of file and errors x deliveries",
  "The tests break inputs at a few operations, not at each byte of each value.",
  [BUF, VAR, BIN, CMP, SKIP, AD], "error paths of every read", "exhaustive enumeration of fault points on the real code",
  "End of input and errors after every byte; sampled offsets only for values above 5000 bytes.")
p("C08", "Write failures are reported, and flushed output is complete and in order",
  "If the output stream fails or writes short at any point, Marshal, a streaming write or Flush returns an error that wraps its cause, at the latest at the Flush, and only a prefix of the true encoding was delivered. When Flush succeeds, everything written so far was delivered exactly once and in order, and the Flush method of an output that has one was called, also after Reset to another output.",
  ["fault_sequences", "histories"], "every offset at which the output fails x histories of writes, Flush and Reset",
  "The tests use memory buffers; failures at particular offsets and histories with Reset are not enumerated.",
  [BIN, CMP, AD], "bufio.Writer and the Flusher of the underlying writer", "exhaustive enumeration of fault points and operation histories on the real code",
  "The sink fails after every byte (every 37th of long outputs), once or for good; histories of up to 4 or 5 operations.")
p("C09", "Arbitrary bytes are decoded as specified or rejected, never worse",
  "For every byte sequence, every protocol and every expected type, reading, skipping and unmarshaling either gives the value the specification assigns to the bytes or returns an error where it assigns none. They never panic and always end.",
  ["inputs"], "every byte sequence",
  "Malformed input in the tests is a list of hand-picked cases.",
  [BIN, CMP, SKIP, VAR, BUF, AD], "all read paths", "exhaustive exploration of an on-demand byte environment (each byte the reader asks for is a choice) and of all mutations of valid encodings, against a reference decoder",
  "The environment chooses each requested byte from an alphabet, up to a depth; plus all single-byte changes and cuts of valid inputs. Where the specification leaves an encoding open, only panics and hangs are checked.")
p("C10", "Memory use is bounded by the input that actually arrives",
  "Decoding, reading or skipping input that announces a large string, container or message but delivers only part of it allocates an amount of memory proportional to the bytes that arrived, not to the size announced.",
  ["inputs"], "every announced size x header kind x nesting x delivered bytes",
  "No test measures memory; an implementation that allocates the announced size passes them all.",
  [BUF, AD, BIN, CMP], "ReadBytes in bounded steps, element-wise growth of slices and maps", "exhaustive exploration of announced sizes and header combinations with allocation as the monitored state",
  "Bytes allocated are measured on the real code; the limit is a constant plus a factor of the bytes delivered. Elements that take no bytes are left out.")
p("C11", "Nesting depth cannot exhaust the stack",
  "Skipping, unmarshaling, marshaling (of cyclic Go values too) and IDL parsing return an error instead of overflowing the stack however deep the nesting is, and structures nested up to 1000 deep are processed correctly.",
  ["inputs"], "every depth x every kind of nesting",
  "No test nests deeper than a few levels.",
  [SKIP, AR, AD, PA], "depth counters", "exhaustive exploration of nesting kinds and depths up to millions in subprocesses",
  "All pairs of nesting kinds at depths up to 3 million; the stack is limited so that unbounded recursion is seen.")
p("C12", "A wire type that does not fit is an error, never a wrong value",
  "If the wire type of a value, field, element, key or map value is not the type the Go type maps to, Unmarshal returns an error that is a SemanticError, and nothing decoded from the value is stored in the Go variable that does not fit (a nil pointer may come to point to a zero value).",
  ["inputs", "programs"], "every pair of Go type and wire type in every position",
  "The tests have one mismatch per kind of Go type.",
  [AD, ER], "wire type check at the head of each unmarshal closure", "exhaustive product of Go types, positions and wire types on the real code",
  "All 12 types against all Go types in 7 positions, unknown type numbers in the binary protocol too.")
p("C13", "Unmarshal into a variable that already holds data follows fixed rules",
  "Unmarshal into a non-zero variable replaces scalars, strings, byte strings and UUIDs, sets slices to exactly the decoded elements with nothing of earlier elements left in them, adds to existing maps in place, follows existing pointers, and leaves struct fields that are absent from the input alone. Nothing else reachable from the variable changes.",
  ["inputs", "histories"], "every initial value x every input x every type",
  "The tests decode into zero variables nearly always.",
  [AD], "unmarshal closures", "exhaustive exploration of pairs of initial value and input against a model of the Go mapping",
  "All pairs of generated initial values and inputs for the types of the universe, spare capacity with stale elements included.")
p("C14", "Reset makes a reader or writer as good as new",
  "After any history of complete, incomplete or failed operations, Reset makes a Reader or Writer behave exactly like one newly made for the given stream; a bufio.Reader or bufio.Writer of the caller that was used before stays the caller's and is not changed by it.",
  ["histories", "fault_sequences"], "every history of operations and the point at which it is abandoned",
  "Reset is tested after complete operations; state left by an abandoned struct, a pending boolean or an error is not.",
  [BIN, CMP], "Reset of the readers and writers, field-ID stack and pending bool state", "exhaustive exploration of abandoned operation histories on the real code, compared with new readers and writers",
  "Every operation prefix of every sample, errors at every byte, two abandonments in a row.")
p("C15", "Reading never waits for input after the value",
  "Reading, skipping or unmarshaling a value or message whose last byte has been delivered never asks the input stream for more, so a reader on a connection does not block on a complete message.",
  ["schedules", "inputs"], "every input x every delivery",
  "Tests read from memory buffers, which never block.",
  [VAR, BUF, BIN, CMP], "peeking only within what is needed", "exhaustive enumeration of deliveries with the input stream's state as monitor",
  "Reads after the last byte are counted for every value and delivery.")
p("C16", "Struct tags decide the fields, and malformed ones are rejected",
  "A field tagged with a decimal 16-bit ID and optional comma-separated options is marshaled under that ID, fields go out in ascending order of ID, required ones always and others only when not zero (as told by the type's own IsZero method if there is one), and fields tagged \"-\" or untagged unexported ones are ignored. Structs with a malformed ID, trailing comma, malformed, duplicate or misspelt option, tagged unexported field, missing tag, duplicate field ID or only untagged unexported fields are rejected with a SemanticError by both Marshal and Unmarshal, whose cause names the field or both fields at fault.",
  ["programs", "inputs"], "every tag string and every combination of fields",
  "The tests have about ten tags.",
  [FI, AD], "tag parser and field plan", "exhaustive enumeration of tag strings and field combinations against a reference parser",
  "All tag strings over a token alphabet up to a length; all combinations of up to three or four fields.")
p("C17", "Every Go type is either handled or rejected cleanly",
  "Marshal and Unmarshal handle every Go type built from supported kinds, recursive ones included, and return a SemanticError where an unsupported kind is needed (by Marshal as the type of the value or of a field, element or key of a value that is written, even if it is nil, zero or empty; by Unmarshal for a value that is read), for nil and for non-pointer destinations. They never panic, overflow the stack or loop, whatever the order in which types are first used.",
  ["programs", "histories"], "every Go type built from any kinds; every order of first use",
  "The tests list the supported kinds and one unsupported one each.",
  [AR, AD, FI], "construction of arshalers by type, cached", "exhaustive enumeration of Go types by composition, orders of first use explored in separate processes",
  "All types of up to two or three composition steps over supported and unsupported kinds, and recursive types in every order.")
p("C18", "Concurrent use gives the same results as sequential use",
  "Marshal and Unmarshal from several goroutines on separate streams, the first uses of a type included, give the results of sequential use, without data races or deadlocks, under every schedule; so do separate readers, writers and parsers.",
  ["schedules"], "every interleaving of the goroutines at shared accesses",
  "The tests run one goroutine at a time or rely on the scheduler's luck.",
  [AR, AD, FI], "type cache, lazily initialised field plans", "stateless model checking: controlled scheduler over instrumented code with preemption bounding, plus race detector variant",
  "All interleavings of 2 to 3 goroutines with up to 2 preemptions at instrumented points; new types in every execution.")
p("C19", "No result aliases the caller's data or internal buffers",
  "Marshal does not change the value it is given, and what was passed to a write may be changed by the caller as soon as the write returns without changing what is delivered. Strings, byte strings and other values returned by reads or Unmarshal never change when the reader, its buffer or its input are used further, values decoded one after another share no memory except through what the destination already held, and a parsed IDL tree does not change with the bytes it was parsed from.",
  ["histories", "inputs"], "every value and history of later operations",
  "Aliasing shows only in later operations, which tests of single calls do not run.",
  [BUF, AD, BIN, CMP], "copying out of the bufio buffers", "exhaustive exploration of value sequences with mutation of every buffer between steps",
  "All pairs of samples through one reader or writer with all buffers overwritten in between.")
p("C20", "Buffered primitives do exactly what they say",
  "The exported helpers that read a given number of bytes as string or as byte slice, view and discard the next bytes, and read signed and unsigned varints return exactly the bytes or numbers at the current position, advance by exactly that much, report truncation and varints over 64 bits, and agree with the standard library's varint functions. This holds for every length, buffer size, buffer fill and delivery.",
  ["inputs", "schedules"], "every length x buffer size x fill x chunking; every varint encoding",
  "The tests check a few lengths on one buffer size.",
  [BUF, VAR], "Next, ReadString, ReadBytes, ReadUvarint, ReadVarint", "exhaustive exploration of small buffers and deliveries, differential against encoding/binary and a model of the stream",
  "Buffer sizes from 16, lengths around multiples of them, all varints up to 3 bytes over the whole alphabet and up to 11 over boundary bytes.")
p("C21", "The streaming API keeps its state straight at every nesting",
  "Any well-formed sequence of streaming write calls, mixed with skips and helper functions on the reading side, is read back by the corresponding sequence of read calls: types, sizes, field IDs and message headers reappear at the same positions, whichever of the equivalent calls (string or bytes, read or skip, header helper or method) is used at each step. A size or length that the format has no room for is an error and never becomes another size.",
  ["histories", "inputs"], "every call sequence up to a depth",
  "Call sequences in the tests are fixed.",
  [BIN, CMP, CT, PROTO, SKIP], "Reader and Writer state machines, exported header helpers", "explicit-state exploration of call sequences on the real code against a reference codec",
  "All well-formed call sequences up to a depth; the reader chooses among the equivalent calls at every step.")
p("C22", "The IDL parser's tree says exactly what the document says",
  "For every document of the Thrift IDL (without the C++-specific forms), the parser returns a tree with every header, definition, field, type, value and annotation in order, with names, literals, IDs and modifiers as written, and enters the name, size and lines of the document into the file set.",
  ["inputs", "programs"], "every document of the grammar",
  "The tests parse a set of sample documents.",
  [PA, NO, SC], "recursive-descent parser, node constructors", "exhaustive enumeration of documents from a model of the grammar, each generated together with its expected tree",
  "All derivations of the grammar up to a number of deviations from the shortest form, compared node by node; names, numbers and literals in all places.")
p("C23", "The IDL parser accepts exactly the documents of the grammar",
  "A sequence of tokens is accepted if and only if the Thrift IDL grammar derives it, and otherwise the first error reported stands at the first token that no document continues with, and the tree returned with it still has every header and definition before it.",
  ["inputs", "programs"], "every token sequence",
  "The tests have some twenty malformed documents.",
  [PA, SC, TO], "expect and error paths of the parser", "exhaustive enumeration of token sequences, differential against an independent recogniser (a pushdown automaton)",
  "All token sequences up to a length and all single and double edits of valid documents.")
p("C24", "The IDL parser survives any bytes",
  "For every byte sequence the parser ends, does not panic, returns either a tree or an error, tells malformed tokens (bad characters, invalid UTF-8, unterminated strings and comments, malformed numbers) from well-formed ones, and every position it reports lies in the document, and the errors are listed in the order of their positions.",
  ["inputs"], "every byte sequence given as a document",
  "The tests have a few malformed documents.",
  [SC, PA], "scanner", "exhaustive enumeration of short byte strings over an alphabet and of all mutations of documents, against a reference lexer",
  "All strings up to 4 or 5 bytes over an alphabet of 30 bytes after several prefixes; all byte changes of sample documents.")
p("C25", "Layout and comments do not change what an IDL document means",
  "White space, line ends, comments of all three kinds, a byte order mark at the beginning and the optional list separators change nothing in the tree, and the quoting style of a literal changes nothing but its text.",
  ["inputs"], "every document x every layout at every gap",
  "The tests use one layout.",
  [SC, PA], "skipping of white space and comments, optional separators", "exhaustive enumeration of layouts per gap of documents (up to two gaps deviate at a time)",
  "Every gap of every sample document takes every filler of a list, one or two gaps at a time.")
p("C26", "A recorded protocol trace replays exactly and catches every deviation",
  "The test double that records calls on a writer and replays them on a reader returns what was recorded for the same sequence of calls; any other call, argument or order, and any call after the end, is reported, and an injected fault is returned by the call it was set for and by every later one. Arguments of recorded calls may be changed by the caller afterwards. Reset makes it as good as new, with no call recorded and no fault set.",
  ["histories", "fault_sequences"], "every call sequence and every deviation from it",
  "It has no tests of its own beyond one use.",
  MEMO + [PT], "record and replay of calls", "exhaustive exploration of call sequences and single deviations on the real code",
  "All call sequences up to a depth x all single deviations.")
p("C27", "The protocol test suite catches faulty protocols",
  "The exported protocol test fails for every protocol in which some operation of the Reader or Writer fails at any of its calls, does nothing, or gives or takes another value than it should (where that changes anything written or read), and passes for the correct ones.",
  ["programs", "configurations"], "every single-operation fault of a reader or writer",
  "The suite is only ever run on correct protocols.",
  [PT], "TestProtocol", "exhaustive enumeration of single-operation faults injected into correct protocols",
  "Every operation of Reader and Writer x every fault kind x protocols.")
p("C28", "Protocols can be combined and transcoded without loss",
  "Reading a value in one protocol and writing it in another gives the encoding of the same value, for every pair of protocols, also through a protocol joined from the reader of one and the writer of another. A protocol prints under its exported name, and a joined one names its parts.",
  ["inputs", "configurations"], "every value x every pair of protocols",
  "No test crosses protocols.",
  [PROTO, BIN, CMP], "Protocol, JoinProtocol", "bounded exhaustive exploration, streaming transcoding compared with the reference codec",
  "All wire values of the generator x 9 pairs of protocols.")
p("C29", "Names and error texts identify types and causes",
  "Names of types and message types are those of the specification for every number, with unknown numbers told by value, which also holds for unknown compact types in errors. When a streaming call made by Marshal, or by Unmarshal other than to skip an unknown field, fails, the error is a SemanticError with the Thrift type of that call and the Go type handled, its text names both and the cause, and errors.Is and errors.As reach every cause.",
  ["inputs"], "every number; every error",
  "Only some names are printed by tests.",
  [ER, TYPES, WIRE+"type_string.go", CT], "String methods and error types", "exhaustive enumeration of all values of the types and of all error paths",
  "All 256 values of each type; all failing operations of every kind.")
p("C30", "Any protocol that follows the interface can be plugged in",
  "Marshal, Unmarshal and Skip use a Reader or Writer of any implementation only through well-formed sequences of calls: every Begin is closed by its End, the fields of a struct are ended one by one, exactly the announced number of keys, values or elements of the announced types follows a container header, and Marshal tells the Go names of structs and fields with their types and IDs. Unmarshal and Skip go through exactly what the Reader presents, whatever names it reports, unknown fields included. After a call that failed there is no other call.",
  ["inputs", "programs", "fault_sequences"], "every value x every Go type x every failing call",
  "The tests use the protocols of this module, whose End calls do nothing and whose names are lost.",
  [AR, AD, WIRE+"skip.go", PROTO], "arshalers, Skip", "exhaustive enumeration of values through a Reader and Writer that are automata of the calls allowed",
  "All values of all Go types, all wire values to skip, every call failing.")
p("C31", "A failed Unmarshal leaves only what it decoded",
  "When Unmarshal fails because the input ends or a call to the Reader fails, everything decoded completely before is in the variable and everything not reached is as it was: numbers, strings and fields that were not read completely are unchanged, slices hold exactly the elements decoded, maps their earlier and the decoded entries. Only the element or entry that was being decoded may be there in part or missing, and a byte string or UUID that was being read may have lost its content.",
  ["inputs", "crash_points", "fault_sequences"], "every value x every destination x every point of failure",
  "The tests look at errors only, never at what a failed Unmarshal leaves behind.",
  [AD, AR], "arshalers' unmarshal", "exhaustive enumeration of failure points against a reference model of partial decoding",
  "Every truncation and every failing call of all values into empty and full variables.")
p("C32", "A definition that cannot be parsed costs nothing but itself",
  "Each definition of an IDL document that cannot be parsed is reported and stands in the tree as a bad definition, from its start to the next definition keyword after the error or the end of the document. Everything after it is parsed as if the document started there: the same definitions and the same errors, whatever was damaged before, however often and however deeply nested; and the bad definition is the same whatever comes before it.",
  ["inputs"], "every document x every definition that cannot be parsed",
  "The tests check the errors of a few malformed documents and never what comes after the first error.",
  [PA, NO], "def, BadDef, next definition keyword", "exhaustive enumeration of damaged documents; the whole is checked against the parts parsed alone",
  "All short token sequences, damaged definitions in all short sequences, and all one- and two-place edits of sample documents.")

SELF = sys.argv[1:] # properties that are not claimed yet
claimed = [q for q in P if q["id"] not in SELF]
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for q in P:
        f.write(json.dumps({k: v for k, v in q.items() if not k.startswith("_")}) + "\n")
m = dict(version=1, setup_cmd="bash run.sh build",
  checks=[dict(property=q["id"], quick_cmd=f"bash run.sh {q['id']} quick", thorough_cmd=f"bash run.sh {q['id']} thorough",
               technique="model checking: " + q["_t"], level="model_checking", level_note=q["_n"]) for q in claimed],
  not_applicable=[dict(property=q["id"], reason="check not built yet") for q in P if q["id"] in SELF],
  notes="The harness is overlaid into the module (go build -overlay) from /verif/mc; no hooks are committed in /repo. See DESIGN.md.")
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1); f.write("\n")
