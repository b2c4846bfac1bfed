#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the source of the property texts)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m} for n, m in state]
    if observe: a["observe_at"] = observe
    if hook: a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

OWN = "src/reader/owned.rs"; RD = "src/reader/mod.rs"; SC = "src/scanner/mod.rs"; PA = "src/event/parser/mod.rs"
BL = "src/scanner/scalar/block.rs"; FL = "src/scanner/scalar/flow.rs"; PL = "src/scanner/scalar/plain.rs"; ES = "src/scanner/scalar/escape.rs"
EV = "src/event/mod.rs"; TY = "src/event/types.rs"; EN = "src/scanner/entry.rs"; ER = "src/error.rs"; TAG = "src/scanner/tag.rs"; DIR = "src/scanner/directive.rs"
KEY = "src/scanner/key.rs"; CX = "src/scanner/context.rs"; ANC = "src/scanner/anchor.rs"; BOR = "src/reader/borrow.rs"

p("C01", "Events do not depend on how a byte stream is delivered",
  "The events produced from a byte stream (kinds, scalar contents and styles, anchors, tags, directives, start/end positions) and how it ends (cleanly, or with an error of a given category) are the same however the stream's reads are sized, interrupted (ErrorKind::Interrupted) and cut into buffer refills, and are the same as those produced from the whole content held as a string. This holds for well-formed and malformed content alike.",
  ["schedules", "inputs"], "every content x every partition of it into reads, Interrupted returns and refill boundaries",
  "The buffered test features replay each fixture at three fixed sizes through a test-only scanner wrapper; no test reads a real stream that needs more than one refill, so the extend/rollback path of the stream reader is exercised at no boundary but 'everything at once'.",
  [OWN, SC, "src/scanner/macros.rs", BL, FL, PL, TAG, DIR, CX],
  [("refresh_buffer/drive_scanner: extend, copy unread tail, rescan", OWN), ("cache!/O_EXTENDABLE checks before every lookahead", "src/scanner/macros.rs"), ("scanner state rolled back or kept consistent on ScanError::Extend", SC)],
  [("Impl.head/tail/partial", "current buffer, retired buffers, bytes of a character split by a read"), ("Scanner.offset", "how much of the current buffer is consumed")],
  ["yary::event::Events::iter", "yary::reader::from_read"], "refill sizes (yary::sim::set_chunk)")

p("C02", "A document's events carry exactly the content it was written from",
  "For every document built from mappings, sequences, scalars, aliases, anchors, tags and directives, and written in any of YAML's presentations this library supports (block or flow collections, plain, quoted, literal or folded scalars with any chomping, folding, escapes, comments, LF, CRLF or CR line breaks, explicit or implicit document markers), the events read back give the same structure, scalar values and styles, node properties, version and tag directives, in order, whatever the delivery of the bytes.",
  ["inputs", "schedules"], "every document tree x every presentation of it x every delivery of the written bytes",
  "Tests pin a few hundred hand written fixtures, most of them token level and each holding one or two features; they never combine styles, depths, line breaks, chomping, neighbours and stream boundaries.",
  [SC, BL, FL, PL, ES, TAG, ANC, DIR, KEY, CX, EN, PA, TY],
  [("scalar scanning, folding, escapes and chomping", "src/scanner/scalar/"), ("indentation / simple key tracking", CX + ", " + KEY), ("token to event state machine", PA), ("tag and directive resolution", PA + ", " + TAG)],
  [("Context", "indentation stack and flow depth"), ("Parser.state/states", "pending productions")],
  ["yary::event::Events", "yary::event::types"])

p("C03", "A failing byte stream surfaces its own error, after an exact prefix",
  "If reading the byte stream fails with anything but ErrorKind::Interrupted, the consumer sees a prefix of the events of the fault-free run followed by one error of category IO that names the original std::io::Error as its source and converts back to it (same kind, system error code and payload); Interrupted is never visible. A stream whose read failed is never reported as cleanly ended, and no event is invented from the part that did arrive.",
  ["fault_sequences", "schedules", "inputs"], "every content x every byte offset and read call at which a read fails x every error kind, payload and delivery before it",
  "No test uses a reader that fails: every fixture is an in-memory slice or Cursor.",
  [OWN, RD, "src/reader/error.rs", ER, "src/event/error.rs"],
  [("refresh_buffer propagates read errors with ?", OWN), ("ReadError/ParseError -> Error conversions", ER)],
  None, ["yary::error::Error::classify", "From<Error> for std::io::Error"], "refill sizes (yary::sim::set_chunk)")

p("C04", "After the first error nothing more is produced and the stream is left alone",
  "Once an event iterator has returned an error, whatever its cause (I/O, syntax, data, truncation), every later poll, through the same or any other handle on the same event stream, returns nothing; no event, second error or panic follows, and the byte stream is not read again. The same holds after a clean end.",
  ["histories", "fault_sequences", "inputs"], "every terminal error or end x every later sequence of polls through every handle",
  "Tests stop at the first error (collect::<Result<_>>) and never poll again.",
  [PA, EV, RD, OWN], [("Parser is done after an error", PA), ("Reader.exhausted", RD)],
  [("Parser.done/state", "whether production has ended")], ["yary::event::Events::iter", "yary::event::EventIter::into_inner"])

p("C05", "Event data stays intact for as long as its source lives",
  "Every event handed out keeps the exact data it was handed out with (scalar text, anchors, tags, directives) for as long as its source is alive: through any number of later refills, errors, panics of the byte source, drops of iterators or of other events, and late lazy evaluation. No event ever refers to memory that was freed or rewritten.",
  ["histories", "schedules", "fault_sequences"], "every content x delivery x point at which events are kept, dropped, moved or re-inspected relative to later reads, errors and unwinding",
  "Tests compare each event the moment it is produced from one buffer; none keeps data across refills, and a use-after-free there need not fail an assertion.",
  [OWN, RD, EN, "src/queue.rs"], [("retired buffers are kept alive, never reallocated", OWN), ("UnsafeCell access through shared references", OWN), ("unsafe queue", "src/queue.rs")],
  [("Impl.tail", "buffers that live events may still point to")], ["yary::event::types::Slice (Cow::Borrowed)"], "refill sizes (yary::sim::set_chunk); allocator is replaced by the harness")

p("C06", "Verbatim scalars are borrowed from the source, never copied",
  "A scalar, anchor, alias, tag or tag directive whose value appears verbatim and contiguously in the content (a tag: without %-escapes) is handed out as a borrow of the source's own memory (for a string or byte slice source: a range inside that slice at the position the text was written), eagerly or lazily, whatever was read before it. For a stream source it is borrowed too, however the bytes were delivered.",
  ["inputs", "schedules"], "every document x every single-line scalar/anchor/alias in it x eager/lazy x delivery",
  "Tests compare token values with PartialEq, for which Cow::Borrowed and Cow::Owned are the same.",
  [PL, FL, BL, ANC, EN, PA, TY], [("can_borrow decisions in the scalar scanners", "src/scanner/scalar/"), ("Cow kept through token -> event conversion", EN + ", " + PA)],
  None, ["yary::event::types::Slice"])

p("C07", "Lazy evaluation gives what eager parsing gives, whenever it happens",
  "With lazy evaluation the event structure is the one of eager parsing, and each lazy scalar evaluates to the same content and style, by value or by reference, in any order, at any later time, on any thread the event is moved to, and before or after further events are read or the stream fails. A content error of a scalar that eager parsing reports at its event is reported by that scalar's evaluation instead (leaving it evaluated and empty), and affects nothing else.",
  ["schedules", "histories", "inputs"], "every content x every interleaving of evaluations with polling, further reads, failures and thread moves",
  "The test_lazy feature evaluates each scalar at once, in order, on one thread, from one complete buffer.",
  [EN, "src/scanner/scalar/mod.rs", PL, FL, BL, TY], [("Lazy/ScalarLike evaluate", EN + ", " + TY), ("deferred scan functions re-run over a stored slice", "src/scanner/scalar/")],
  None, ["ScalarLike::evaluate", "ScalarLike::evaluate_by_ref"])

p("C08", "No content, delivery or fault makes the library panic",
  "For every byte sequence, valid UTF-8 or not, YAML or not, every delivery of it, every I/O fault and every way of consuming events and evaluating scalars, the library returns events or errors; it never panics, overflows, aborts or reads out of bounds. A panic of the byte source itself passes through to the caller, and leaves the event stream, its source and every event handed out safe to use and to drop.",
  ["inputs", "schedules", "fault_sequences"], "every byte sequence x delivery x fault x consumption order",
  "Fixtures are almost all well formed; unreachable!/assert!/slice-index sites need malformed nesting, odd characters or boundaries that no fixture has.",
  [SC, BL, FL, PL, ES, TAG, ANC, DIR, PA, OWN], [("byte indexed slicing in the scanners", "src/scanner/"), ("unreachable!/assert! in scanner and parser", SC + ", " + PA)],
  None, ["yary::event::Events"])

p("C09", "Every stream is consumed in a bounded number of steps",
  "Event production always terminates: the number of events is bounded by a constant plus a constant multiple of the content's length, each poll returns after a bounded number of reads, and once the byte stream has reported its end it is read only a fixed small number of times more before the end or an error is reported. Once interruptions and short reads stop, pending production completes.",
  ["schedules", "inputs", "fault_sequences"], "every content x delivery, including one byte at a time, repeated interruptions and end-of-stream at every offset",
  "A test that hangs is a missing result; the fixtures cannot show that no content/boundary pair makes the extend loop or the state machine spin.",
  [OWN, RD, SC, PA], [("drive_scanner extend loop, ended by exhausted", OWN), ("Reader.exhausted and parser state advance", RD)],
  [("Impl.exhausted", "source reported its end")], ["std::io::Read calls seen by the source", "number of polls"], "refill sizes (yary::sim::set_chunk)")

p("C10", "Events always follow the documented grammar, with correct node hints",
  "At every moment the events produced so far are a prefix of the documented production (StreamStart, documents of at most one root node each, StreamEnd; balanced collections; mappings as key/value pairs), each node's kind hint (Root, Entry, Key, Value) matches its actual place, and start/end positions never go backwards nor beyond the content. A run that ends without an error has produced a complete, balanced stream; nothing follows StreamEnd.",
  ["inputs", "schedules", "fault_sequences"], "every byte sequence (malformed included) x delivery x fault, at every prefix",
  "Tests check whole expected sequences of valid fixtures; malformed and truncated streams' prefixes are never checked against the grammar.",
  [PA, "src/event/state.rs", TY, "src/event/parser/macros.rs"], [("parser state machine", PA), ("NodeKind assignment", PA)],
  [("Parser.state/states", "pending productions")], ["yary::event::types::EventData", "yary::event::types::NodeKind", "Event::start/end"])

p("C11", "Valid UTF-8 is never rejected or altered, invalid UTF-8 never accepted",
  "Multi byte characters survive any split of the stream inside them: a valid UTF-8 stream never produces an encoding error, and its text comes out character for character. A stream with invalid, overlong, surrogate or truncated UTF-8 never ends cleanly: it ends with an error of category Data (io::ErrorKind::InvalidData) once the bad bytes are reached unless an earlier error ends it, every event before it is one the valid prefix gives, and the byte slice constructor refuses the same bytes, with an error whose source is the std::str::Utf8Error.",
  ["inputs", "schedules", "fault_sequences"], "every content x every split within characters x every corruption (flipped, dropped, inserted byte, cut character)",
  "No test feeds multi byte characters through a stream in more than one read, nor any invalid byte.",
  [OWN, BOR, "src/reader/error.rs", ER], [("partial character carry-over and validation in refresh_buffer", OWN), ("try_from_bytes validation", BOR)],
  [("Impl.partial", "bytes of an incomplete character")], ["yary::error::Category::Data"], "refill sizes (yary::sim::set_chunk)")

p("C12", "A source serves one consumer; consumers never disturb each other",
  "A byte stream source bound to an event stream refuses every other event stream on it with an error, without losing, repeating or changing anything of the first one's events, whatever the order in which they are created, polled and dropped. String and slice sources serve any number of consumers, interleaved or on several threads, each of which gets the complete, identical events; consumers of distinct sources never influence each other.",
  ["schedules", "histories", "configurations"], "every interleaving of several consumers' creation, polling, lazy/eager configuration and dropping over shared and distinct sources, on one or several threads",
  "No test creates two event streams on one source.",
  [OWN, BOR, RD, EV], [("ReadHolder::bind", OWN), ("BorrowReader is stateless and shareable", BOR)],
  [("Impl.bound", "stream already belongs to an event stream")], ["yary::event::from_reader"])

p("C13", "Content cut inside a construct that needs more is reported, never accepted",
  "If the content stops inside a construct that requires a later character - a quoted scalar, an escape, a flow sequence or mapping, a verbatim tag, a directive's arguments, the document that must follow directives - production ends with an error and never with a clean StreamEnd, at every delivery. The events before the error are a prefix of those of the uncut content, apart from the node the cut falls in and what its absence implies.",
  ["crash_points", "inputs", "schedules"], "every document x every byte offset at which the stream stops (writer crashed, connection closed) x delivery",
  "Tests hold a handful of unterminated fixtures, each for one scalar or collection in isolation.",
  [SC, FL, ES, TAG, DIR, PA], [("UnexpectedEOF / eof checks in the scanners", "src/scanner/"), ("missing flow end / missing document start checks", PA)],
  None, ["yary::event::Events::iter"])

p("C14", "Input is read on demand, with bounded read-ahead",
  "Creating a source or an event stream, or an iterator over it, reads nothing. Events of an unbounded stream are delivered as their text arrives: when an event is delivered the bytes taken from the stream exceed the event's position by at most a bound that depends on the read size, the length of the tokens following it and the 1024 character implicit key window, not on how much of the stream is still to come.",
  ["schedules", "inputs"], "every endless or stalled stream x delivery x point at which the consumer stops polling",
  "Fixtures are finite and fully buffered, so a reader that slurps everything first passes every test.",
  [OWN, RD, SC, KEY], [("refresh_buffer requests one chunk when the scanner asks for it", OWN), ("PeekReader.take_next scans only when empty", RD)],
  None, ["bytes requested from std::io::Read"], "refill sizes (yary::sim::set_chunk)")

p("C15", "Documents of a stream do not influence each other",
  "The events of each document in a multi document stream are those of that document read alone, with positions shifted, whatever the documents before and after it contain (directives, tag handles, anchors, indentation, flow nesting, markers, comments) and wherever the stream's refill boundaries fall. Directives apply to the document they precede only.",
  ["inputs", "histories", "schedules"], "every sequence of documents x separators x deliveries",
  "Fixtures with several documents hold single scalars and no state (directives, open indentation, tags) that could leak.",
  [SC, CX, PA], [("fetch_document_marker resets scanning state", SC), ("per document directives reset", PA)],
  [("Context", "indentation"), ("Parser.directives", "version and tag handles in force")], ["yary::event::types::DocumentStart", "yary::event::Events"])

p("C16", "Consuming through any mix of iterator handles gives the one event stream",
  "Events pulled through any sequence of borrowed iterators, owning iterators and recovered event streams - created, dropped, advanced with any iterator adaptor, and moved at any point, including around I/O faults and refills - are together exactly the events of one uninterrupted pass: none lost, repeated or reordered.",
  ["histories", "schedules"], "every history of handle switches x content x delivery",
  "Tests consume each stream with one iterator from start to end.",
  [EV, RD, PA], [("EventIter / EventIterRef over shared Events state", EV), ("PeekReader.peek survives handle changes", RD)],
  None, ["yary::event::Events::iter", "IntoIterator for Events", "EventIter::into_inner"])

p("C20", "Content that breaks a language rule is an error, and nothing of it is delivered",
  "When a stream breaks a rule of the language at some place - a bad escape, tag, directive, name or block scalar header, a wrong bracket, a missing or repeated comma, text where none may stand, indentation between two levels, an entry of the wrong collection, a key over two lines or over 1024 characters, properties twice or on an alias, a second root, a document marker inside quotes or flow, a block collection or entry where none may begin (a key's or a document marker's line, behind properties, in flow), text behind a document end marker or an alias, a flow indicator outside of flow - every event delivered was written before that place (apart from implied empty nodes and ends), the stream ends with a syntax error (data or end of file only where the whole structure, not one token, is at fault), and the std::io::Error it converts into has the kind and text of that category. This holds however the content is delivered.",
  ["inputs", "schedules"], "every malformed content x source kind x delivery",
  "Tests assert a few errors of single tokens, never that what precedes them is delivered unchanged or that nothing behind leaks out.",
  [SC, "src/scanner/scalar", PA, ER], [("scan errors of tokens and keys", SC), ("state machine rejects unexpected tokens", PA), ("category and io::Error conversion", ER)], None, ["yary::event::Events", "yary::error::Error", "std::io::Error: From<Error>"])

p("C18", "Work and memory grow at most in proportion to the content",
  "For contents of one shape, the work done to read one that is n times as long, counted in executed branches, bytes moved and heap allocations, and the memory taken and held at once while its events are consumed, is at most a small constant factor over n times that of the shorter one. This holds for every shape (long tokens, many lines, keys, comments, documents, directives, deep nesting, unfinished or malformed content), every source kind, laziness and size of reads, at the refill sizes the library chooses.",
  ["inputs", "schedules"], "every shape of content x its lengths from 3 kB to 2 MB x source kind x read sizes x laziness", "Tests read inputs of a few bytes and measure no cost: a rescan per refill, a copy per line or a buffer per event passes them all.",
  [OWN, SC, KEY, "src/queue.rs", PA], [("refill growth, copy of the unread tail and rescans on extension", OWN), ("saved keys and the token queue", "src/queue.rs"), ("state and context stacks", CX)], None, ["executed branches (coverage instrumentation)", "memcpy/memmove", "global allocator"])

p("C21", "Marks place an event where its text is",
  "For every event which has text of its own (a scalar, an alias, a bracket of a flow collection, an explicit document start or end), the end mark lies at or after the end of that text and at or before the beginning of the next such text, and the start mark lies between the end of the previous such text and the end mark; marks count bytes from the beginning of the content, whatever the source kind, the delivery, laziness, and the text's form (folded, escaped, with comments, properties or multi byte characters, in any later document).",
  ["inputs", "schedules"], "every model document x presentation x source kind x delivery x laziness", "Tests compare event data and ignore marks; a mark counted from the current buffer rather than the content, or in characters rather than bytes, passes them.",
  [SC, PA, TY, OWN], [("read_at of every token: stats.read before it", SC), ("initEvent! marks taken from tokens", PA), ("Event::start/end", TY)], None, ["yary::event::types::Event::start", "yary::event::types::Event::end"], "refill sizes (yary::sim::set_chunk)")

p("C22", "Errors are of the category that caused them, and stay so",
  "An error of category IO means the byte stream failed, of category Data that the content is not UTF-8 (or that the source was already taken by another event stream), of category EOF that the end of the content was reached, never that more could still be read; anything else wrong with valid UTF-8 content is of category Syntax, and content that ends inside a quoted scalar, an escape or a verbatim tag is EOF. This holds for errors of the event stream and of lazy scalars, for every content, delivery and fault. Every error converts to a std::io::Error of the matching kind (InvalidInput, InvalidData, UnexpectedEof, or the original I/O error) with the same text, and says something.",
  ["inputs", "schedules", "fault_sequences"], "every byte sequence x delivery x fault x laziness", "Tests compare internal error codes for a few malformed inputs, hardly ever their public category, and never under faults or refills.",
  [ER, "src/event/error.rs", "src/scanner/error.rs", "src/reader/error.rs"], [("Category::from and From<Error> for io::Error", ER), ("error conversions between layers", "src/scanner/error.rs, src/reader/error.rs, src/event/error.rs"), ("end of content told from end of buffer", "src/scanner/macros.rs")], None, ["yary::error::Error::classify", "yary::error::Category"], "refill sizes (yary::sim::set_chunk)")

p("C23", "What a source, its events and its errors took is given back",
  "Once a source, the event streams on it and the events and errors they produced are dropped - in any order the borrows allow, after any history of polling, cloning, keeping, lazy evaluation or abandoning them half way, and after I/O errors, malformed content or a panic of the byte source - every byte of memory they took is returned and the byte source itself has been dropped, exactly once. The same session played again takes the same course.",
  ["histories", "fault_sequences", "inputs", "schedules"], "every content x source kind x delivery x fault x history of a session", "Tests exit the process with whatever was leaked, and no test counts drops; retired buffers, deferred scalars and errors are owned through raw pointers and copies whose drop no test observes.",
  [OWN, RD, EV, TY, ER], [("retired buffers (tail) and the byte source owned by the reader", OWN), ("lazy scalars own their unevaluated data", "src/scanner/entry.rs, src/event/types.rs"), ("boxed errors", ER)], [("Impl.tail", "retired buffers that events may borrow from")], ["global allocator", "Drop of the byte source"], "refill sizes (yary::sim::set_chunk)")

# properties this family does not address here (see MANIFEST.json not_applicable)
p("C17", "Error positions point at the offending text",
  "The line, column and index an error reports designate the place in the content the error is about. Errors without such context say so.",
  ["inputs"], "every malformed content", "Error positions are never asserted by the tests.",
  [ER, "src/event/error.rs"], [("Error::line/column/has_context", ER)], None, ["yary::error::Error"])
p("C19", "Sources with interior mutability cannot be shared between threads",
  "A stream source cannot be sent to or shared with another thread, in any safe program.",
  ["programs"], "every safe client program", "A negative trait bound is not testable at run time.",
  [OWN], [("UnsafeCell and Box<dyn Read> make OwnedReader !Sync and !Send", OWN)], None, ["the compiler"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
