how("C01", "the item tree the harness built (harness/h/item.go, its own representation) is compared with what comes out of encode, parse, and encode again, field by field.",
    "every value of every element (for integers up to 64 bits and floats up to their bit patterns) and every header value at once, for each item shape; the repository's tests use a few values per type.")
how("C02", "an encoder written independently from E5/E37 (refEncode in harness/h/item.go); byte-for-byte equality for every value.", "all values, all header fields, and every way of completing an incomplete message.")
how("C03", "the 14 bytes E37 prescribes, spelled out in the harness.", "complete over session ids, status bytes, system bytes and control headers: no bound on values.")
how("C04", "a decoder written independently from E5/E37 that says for each byte string whether it is acceptable and which values it spells out.", "all byte strings up to the bound, not a corpus; includes lengths that wrap or point past the buffer.")
how("C05", "the harness knows the frames it wrote and compares what Receive delivers, in order; read sizes, errors and end of stream are choices.", "every place where a read may come up short, rather than a loopback socket's lucky whole reads; concurrent senders with preemptions inside a write.")
how("C06", "the harness's own framing for each width and byte order.", "every announced length (64-bit), around every limit.")
how("C07", "range predicates of each format written with wide integers; equality with the given value.", "every value of every Go argument type at full width.")
how("C08", "differential: the same template filled against constructed with the values in place.", "every value, every subset of the variables, both map iteration orders.")
how("C09", "printing then parsing compared field by field; for rejected literals an independent range predicate; totality is the absence of panics and non-termination.", "every text up to the bound inside each syntactic context, not examples.")
how("C10", "an independent automaton of the HSMS connection (selected or not, closed or not) says for every message of the peer what must come back and what must be delivered.", "every sequence of messages with symbolic session ids, system bytes, status bytes; timers on a virtual clock.")
how("C11", "the same automaton; every control request must have its one response, with its session id and system bytes.", "as C10, and with preemptions.")
how("C12", "the harness knows which reply carries which system bytes; each request must return that one or an error after T3.", "every arrival order with symbolic system bytes, and a symbolic start value of the counter (so wrap-around is included).")
how("C13", "handlers record what they get; the wire is compared with the reply the standard prescribes.", "all wait bits, session ids and bodies; handlers that fail.")
how("C14", "stream/function tables of the harness decide which S9 message, if any, must come back.", "every stream and function and system bytes in one run.")
how("C15", "liveness probe: after any message the endpoint must still answer a well-formed request (or, for the listed invalid messages, let the peer reconnect), with no panic anywhere.", "every handled function with any subtree of a good body replaced, and any short body at all; a crash needs one particular shape that tests do not contain.")
how("C16", "a FIFO list in the harness.", "schedules: every interleaving of the queue's synchronisation operations up to the stated preemptions, including timeouts firing at any moment.")
how("C17", "an independent transition table of the E30 control diagram (harness/h/control.go).", "every start text and action sequence, pairs of concurrent actions, and the reported changes, on the bare model, on a silent endpoint and on a communicating one.")
how("C18", "the same table plus the acknowledge codes of S1F16 and S1F18.", "all action sequences up to the bound with every host answer, including while an attempt is under way.")
how("C19", "a model of the communication state kept by the harness over every step.", "answers of every shape, links lost at each point, stray denials, time passing.")
how("C20", "values and order computed from the request by the harness.", "identifiers of every kind and width, repeated, unknown, mixed.")
how("C21", "a model of three constants, applied all or nothing.", "all values, the position of the bad entry, repeated entries.")
how("C22", "a model of the report table; afterwards every report is read back through an event.", "identifiers symbolic, so repeated, clashing and unknown ones arise from the solver; malformed in every place.")
how("C23", "a model of the link table, read back by S6F15.", "as C22.")
how("C24", "a model of which events are linked and enabled; the wire must show exactly the reports it predicts.", "as C22, with triggers.")
how("C25", "the harness's own S6F11/S6F16 bodies from its variables.", "all values, link orders and unavailable variables.")
how("C26", "the handler's record and the host caller's result are compared with what was sent.", "every HCACK/CPACK value, every parameter type; malformed in every place.")
how("C27", "a model of two alarms.", "every history within the bound, every ALED value.")
how("C28", "handlers and store compared with the sent identifier and body bytes.", "every byte of the body and identifier.")
how("C29", "civil-date arithmetic written in the harness (days from the epoch, leap years).", "each field over its whole range, including the invalid ones.")
how("C30", "the harness composes replies from symbolic parts and predicts the call's result or an error.", "malformed replies in every place.")
how("C31", "lists of callbacks and sessions kept by the harness.", "histories and interleavings of close, put, remove, dispose.")
how("C32", "a list of callbacks kept by the harness.", "all histories within the bound.")
how("C33", "the arithmetic definition: base * 2^(n-1) capped at the maximum, with saturating 128-bit arithmetic.", "base and maximum fully symbolic, attempt numbers up to 2^31, where doubles and durations overflow.")
how("C35", "after every loss the endpoint must be back, answer and let requests through; after Disable nothing may connect.", "every sequence of kinds of loss, sends while down, failed attempts, schedules.")
how("C36", "range predicates over the header fields written without the code's checks; a reference record of what each message's accessors must return, compared for every message made so far after each change.", "64-bit symbolic header fields, and sequences of changes after which the originals and the caller's slices are looked at again.")
how("C37", "the harness walks its own item tree along the path.", "symbolic positions (negative, huge) and every kind of item on the way.")
how("C39", "the peer counts linktest requests over 7 intervals of virtual time and watches when the connection closes.", "silence starting at every byte, losses in the middle of a linktest, schedules; hours of idling are seconds of virtual time. It found that a connection lost during a linktest left a second stream of linktests running for ever (fixed).")
how("C38", "the peer knows every frame that crossed the wire; each must have its one entry in the writer, whose header, text (read back by the SML parser) and bytes must say the same.", "modes, exclusions, switching, failing writers and concurrency together; wrong bytes in a log are found by nobody until they matter.")
how("C40", "the messages the text was composed from, built through the constructors; sizes are compared as numbers.", "any byte in a comment: it found that a comment ending in a letter such as \u00e0 (last byte A0) broke the message (fixed).")
how("C41", "the harness's own list of connections and whether each is open.", "accept errors, failing codecs and stops in any order and schedule. It found that Dial left the connection open when the protocol made no codec (fixed).")
how("C42", "a list of identifiers and contents kept by the harness; a table of roles and states.", "identifier equality over all values and Go types; waiters racing with the establishment.")
how("C43", "happens-before by vector clocks, computed by the executor over every load, store and map access of the library.", "pairs of calls, messages and link events at once; the verdict does not depend on the schedule run, which sampling by the race detector does.")
how("C44", "the call must come back, the link must answer, and the callbacks of an event must be the harness's own list.", "every pair of place and call; the executor sees at once that a goroutine waits for itself. It found the lock held over Event.Fire and over the providers (fixed).")
