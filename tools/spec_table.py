# The jobs of every check. job(harness, time limit s, labels that must be reached, bounds, options, harness parameters)
ALLK = "all 14 item types"
prop("C01", [
    job("HRoundTripHeaderOnly", 20, ["round-trip"]),
    job("HRoundTripItem", 60, ["round-trip"], depth=1, n=2),
    job("HRoundTripLong", 60, ["round-trip"], n0=255, n1=256, n2=257),
], [
    job("HRoundTripHeaderOnly", 20, ["round-trip"]),
    job("HRoundTripItem", 60, ["round-trip"], depth=1, n=2),
    job("HRoundTripItem", 300, ["round-trip"], depth=2, n=1),
    job("HRoundTripItem", 300, ["round-trip"], depth=0, n=8),
    job("HRoundTripLong", 300, ["round-trip"], n0=255, n1=256, n2=257),
    job("HRoundTripLong", 600, ["round-trip"], n0=65535, n1=65536, n2=65537),
], bounds=["item trees of nesting depth 1 with up to 2 elements per node, every element value, every header field value", "one item of each type with 255, 256 and 257 bytes (thorough: 65535-65537), fixed content but for one element",
    "thorough: depth 2 with up to 1 element per node; single items of up to 8 elements"],
   outside=["deeper or wider item trees", "items above 64 KiB"],
   note="Items: nesting depth <=1, <=2 elements per node with all values symbolic, plus items at the 255/256 length boundary.")

prop("C02", [
    job("HEncodeItem", 40, ["encoded"], depth=1, n=1),
    job("HEncodeLong", 40, ["encoded"], sizes=5),
    job("HEncodeIncomplete", 40, ["complete", "incomplete"]),
], [
    job("HEncodeItem", 300, ["encoded"], depth=1, n=2),
    job("HEncodeItem", 300, ["encoded"], depth=2, n=1),
    job("HEncodeLong", 600, ["encoded"], sizes=8),
    job("HEncodeIncomplete", 40, ["complete", "incomplete"]),
], bounds=["item trees of nesting depth 1 with up to 1 element per node (thorough: 2 elements, or depth 2), all values; every header field value; three ways of completing a message", "item lengths 0, 1, 255, 256, 257 bytes (thorough: 65535-65537) with fixed content but for one element"],
   outside=["deeper or wider items", "items above 64 KiB"],
   note="Differential against an independently written E5/E37 encoder (harness/h/ref.go).")

prop("C03", [
    job("HControl", 40, ["control"]),
    job("HControlHeader", 40, ["control"]),
    job("HRejectFrom", 40, ["control"]),
], bounds=["complete: every session id, status/reason byte, system bytes; every 10-byte control header"],
   note="No bound is needed on the values: control messages are of fixed size. Header slices of up to 12 bytes.")

prop("C04", [
    job("HDecodeAny", 40, ["good-data", "good-control", "bad-length", "bad-body"], max=16),
    job("HDecodeBody", 60, ["good-data", "bad-body"], min=0, max=5),
    job("HDecodeNested", 60, ["good-data", "bad-body"], depth=2, max=3),
    job("HDecodeLength", 60, ["good-data", "bad-body"], have=2),
    job("HDecodeItem", 60, ["good-data", "bad-body"], max=17),
], [
    job("HDecodeAny", 300, ["good-data", "good-control", "bad-length", "bad-body"], max=18),
    job("HDecodeBody", 600, ["good-data", "bad-body"], min=0, max=7),
    job("HDecodeNested", 600, ["good-data", "bad-body"], depth=3, max=5),
    job("HDecodeLength", 600, ["good-data", "bad-body"], have=9),
    job("HDecodeItem", 600, ["good-data", "bad-body"], max=25),
], bounds=["every byte string of up to 16 bytes", "every correctly framed data message with a body of up to 5 bytes, and of up to 3 bytes inside two nested lists", "bodies of 0..2 and 256..258 bytes in one item under every declared 1-, 2- or 3-byte length (lengths more than 2 below the actual one only in the smaller bodies above)", "thorough: 18, 7, 5 in three lists, 0..9 and 256..265"],
   outside=["longer messages", "deep nesting"],
   note="Differential against an independently written decoder.")

prop("C05", [
    job("HFrames", 40, ["delivered"], frames=1, max=2, cut=0, short=2),
    job("HFrames", 40, ["delivered"], frames=2, max=1, cut=0, short=1),
    job("HFrames", 40, ["delivered"], frames=2, max=1, cut=0, short=-1),
    job("HFrames", 40, ["delivered", "cut"], frames=2, max=2, cut=1, short=0),
    job("HFramesLong", 40, ["delivered"], sizes=3),
    job("HFrameSend", 40, ["sent", "failed"], len=2),
    job("HFrameSenders", 40, ["done"], o={"sched": True, "preempt": 3, "switches": 3}, _native="prefer", senders=2, per=1, queue=0),
    job("HFrameSenders", 40, ["done"], o={"sched": True, "preempt": 2, "switches": 3}, _native="prefer", senders=2, per=2, queue=4),
], [
    job("HFrames", 300, ["delivered"], frames=1, max=2, cut=0, short=4),
    job("HFrames", 300, ["delivered"], frames=2, max=1, cut=0, short=2),
    job("HFrames", 300, ["delivered"], frames=3, max=1, cut=0, short=-1),
    job("HFrames", 300, ["delivered", "cut"], frames=2, max=2, cut=1, short=1),
    job("HFramesLong", 600, ["delivered"], sizes=6),
    job("HFrameSend", 100, ["sent", "failed"], len=6),
    job("HFrameSenders", 300, ["done"], o={"sched": True, "preempt": 3, "switches": 3}, _native="prefer", senders=3, per=1, queue=0),
    job("HFrameSenders", 300, ["done"], o={"sched": True, "preempt": 4, "switches": 3}, _native="prefer", senders=2, per=2, queue=4),
], bounds=["1-2 frames (control messages, data messages without an item or with a binary item of up to 2 bytes), every header and byte symbolic", "reads of which up to 2 (one frame) or 1 (two frames) return less than asked for, at any place (thorough: 4, 2); reads of one byte each; the stream cut at any place", "frames of 250-300 bytes with one short read (thorough: up to 5000)", "bare and below the buffering codec; end of stream reported alone or with the last data; one failing write", "2 concurrent senders with up to 2-3 preemptions, the transport yielding in the middle of a write"],
   outside=["more frames", "arbitrary combinations of short reads beyond the stated number", "announced lengths near 4 GB (memory)"], note="The transport is the harness's own io.ReadWriter; read sizes are choices.")

prop("C06", [
    job("HFixSend", 40, ["sent", "too-long"], limit=2, n=2),
    job("HFixSendWide", 40, ["sent", "too-long"], widths=2),
    job("HFixReceive", 40, ["delivered", "refused"], limit=2, n=2, cut=0, short=1),
    job("HFixReceive", 40, ["delivered", "refused"], limit=2, n=2, cut=1, short=0),
    job("HFixLarge", 40, ["delivered", "refused"], far=1),
    job("HFixAnnounced", 40, ["within", "too-long"], limit=2),
], [
    job("HFixSend", 300, ["sent", "too-long"], limit=3, n=3),
    job("HFixSendWide", 40, ["sent", "too-long"], widths=2),
    job("HFixReceive", 300, ["delivered", "refused"], limit=3, n=2, cut=0, short=2),
    job("HFixReceive", 300, ["delivered", "refused"], limit=3, n=2, cut=1, short=1),
    job("HFixLarge", 100, ["delivered", "refused"], far=60000),
    job("HFixAnnounced", 300, ["within", "too-long"], limit=6),
], bounds=["head widths 1, 2, 4, 8, both byte orders, send and receive limits 0-2 (thorough: 0-3, 6) and, for widths 1 and 2, around the width's own limit", "2 messages of up to 3 bytes (thorough: 3, 4), one short read at any place (2), streams cut at any place", "every announced length", "lengths announced up to 60000 bytes around the buffers on the way (quick: up to 4097)"],
   outside=["larger limits: an announced length within a limit of gigabytes is allocated as announced", "base codecs other than the byte codec"], note="")

prop("C07", [
    job("HIntConstructors", 40, ["accepted", "refused"], n=2),
    job("HBinaryConstructors", 40, ["accepted", "refused"], len=9),
    job("HTextConstructors", 40, ["accepted", "refused"], len=3),
    job("HFloatConstructors", 40, ["accepted", "refused"]),
    job("HOtherConstructors", 40, ["accepted", "refused"]),
], [
    job("HIntConstructors", 300, ["accepted", "refused"], n=3),
    job("HBinaryConstructors", 200, ["accepted", "refused"], len=12),
    job("HTextConstructors", 100, ["accepted", "refused"], len=6),
    job("HFloatConstructors", 100, ["accepted", "refused"]),
    job("HOtherConstructors", 100, ["accepted", "refused"]),
], bounds=["1-2 arguments of every Go integer type, every value, for I1-I8 and U1-U8 (thorough: 3)", "binary items from every int, byte, int8 and every '0b' string of up to 9 characters (thorough: 12) without '_'", "ASCII items from every string of up to 3 bytes (thorough: 6)", "F4/F8 items from every float64, float32, int32 and uint16"],
   note="All values of each argument type are symbolic at full width.")

prop("C08", [
    job("HFillLeaf", 40, ["filled"], n=2),
    job("HFillList", 60, ["filled"], n=2, depth=1),
    job("HFillEllipsis", 60, ["expanded"], n=1, rep=2),
    job("HFillMessage", 40, ["complete", "incomplete"], n=2),
], [
    job("HFillLeaf", 300, ["filled"], n=3),
    job("HFillList", 300, ["filled"], n=2, depth=1),
    job("HFillEllipsis", 300, ["expanded"], n=1, rep=2),
    job("HFillEllipsis", 300, ["expanded"], n=2, rep=1),
    job("HFillMessage", 100, ["complete", "incomplete"], n=3),
], bounds=["templates: one item of each type with up to 2 values or variables (thorough: 3), lists of up to 2 children of nesting depth 1 mixing values, variables, item variables and ASCII variables with length limits, and ellipses repeated up to 2 times", "every value filled in is symbolic; every subset of the variables is filled"],
   outside=["larger templates", "nested ellipses", "map iteration orders other than the insertion order and its reverse"],
   note="Differential against building the item from the same template with the values in place.")

prop("C09", [
    job("HSmlText", 60, ["accepted", "errors"], n=2),
    job("HSmlInteger", 60, ["representable", "not-representable"], n=3),
    job("HSmlQuoted", 60, ["representable", "not-representable"], n=4),
    job("HSmlHeader", 60, ["printed"], n=4),
    job("HSmlASCII", 60, ["printed"], n=2),
    job("HSmlNumber", 60, ["printed"], n=1, window=64),
    job("HSmlNumber", 60, ["printed"], n=2, window=4),
    job("HSmlFloat", 60, ["printed"]),
    job("HSmlTemplate", 60, ["printed"], n=1, depth=1),
    job("HSmlTemplate", 60, ["printed"], n=2, depth=0),
], [
    job("HSmlText", 600, ["accepted", "errors"], n=3),
    job("HSmlInteger", 600, ["representable", "not-representable"], n=4),
    job("HSmlQuoted", 300, ["representable", "not-representable"], n=6),
    job("HSmlHeader", 300, ["printed"], n=6),
    job("HSmlASCII", 300, ["printed"], n=4),
    job("HSmlNumber", 300, ["printed"], n=1, window=256),
    job("HSmlNumber", 300, ["printed"], n=2, window=16),
    job("HSmlFloat", 60, ["printed"]),
    job("HSmlTemplate", 600, ["printed"], n=2, depth=1),
], bounds=["every text of up to 2 bytes alone and inside 10 surrounding texts (thorough: 3 bytes)", "every number token of up to 3 characters in each integer and binary item (thorough: 4), every quoted text of up to 4 bytes (6)",
    "printing and parsing: every stream, function, wait bit, direction and name of up to 4 characters (6), every ASCII text of up to 2 characters (4), integers around zero and the limits of each format, 16 chosen floats, templates of up to 2 children with variables and ellipses"],
   outside=["longer texts", "floats other than the chosen ones (strconv's float conversion runs concretely)", "integers far from zero and from the limits"],
   note="")

HSMS_OUT = ["longer histories", "partial reads within a frame (C05)", "timing other than timers firing in deadline order (reconnection, T3, T6, T7 run on a virtual clock)"]
HSMS_NOTE = "The real endpoint (hsms, session, manager, codec, parser) runs against a modelled peer over a modelled connection with a virtual clock; the peer's choices, session ids, system bytes, header and body bytes are symbolic, and the order of goroutines is a choice of the executor where the job says so."
prop("C10", [
    job("HPassive", 60, ["selected", "denied", "separated", "delivered", "rejected"], _native="prefer", sessions=3, steps=2, selected=0),
    job("HPassive", 60, ["separated", "delivered", "rejected"], _native="prefer", sessions=1, steps=3, selected=1),
    job("HActive", 60, ["refused", "selected"], _native="prefer", noise=2),
    job("HT7", 60, ["closed", "stays"], _native="prefer", x=1),
    job("HSends", 60, ["refused", "sent"], _native="prefer", x=1),
], [
    job("HPassive", 300, ["selected", "denied", "separated", "delivered", "rejected"], _native="prefer", sessions=3, steps=3, selected=0),
    job("HPassive", 300, ["selected", "separated", "delivered", "rejected"], _native="prefer", sessions=1, steps=4, selected=1),
    job("HPassive", 300, ["selected", "separated", "delivered", "rejected"], o={"sched": True, "preempt": 1, "switches": 0}, _native="prefer", sessions=1, steps=2, selected=1),
    job("HActive", 300, ["refused", "selected"], _native="prefer", noise=2),
    job("HT7", 60, ["closed", "stays"], _native="prefer", x=1),
    job("HSends", 60, ["refused", "sent"], _native="prefer", x=1),
], bounds=["passive endpoint with a fixed, wildcard (0xFFFF) or zero session id: every sequence of 2 messages from the peer, 3 once it is selected (thorough: 3 and 4; with one preemption), each one any of select, deselect, linktest, separate requests, stray responses, rejects, data messages with any header fields", "active endpoint: up to 2 stray messages before any select response", "T7 with and without a select", "the application's sends in every connection state"],
   outside=HSMS_OUT, note=HSMS_NOTE)

prop("C11", [
    job("HPassive", 60, ["selected", "denied", "separated", "delivered", "rejected"], _native="prefer", sessions=3, steps=2, selected=0),
    job("HPassive", 60, ["separated", "delivered", "rejected"], _native="prefer", sessions=1, steps=3, selected=1),
    job("HPassive", 60, ["separated", "delivered"], o={"sched": True, "preempt": 1, "switches": 0}, _native="prefer", sessions=1, steps=1, selected=1),
], [
    job("HPassive", 300, ["selected", "denied", "separated", "delivered", "rejected"], _native="prefer", sessions=3, steps=3, selected=0),
    job("HPassive", 300, ["selected", "separated", "delivered", "rejected"], _native="prefer", sessions=1, steps=4, selected=1),
    job("HPassive", 300, ["selected", "separated", "delivered", "rejected"], o={"sched": True, "preempt": 1, "switches": 0}, _native="prefer", sessions=1, steps=2, selected=1),
], bounds=["every sequence of 2 messages from the peer to an unselected endpoint, 3 to a selected one (thorough: 3 and 4), control messages of every type with any session id, status and system bytes", "the same with one preemption at any point for 1 message (thorough: 2)"],
   outside=HSMS_OUT, note=HSMS_NOTE)

prop("C12", [
    job("HRequests", 60, ["answered", "timeout"], _native="prefer", requests=1, steps=2, wait=1),
    job("HRequests", 60, ["answered", "timeout"], _native="prefer", requests=2, steps=3, wait=0),
    job("HRequests", 60, ["answered", "timeout"], o={"sched": True, "preempt": 1, "switches": 0}, _native="prefer", requests=2, steps=1, wait=0),
], [
    job("HRequests", 300, ["answered", "timeout"], _native="prefer", requests=1, steps=3, wait=1),
    job("HRequests", 300, ["answered", "timeout"], _native="prefer", requests=2, steps=4, wait=0),
    job("HRequests", 300, ["answered", "timeout"], _native="prefer", requests=3, steps=3, wait=0),
    job("HRequests", 300, ["answered", "timeout"], o={"sched": True, "preempt": 1, "switches": 0}, _native="prefer", requests=2, steps=2, wait=0),
], bounds=["1 or 2 open requests (thorough: 3) and every sequence of 2-3 messages from the peer (thorough: 4): replies to each of them in any order, replies with any other system bytes, primaries, control responses with a request's system bytes; every start value of the system byte counter", "2 concurrent requests with one preemption at any point"],
   outside=HSMS_OUT, note=HSMS_NOTE)

prop("C13", [
    job("HPrimaries", 60, ["handled"], _native="prefer", n=1),
    job("HPrimaries", 60, ["handled"], _native="prefer", n=2),
], [
    job("HPrimaries", 300, ["handled"], _native="prefer", n=1),
    job("HPrimaries", 600, ["handled"], _native="prefer", n=3),
    job("HPrimaries", 300, ["handled"], o={"sched": True, "preempt": 1, "switches": 0}, _native="prefer", n=1),
], bounds=["sequences of 1 and 2 primaries (thorough: 3; one preemption), every wait bit, system bytes, session id and a one-item body of any value, handlers that reply, fail or return nothing"],
   outside=HSMS_OUT, note=HSMS_NOTE)

prop("C14", [
    job("HUnhandled", 60, ["ignored", "unknown-function", "unknown-stream"], _native="prefer", any=0),
    job("HUnhandled", 60, ["ignored", "unknown-function", "unknown-stream"], _native="prefer", any=1),
    job("HErrorCallback", 60, ["reported"], _native="prefer", x=1),
    job("HRequests", 60, ["answered", "timeout"], _native="prefer", requests=1, steps=2, wait=1),
    job("HRequests", 60, ["answered", "timeout"], _native="prefer", requests=1, steps=1, wait=-1),
], bounds=["every stream, function, wait bit and system bytes of one message without a handler, to an endpoint with handlers in some streams", "every stream 9 message, answering an open request or not", "1 open request, asking for a reply or not, left unanswered after every sequence of 2 (1) messages from the peer"],
   outside=HSMS_OUT + ["S9F1, S9F7, S9F11 and S9F13: the library builds them only on the application's request"], note=HSMS_NOTE)

prop("C35", [
    job("HReconnect", 60, ["lost", "disabled"], _native="prefer", losses=2),
    job("HAttempts", 60, ["lost", "disabled"], _native="prefer", losses=2),
    job("HReconnect", 60, ["lost", "disabled"], o={"sched": True, "preempt": 0, "switches": 3}, _native="prefer", losses=1),
], [
    job("HReconnect", 300, ["lost", "disabled"], _native="prefer", losses=3),
    job("HAttempts", 200, ["lost", "disabled"], _native="prefer", losses=4),
    job("HReconnect", 300, ["lost", "disabled"], o={"sched": True, "preempt": 1, "switches": 3}, _native="prefer", losses=1),
], bounds=["every sequence of 2 losses of each kind (thorough: 3), active and passive", "2 losses (thorough: 4) with 0 to 2 failed attempts after each and a limit of 2 attempts", "1 loss with 3 free choices of the next goroutine (thorough: and one preemption)"],
   outside=HSMS_OUT, note=HSMS_NOTE)

GEM_OUT = HSMS_OUT + ["data items nested deeper or longer than stated"]
GEM_NOTE = "The real equipment or host (gem on top of hsms, session, manager, codec, parser) is driven over a modelled connection with a virtual clock by a modelled peer; identifiers, values, codes and texts are symbolic, message shapes and histories are path choices within the bounds."
prop("C17", [
    job("HModel", 60, ["moved", "refused"], steps=3),
    job("HModelRace", 60, ["raced"], o={"sched": True, "preempt": 2, "switches": 2}, _native="prefer", x=1),
    job("HOperator", 60, ["moved"], _native="prefer", steps=3),
    job("HOperator", 60, ["moved"], o={"sched": True, "preempt": 1, "switches": 3}, _native="prefer", steps=2),
    job("HOnline", 60, ["offline", "online", "already-online", "refused"], _native="prefer", starts=4, steps=2, bodies=1),
], [
    job("HModel", 300, ["moved", "refused"], steps=4),
    job("HModelRace", 300, ["raced"], o={"sched": True, "preempt": 3, "switches": 3}, _native="prefer", x=1),
    job("HOperator", 300, ["moved"], _native="prefer", steps=5),
    job("HOperator", 300, ["moved"], o={"sched": True, "preempt": 2, "switches": 3}, _native="prefer", steps=3),
    job("HOnline", 300, ["offline", "online", "already-online", "refused", "during-attempt"], _native="prefer", starts=4, steps=4, bodies=1),
], bounds=["every configured start text of the length of a valid one, every sequence of 3 of the 9 actions (thorough: 4) on the control model", "2 actions at once from every start, with up to 2 preemptions (thorough: 3)", "every sequence of 3 operator actions (thorough: 5) on an endpoint that does not communicate", "every sequence of 2 operator and host actions (thorough: 4) on communicating equipment, every answer of the host to S1F1"],
   outside=["longer sequences", "more than two concurrent actions", "data races that need interleaving between synchronisation operations"], note="Start texts and actions are symbolic and split by the solver; the reference is an independently written E30 transition table.")

prop("C18", [
    job("HOnline", 60, ["offline", "online", "already-online"], _native="prefer", starts=4, steps=1, bodies=2),
    job("HOnline", 60, ["offline", "online", "already-online", "refused", "during-attempt"], _native="prefer", starts=2, steps=3, bodies=1),
], [
    job("HOnline", 300, ["offline", "online", "already-online", "refused", "during-attempt"], _native="prefer", starts=4, steps=3, bodies=2),
    job("HOnline", 600, ["offline", "online", "already-online", "refused", "during-attempt"], _native="prefer", starts=2, steps=5, bodies=1),
], bounds=["every start, every answer to S1F1 (S1F2, S1F0, none), every sequence of 3 S1F15, S1F17 and operator actions (thorough: 5), also while an attempt is under way"], outside=GEM_OUT, note=GEM_NOTE)

prop("C19", [
    job("HCommunication", 60, ["accepted", "denied", "established-by-peer", "lost", "request-refused", "request-sent", "disabled"], _native="prefer", steps=2),
    job("HCommunication", 100, ["accepted", "denied", "established-by-peer", "lost", "request-refused", "request-sent", "disabled"], _native="prefer", steps=3),
], [
    job("HCommunication", 900, ["accepted", "denied", "established-by-peer", "lost", "request-refused", "request-sent", "disabled"], _native="prefer", steps=4),
    job("HCommunication", 300, ["accepted", "denied", "lost", "disabled"], o={"sched": True, "preempt": 0, "switches": 3}, _native="prefer", steps=1),
], bounds=["every sequence of 3 steps (thorough: 4) of: the peer answers the endpoint's S1F13 (any COMMACK, 7 answer shapes), sends its own, sends a stray denial, drops the link and returns, time passing without answers, a call of each kind by the application, Disable; equipment and host, any model text of 2 characters"],
   outside=GEM_OUT + ["active endpoints"], note=GEM_NOTE)

prop("C20", [
    job("HStatus", 30, ["values", "names"], _native="prefer", n=1, kinds=7),
    job("HStatus", 60, ["values", "names"], _native="prefer", n=2, kinds=2),
], [
    job("HStatus", 300, ["values", "names"], _native="prefer", n=2, kinds=7),
    job("HStatus", 600, ["values", "names"], _native="prefer", n=3, kinds=1),
], bounds=["every request list of up to 2 identifiers (thorough: 3), each known, unknown or no identifier, numbers of all widths and texts of 1-2 characters with any value, to equipment with three variables (stored, provided, unavailable) of symbolic values"], outside=GEM_OUT, note=GEM_NOTE)

prop("C21", [
    job("HConstantInfo", 30, ["values", "attributes"], _native="prefer", n=1, kinds=7),
    job("HConstants", 60, ["changed", "not-acceptable", "unknown"], _native="prefer", n=2, steps=1, kinds=1),
], [
    job("HConstantInfo", 300, ["values", "attributes"], _native="prefer", n=2, kinds=2),
    job("HConstants", 300, ["changed", "not-acceptable", "unknown"], _native="prefer", n=2, steps=1, kinds=7),
    job("HConstants", 900, ["changed", "not-acceptable", "unknown"], _native="prefer", n=2, steps=2, kinds=1),
], bounds=["every S2F13 and S2F29 list of 1 identifier (thorough: 2)", "every S2F15 of up to 2 entries (thorough: two such messages) over known, unknown and malformed entries with any value, to three constants: validated, plain and with its own provider and updater"], outside=GEM_OUT, note=GEM_NOTE)

prop("C22", [
    job("HDefine", 60, ["defined", "refused"], _native="prefer", n=1, nv=1, malformed=0, widths=1, kinds=7, priors=4, steps=1, broken=0),
    job("HDefine", 60, ["defined", "refused", "malformed"], _native="prefer", n=1, nv=2, malformed=1, widths=1, kinds=2, priors=3, steps=1, broken=0),
    job("HDefine", 60, ["defined", "refused"], _native="prefer", n=2, nv=1, malformed=0, widths=1, kinds=1, priors=2, steps=1, broken=0),
    job("HDefine", 60, ["defined", "refused"], _native="prefer", n=1, nv=1, malformed=0, widths=1, kinds=1, priors=2, steps=2, broken=0),
], [
    job("HDefine", 300, ["defined", "refused", "malformed"], _native="prefer", n=1, nv=1, malformed=1, widths=2, kinds=7, priors=4, steps=1, broken=-1),
    job("HDefine", 300, ["defined", "refused", "malformed"], _native="prefer", n=2, nv=1, malformed=1, widths=1, kinds=1, priors=3, steps=1, broken=0),
    job("HDefine", 300, ["defined", "refused", "malformed"], _native="prefer", n=1, nv=1, malformed=1, widths=1, kinds=1, priors=4, steps=2, broken=0),
    job("HDefine", 900, ["defined", "refused"], _native="prefer", n=2, nv=2, malformed=0, widths=1, kinds=1, priors=2, steps=1, broken=0),
], bounds=["every S2F33 of up to 2 entries with 1 variable or 1 entry with up to 2, and every 2 such messages of 1 entry (thorough: 2 entries of 2 variables), over known, unknown, repeated and malformed identifiers of every width and any value, after 4 histories; afterwards every event is enabled and every report is read back through one"],
   outside=GEM_OUT, note=GEM_NOTE)

prop("C23", [
    job("HLink", 60, ["linked", "refused"], _native="prefer", n=1, nr=1, malformed=0, widths=1, kinds=7, priors=5, steps=1, broken=0),
    job("HLink", 60, ["linked", "refused", "malformed"], _native="prefer", n=1, nr=2, malformed=1, widths=1, kinds=2, priors=4, steps=1, broken=0),
    job("HLink", 60, ["linked", "refused"], _native="prefer", n=2, nr=1, malformed=0, widths=1, kinds=1, priors=5, steps=1, broken=0),
    job("HLink", 60, ["linked", "refused"], _native="prefer", n=1, nr=1, malformed=0, widths=1, kinds=1, priors=2, steps=2, broken=0),
], [
    job("HLink", 300, ["linked", "refused", "malformed"], _native="prefer", n=2, nr=1, malformed=1, widths=2, kinds=2, priors=4, steps=1, broken=0),
    job("HLink", 300, ["linked", "refused", "malformed"], _native="prefer", n=1, nr=1, malformed=1, widths=1, kinds=2, priors=4, steps=2, broken=0),
    job("HLink", 900, ["linked", "refused"], _native="prefer", n=2, nr=2, malformed=0, widths=1, kinds=1, priors=3, steps=1, broken=0),
], bounds=["every S2F35 of up to 2 entries with 1 report or 1 entry with up to 2, and every 2 such messages of 1 entry (thorough: 2 entries of 2 reports), over known, unknown, repeated and malformed identifiers of every width and any value, after 4 or 5 histories; afterwards the reports of every event are requested, and every event is enabled"],
   outside=GEM_OUT, note=GEM_NOTE)

prop("C24", [
    job("HEnable", 60, ["switched", "refused", "reported", "not-reported"], _native="prefer", n=1, widths=2, kinds=2, priors=5, steps=1, broken=-1),
    job("HEnable", 60, ["switched", "refused", "reported", "not-reported"], _native="prefer", n=2, widths=1, kinds=2, priors=3, steps=1, broken=0),
    job("HEnable", 60, ["switched", "refused", "reported", "not-reported"], _native="prefer", n=1, widths=1, kinds=1, priors=3, steps=2, broken=0),
], [
    job("HEnable", 300, ["switched", "refused", "reported", "not-reported"], _native="prefer", n=2, widths=2, kinds=7, priors=4, steps=1, broken=0),
    job("HEnable", 600, ["switched", "refused", "reported", "not-reported"], _native="prefer", n=2, widths=1, kinds=1, priors=3, steps=2, broken=0),
    job("HEnable", 900, ["switched", "refused", "reported", "not-reported"], _native="prefer", n=1, widths=1, kinds=1, priors=3, steps=3, broken=0),
], bounds=["every S2F37 of up to 2 events (thorough: 3 such messages of 1, 2 of 2) over linked, unlinked, unknown and malformed identifiers, CEED of any value, after 4 or 5 histories, followed by every sequence of up to 2 triggered events"],
   outside=GEM_OUT, note=GEM_NOTE)

prop("C25", [
    job("HReport", 100, ["requested", "triggered", "disabled", "other"], _native="prefer", shapes=3, nv=1, kinds=1, broken=0),
    job("HReport", 150, ["requested", "triggered", "disabled", "other"], _native="prefer", shapes=1, nv=1, kinds=1, broken=-1),
], [
    job("HReport", 300, ["requested", "triggered", "disabled", "other"], _native="prefer", shapes=1, nv=2, kinds=1, broken=0),
    job("HReport", 300, ["requested", "triggered", "disabled", "other"], _native="prefer", shapes=1, nv=1, kinds=7, broken=-1),
    job("HReport", 900, ["requested", "triggered", "disabled", "other"], _native="prefer", shapes=4, nv=1, kinds=1, broken=0),
], bounds=["two reports, one of 1 variable and one of 5 combinations of up to 4 (thorough: up to 2 of any each) over two variables with symbolic values (nested list, array, text; thorough: any item of depth 1) and one unavailable in 4 ways, linked in every order by one or two messages, reported on request and on a trigger before and after the values change, and requested while disabled; one S6F15 for any identifier"],
   outside=GEM_OUT, note=GEM_NOTE)

prop("C26", [
    job("HCommand", 60, ["malformed", "no-handler", "acknowledged", "failed"], _native="prefer", steps=1, n=1, malformed=1, depth=0, width=1, kinds=2),
    job("HCommand", 60, ["no-handler", "acknowledged", "failed"], _native="prefer", steps=1, n=1, malformed=0, depth=0, width=1, kinds=7),
    job("HCommandHost", 60, ["refused", "malformed", "acknowledged"], _native="prefer", n=1, ids=7, values=16, kinds=2),
], [
    job("HCommand", 600, ["malformed", "no-handler", "acknowledged", "failed"], _native="prefer", steps=2, n=1, malformed=1, depth=0, width=1, kinds=1),
    job("HCommand", 600, ["no-handler", "acknowledged", "failed"], _native="prefer", steps=1, n=2, malformed=0, depth=0, width=1, kinds=2),
    job("HCommand", 600, ["malformed", "no-handler", "acknowledged", "failed"], _native="prefer", steps=1, n=1, malformed=1, depth=0, width=2, kinds=7),
    job("HCommandHost", 600, ["refused", "malformed", "acknowledged"], _native="prefer", n=2, ids=7, values=16, kinds=2),
], bounds=["every S2F41 with up to 1 parameter (thorough: 2 parameters or 2 messages), names of 1-2 characters or numbers, values of any type and content of up to 1 element, and malformed ones of every shape; every HCACK and CPACK; host calls with 7 kinds of name and 16 kinds of value, answered in every shape"], outside=GEM_OUT, note=GEM_NOTE)

prop("C27", [
    job("HAlarms", 60, ["switched", "refused", "reported", "not-reported"], _native="prefer", steps=1, n=1, kinds=2, ids=1, priors=4),
    job("HAlarms", 60, ["switched", "refused", "reported", "not-reported"], _native="prefer", steps=2, n=1, kinds=1, ids=0, priors=2),
    job("HAlarms", 90, ["switched", "refused", "reported", "not-reported"], _native="prefer", steps=1, n=2, kinds=2, ids=1, priors=1),
    job("HAlarmHost", 30, ["malformed", "told"], _native="prefer"),
], [
    job("HAlarms", 300, ["switched", "refused", "reported", "not-reported"], _native="prefer", steps=1, n=2, kinds=5, ids=1, priors=4),
    job("HAlarms", 900, ["switched", "refused", "reported", "not-reported"], _native="prefer", steps=3, n=1, kinds=1, ids=0, priors=3),
    job("HAlarms", 600, ["switched", "refused", "reported", "not-reported"], _native="prefer", steps=2, n=1, kinds=2, ids=1, priors=4),
    job("HAlarmHost", 30, ["malformed", "told"], _native="prefer"),
], bounds=["every sequence of 2 operations (thorough: 3) of S5F3, S5F5, S5F7 and raising and clearing on two alarms, with up to 2 identifiers per S5F5, known, unknown and malformed, ALED 128 and 0, after up to 4 histories", "the host's handling of S5F1 of any content"], outside=GEM_OUT, note=GEM_NOTE)

prop("C28", [
    job("HPrograms", 60, ["malformed", "uploaded", "stored", "requested", "not-available", "returned"], _native="prefer", steps=1, len=2, kinds=2),
    job("HProgramsHost", 60, ["refused", "acknowledged", "malformed", "returned"], _native="prefer", ids=7, len=2),
], [
    job("HPrograms", 600, ["malformed", "uploaded", "stored", "requested", "not-available", "returned"], _native="prefer", steps=2, len=1, kinds=1),
    job("HPrograms", 300, ["malformed", "uploaded", "stored", "requested", "not-available", "returned"], _native="prefer", steps=1, len=4, kinds=7),
    job("HProgramsHost", 300, ["refused", "acknowledged", "malformed", "returned"], _native="prefer", ids=7, len=4),
], bounds=["every S7F3 or S7F5 (thorough: two of them) with an identifier of any value and a text or binary body of up to 2 bytes (thorough: 4), or malformed, with and without handlers and a registered program, any acknowledge; host calls with 7 kinds of identifier answered in every shape"], outside=GEM_OUT, note=GEM_NOTE)

prop("C29", [
    job("HClockShow", 90, ["shown"], _native="prefer", years=1),
    job("HClockSet", 60, ["invalid", "no-handler", "set"], _native="prefer", years=1),
], [
    job("HClockShow", 900, ["shown"], _native="prefer", years=9),
    job("HClockSet", 300, ["invalid", "no-handler", "set"], _native="prefer", years=4),
], bounds=["S2F17: year 2024 (thorough: 9 years from 0 to 9999), one of hour, minute and second, month and day, or nanosecond arbitrary and the others fixed, in UTC and a zone with another offset", "S2F31: 14 or 16 characters of which one field at a time (month, day, hour, minute, second, or the last two digits of the year 20xx, thorough: 4 centuries) is any two digits or holds any other ASCII character, with any last two characters, or 13 characters or another item; any acknowledge"],
   outside=GEM_OUT + ["two date fields arbitrary at once"], note=GEM_NOTE)

prop("C15", [
    job("HAnything", 90, ["alive"], _native="prefer", steps=1, depth=0, width=1, prior=1, few=0, group=0, handlers=2),
    job("HAnything", 60, ["alive"], _native="prefer", steps=2, depth=0, width=1, prior=0, few=1, group=4, handlers=0),
    job("HAnyBytes", 60, ["alive"], _native="prefer", len=3, handlers=1),
], [
    job("HAnything", 300, ["alive"], _native="prefer", steps=1, depth=1, width=1, prior=1, few=0, group=0, handlers=2),
    job("HAnything", 600, ["alive"], _native="prefer", steps=1, depth=0, width=2, prior=0, few=0, group=0, handlers=1),
    job("HAnything", 300, ["alive"], _native="prefer", steps=2, depth=0, width=1, prior=0, few=1, group=1, handlers=0),
    job("HAnything", 300, ["alive"], _native="prefer", steps=2, depth=0, width=1, prior=0, few=1, group=2, handlers=0),
    job("HAnything", 300, ["alive"], _native="prefer", steps=2, depth=0, width=1, prior=0, few=1, group=3, handlers=1),
    job("HAnything", 300, ["alive"], _native="prefer", steps=2, depth=0, width=1, prior=0, few=1, group=4, handlers=0),
    job("HAnyBytes", 600, ["alive"], _native="prefer", len=6, handlers=1),
], bounds=["every function the equipment (22) and the host (5) handle, with and without the wait bit: a good body with one subtree replaced by any item of up to 1 element (thorough: 2 elements, or a list of one; two messages of the same group with small changes), or one element more or less in one of its lists; integer and text values arbitrary, three float values each", "any stream and function with any body of up to 3 bytes (thorough: 6)"],
   outside=GEM_OUT + ["bodies that differ from a good one in more than one place and have more than 6 bytes", "peers that stop reading"], note=GEM_NOTE)

prop("C30", [
    job("HRequestValues", 60, ["refused", "malformed", "values"], _native="prefer", n=2, ids=2),
    job("HRequestNames", 60, ["malformed", "entries"], _native="prefer", n=1, ids=1, entries=1, kinds=2),
    job("HRequestChange", 60, ["refused", "malformed", "acknowledged"], _native="prefer", n=1, ids=7, inner=1),
    job("HRequestReport", 60, ["malformed", "report"], _native="prefer", ids=1, kinds=2, reports=1, values=1),
    job("HRequestReport", 60, ["refused", "malformed", "report"], _native="prefer", ids=7, kinds=1, reports=0, values=1),
    job("HEventHost", 60, ["told", "malformed"], _native="prefer", kinds=2, reports=1, values=1),
    job("HRequestAlarms", 60, ["time", "alarms", "malformed"], _native="prefer", n=1, kinds=4),
], [
    job("HRequestValues", 300, ["refused", "malformed", "values"], _native="prefer", n=2, ids=7),
    job("HRequestNames", 300, ["malformed", "entries"], _native="prefer", n=0, ids=1, entries=2, kinds=1),
    job("HRequestNames", 60, ["refused", "malformed", "entries"], _native="prefer", n=2, ids=7, entries=0, kinds=1),
    job("HRequestNames", 300, ["malformed", "entries"], _native="prefer", n=1, ids=1, entries=1, kinds=7),
    job("HRequestChange", 300, ["refused", "malformed", "acknowledged"], _native="prefer", n=1, ids=7, inner=2),
    job("HRequestChange", 300, ["refused", "malformed", "acknowledged"], _native="prefer", n=2, ids=2, inner=1),
    job("HRequestReport", 300, ["malformed", "report"], _native="prefer", ids=1, kinds=7, reports=1, values=2),
    job("HEventHost", 300, ["told", "malformed"], _native="prefer", kinds=1, reports=2, values=1),
    job("HRequestAlarms", 600, ["time", "alarms", "malformed"], _native="prefer", n=2, kinds=2),
], bounds=["each host call with up to 2 identifiers (7 kinds of Go value, any value), answered with up to 1 entry (thorough: 2), each good or malformed in every place, more or fewer entries than asked for, no list, an abort or silence; S6F11 with 1 report of up to 1 value (thorough: 2)"], outside=GEM_OUT, note=GEM_NOTE)

prop("C16", [
    job("HDequeSeq", 30, ["item", "timeout"], steps=4),
    job("HDequeStream", 30, ["done"], o={"sched": True, "preempt": 4, "switches": 3}, _native="prefer", n=3),
    job("HDeque", 30, ["done"], o={"sched": True, "preempt": 2, "switches": 3}, _native="prefer", putters=2, getters=2, per=1, timeout=5, race=0),
    job("HDeque", 30, ["done"], o={"sched": True, "preempt": 2, "switches": 3}, _native="prefer", putters=2, getters=3, per=1, timeout=5, race=0),
    job("HDeque", 30, ["done"], o={"sched": True, "preempt": 3, "switches": 3}, _native="prefer", putters=1, getters=2, per=2, timeout=5, race=0),
    job("HDeque", 30, ["done"], o={"sched": True, "preempt": 2, "switches": 3, "timer_race": True}, _native="prefer", _no_sample_obs=True, putters=2, getters=2, per=1, timeout=5, race=1),
    job("HDeque", 30, ["done"], o={"sched": True, "preempt": 4, "switches": 3, "timer_race": True}, _native="prefer", _no_sample_obs=True, putters=1, getters=1, per=2, timeout=5, race=1),
], [
    job("HDequeSeq", 120, ["item", "timeout"], steps=6),
    job("HDequeStream", 120, ["done"], o={"sched": True, "preempt": 5, "switches": 3}, _native="prefer", n=4),
    job("HDeque", 300, ["done"], o={"sched": True, "preempt": 4, "switches": 3}, _native="prefer", putters=2, getters=2, per=1, timeout=5, race=0),
    job("HDeque", 300, ["done"], o={"sched": True, "preempt": 3, "switches": 3}, _native="prefer", putters=2, getters=3, per=1, timeout=5, race=0),
    job("HDeque", 300, ["done"], o={"sched": True, "preempt": 5, "switches": 3}, _native="prefer", putters=1, getters=2, per=2, timeout=5, race=0),
    job("HDeque", 300, ["done"], o={"sched": True, "preempt": 3, "switches": 3, "timer_race": True}, _native="prefer", _no_sample_obs=True, putters=2, getters=2, per=1, timeout=5, race=1),
    job("HDeque", 300, ["done"], o={"sched": True, "preempt": 6, "switches": 3, "timer_race": True}, _native="prefer", _no_sample_obs=True, putters=1, getters=1, per=2, timeout=5, race=1),
], bounds=["every sequence of 4 puts and gets by one goroutine (thorough: 6)", "a getter consuming 3 items while a putter adds them, with up to 4 preemptions", "2 concurrent puts and 2-3 concurrent gets with up to 2-3 preemptions, 2 puts in a row and 1-2 gets with up to 4-5 preemptions", "with and without the getter's timeout firing at any point"],
   outside=["more goroutines or preemptions", "weak-memory behaviour (the interleaving semantics is sequentially consistent)"],
   note="Goroutine schedules are choices of the executor; counterexample schedules that the native scheduler does not reproduce are reported from the interpreted run.")

prop("C31", [
    job("HSessionHistory", 30, ["closed"], steps=4, queue=0, before=0),
    job("HSessionHistory", 30, ["closed"], steps=3, queue=0, before=3),
    job("HSessionHistory", 30, ["closed"], steps=3, queue=2, before=0),
    job("HSessionRace", 30, ["closed"], o={"sched": True, "preempt": 2, "switches": 3}, _native="prefer", queue=0, closers=2),
    job("HSessionRace", 30, ["closed"], o={"sched": True, "preempt": 2, "switches": 2}, _native="prefer", queue=1, closers=2),
    job("HManager", 30, ["step"], steps=4, before=0, queue=0),
    job("HManager", 30, ["step"], steps=2, before=34, queue=0),
    job("HManagerRace", 30, ["disposed"], o={"sched": True, "preempt": 2, "switches": 2}, _native="prefer"),
    job("HChannel", 30, ["step"], sessions=2, keys=2, steps=4),
    job("HChannelRace", 30, ["done"], o={"sched": True, "preempt": 3, "switches": 3}, _native="prefer"),
], [
    job("HSessionHistory", 200, ["closed"], steps=5, queue=0, before=0),
    job("HSessionHistory", 200, ["closed"], steps=4, queue=0, before=3),
    job("HSessionHistory", 200, ["closed"], steps=5, queue=2, before=0),
    job("HSessionRace", 300, ["closed"], o={"sched": True, "preempt": 3, "switches": 3}, _native="prefer", queue=0, closers=2),
    job("HSessionRace", 300, ["closed"], o={"sched": True, "preempt": 3, "switches": 3}, _native="prefer", queue=1, closers=2),
    job("HManager", 200, ["step"], steps=6, before=0, queue=2),
    job("HManager", 200, ["step"], steps=3, before=34, queue=0),
    job("HManagerRace", 300, ["disposed"], o={"sched": True, "preempt": 3, "switches": 3}, _native="prefer"),
    job("HChannel", 300, ["step"], sessions=3, keys=2, steps=5),
    job("HChannelRace", 300, ["done"], o={"sched": True, "preempt": 5, "switches": 4}, _native="prefer"),
], bounds=["every sequence of 3-4 operations on a session with 3 callback keys (thorough: 5), also after 3 callbacks were added (3 operations, thorough: 4), on a manager (also with 34 sessions, so that sessions share a bucket), on a channel with 2 keys and 2 sessions (5 operations, 3 sessions)", "2 concurrent closes with one add, remove or send; creation, close and disposal at once; put, replace, remove or fetch racing with a close: up to 2-3 preemptions and 2-3 free choices of the next goroutine (thorough: 3-5)"],
   outside=["more goroutines, preemptions or sessions"], note="Callbacks run asynchronously; the check lets them finish before looking.")

prop("C32", [
    job("HEvents", 30, ["fired"], callbacks=2, steps=4),
], [
    job("HEvents", 200, ["fired"], callbacks=3, steps=5),
], bounds=["every sequence of 4 add, remove and fire operations on 2 callbacks (thorough: 5 on 3), symbolic data"], outside=["longer histories"], note="")

prop("C33", [
    job("HBackoff", 60, ["delay"]),
], bounds=["every base and maximum of 0..2^32-1 seconds, 40 chosen attempt numbers from 1 to 2^31"], outside=["attempt numbers other than the chosen ones"],
   note="math.Pow is modelled exactly for base 2 by dyadic floats; attempt numbers are a chosen set, base and maximum are fully symbolic.")

prop("C36", [
    job("HMessageNew", 60, ["built", "refused"], n=2),
    job("HMessageChange", 60, ["changed", "refused"], steps=2),
], [
    job("HMessageNew", 100, ["built", "refused"], n=3),
    job("HMessageChange", 600, ["changed", "refused"], steps=3),
], bounds=["every stream, function, wait bit and session id of 64 bits; names of up to 2 characters below 128 (thorough: 3) and one of 6 others; directions of up to 5 characters; system bytes of 0 to 6 bytes", "every sequence of 2 changes (thorough: 3), each applied to any message made before"],
   outside=["changes made through slices that accessors return (SystemBytes, Values)", "longer names"], note="")

prop("C37", [
    job("HGet", 60, ["found", "not-found", "text"], depth=2, n=2, len=4),
    job("HGetValue", 100, ["value", "no-value"], depth=1, n=2, len=3),
], [
    job("HGet", 600, ["found", "not-found", "text"], depth=3, n=2, len=5),
    job("HGetValue", 600, ["value", "no-value"], depth=2, n=2, len=4),
], bounds=["item trees of lists of up to 2 elements nested 2 deep (thorough: 3), one element of each list of any kind, and paths of up to 4 positions (5) of any value; typed accessors: nested 1 deep (2), up to 3 positions (4)"],
   outside=["larger trees", "a last position outside the item: the typed accessors may panic (documented for GetInt), but must not return a value"], note="Element values and positions beyond the list are symbolic.")

prop("C39", [
    job("HIdle", 60, ["idle", "silent"], _native="prefer", losses=0),
    job("HIdle", 60, ["idle", "silent"], _native="prefer", losses=2),
    job("HIdle", 60, ["idle", "silent"], o={"sched": True, "preempt": 0, "switches": 3}, _native="prefer", losses=1),
], [
    job("HIdle", 300, ["idle", "silent"], _native="prefer", losses=4),
    job("HIdle", 300, ["idle", "silent"], o={"sched": True, "preempt": 1, "switches": 0}, _native="prefer", losses=0),
    job("HIdle", 300, ["idle", "silent"], o={"sched": True, "preempt": 0, "switches": 4}, _native="prefer", losses=2),
], bounds=["active and passive, every sequence of 2 losses (thorough: 4) each at rest, during a linktest or right after one; 7 intervals of idling; silence before a message and after each of its first 15 bytes", "1 loss with 3 free choices of the next goroutine (thorough: 2 losses, 4 choices; one preemption)"],
   outside=HSMS_OUT + ["an interval of linktests longer than T8: the code counts the time between messages against T8"], note=HSMS_NOTE)

prop("C38", [
    job("HTrace", 60, ["answered", "sent", "requested", "control"], steps=1, n=1, fail=0, modes=4),
    job("HTrace", 60, ["answered", "sent", "requested", "control"], steps=2, n=0, fail=1, modes=1),
    job("HTrace", 60, ["answered", "sent", "requested", "control"], steps=1, n=20, fail=0, modes=3),
    job("HTraceOptions", 60, ["on", "off"]),
    job("HTraceTogether", 60, ["together"], o={"sched": True, "preempt": 0, "switches": 3}, _native="prefer"),
    job("HTraceTogether", 100, ["together"], o={"sched": True, "preempt": 1, "switches": 0}, _native="prefer"),
], [
    job("HTrace", 900, ["answered", "sent", "requested", "control"], steps=2, n=1, fail=0, modes=4),
    job("HTrace", 900, ["answered", "sent", "requested", "control"], steps=3, n=0, fail=1, modes=1),
    job("HTrace", 600, ["answered", "sent", "requested", "control"], steps=2, n=40, fail=1, modes=3),
    job("HTraceTogether", 600, ["together"], o={"sched": True, "preempt": 0, "switches": 5}, _native="prefer"),
], bounds=["every mode, inclusion and exclusion of control messages with 1 exchange (thorough: 2), and sequences of 2 exchanges with a failing writer (thorough: 3); exchanges: a primary answered or not, one without a handler, a message and a request of the application, a linktest, switching logging off and on", "symbolic wait bit, one byte of the system bytes, one byte of a body of 0, 1 and 20 bytes (thorough: 40)", "two concurrent sends and a received linktest with 3 free choices of the next goroutine (thorough: 5) or one preemption"],
   outside=["log files and their rotation (lumberjack)", "the form of the timestamp", "separate.req and messages logged although the link failed while they were sent"], note=HSMS_NOTE + " The text of an entry is checked to read back with the SML parser as the bytes on the wire, not against a second printer.")

prop("C40", [
    job("HSmlLayout", 100, ["gap", "lower"], spaces=2, comment=1),
    job("HSmlSize", 60, ["within", "outside"], n=2, digits=2, spaces=0),
    job("HSmlSize", 60, ["within", "outside"], n=1, digits=1, spaces=1),
    job("HSmlSeveral", 60, ["several", "refused"], messages=2, n=1),
], [
    job("HSmlLayout", 900, ["gap", "lower"], spaces=3, comment=2),
    job("HSmlSize", 300, ["within", "outside"], n=11, digits=2, spaces=0),
    job("HSmlSize", 300, ["within", "outside"], n=2, digits=2, spaces=2),
    job("HSmlSeveral", 900, ["several", "refused"], messages=2, n=2),
    job("HSmlSeveral", 900, ["several", "refused"], messages=3, n=1),
], bounds=["a text of two messages of 26 tokens; in any one gap white space of up to 2 characters (thorough: 3) or comments of any 1 byte (2), any one keyword in any case", "sizes of up to 2 digits in all four forms, with white space inside, on lists, text, binary, boolean and numbers of up to 2 elements (thorough: 11)", "2 messages (thorough: 3) each holding any text of up to 1 character (2), in four contexts"],
   outside=["unusual layout in several gaps at once", "longer comments"], note="regexp is modelled by a matcher over symbolic bytes for the patterns the lexer uses.")

prop("C41", [
    job("HServer", 60, ["connected", "temporary", "broken", "stopped"], steps=4, queue=0),
    job("HServer", 60, ["connected", "temporary", "broken", "stopped"], steps=3, queue=1),
    job("HServer", 60, ["connected", "temporary", "broken", "stopped"], o={"sched": True, "preempt": 1, "switches": 0}, _native="prefer", steps=2, queue=0),
    job("HServerStop", 60, ["stopped", "accepted"], o={"sched": True, "preempt": 2, "switches": 0}, _native="prefer"),
    job("HServerStop", 60, ["stopped"], o={"sched": True, "preempt": 0, "switches": 4}, _native="prefer"),
    job("HAccept", 30, ["accepted"], n=12),
    job("HDial", 30, ["dialled", "refused"]),
], [
    job("HServer", 900, ["connected", "temporary", "broken", "stopped"], steps=5, queue=0),
    job("HServer", 600, ["connected", "temporary", "broken", "stopped"], o={"sched": True, "preempt": 2, "switches": 0}, _native="prefer", steps=2, queue=0),
    job("HServer", 600, ["connected", "temporary", "broken", "stopped"], o={"sched": True, "preempt": 0, "switches": 3}, _native="prefer", steps=3, queue=1),
    job("HServerStop", 600, ["stopped", "accepted"], o={"sched": True, "preempt": 3, "switches": 0}, _native="prefer"),
    job("HAccept", 60, ["accepted"], n=30),
], bounds=["every sequence of 4 steps (thorough: 5): a connection with a good, failing or slow codec, up to 3 accept errors each temporary or not, a close, a stop", "2 steps with one preemption (thorough: two), stop racing with an accept with two preemptions (thorough: three)", "up to 12 temporary errors in a row (thorough: 30)"],
   outside=["codecs that never return", "SetSession identifiers given by the application"], note="The listener and connections are stand-ins with scripted results; Dial uses the modelled TCP of the engine.")

prop("C42", [
    job("HRegister", 60, ["served", "repeated", "replaced", "no-identifier"], n=2, ids=7),
    job("HRegister", 60, ["served", "repeated", "replaced", "no-identifier"], n=3, ids=2),
    job("HRoles", 60, ["other-role", "not-communicating", "unknown"]),
    job("HWaiters", 60, ["told", "again"], n=2, early=0),
    job("HWaiters", 60, ["told", "again"], n=2, early=1),
    job("HWaiters", 60, ["told"], o={"sched": True, "preempt": 0, "switches": 3}, _native="prefer", n=1, early=1),
    job("HWaiters", 120, ["told"], o={"sched": True, "preempt": 1, "switches": 0}, _native="prefer", n=1, early=1),
], [
    job("HRegister", 900, ["served", "repeated", "replaced", "no-identifier"], n=3, ids=7),
    job("HRegister", 600, ["served", "repeated", "replaced", "no-identifier"], n=4, ids=2),
    job("HWaiters", 300, ["told", "again"], n=4, early=0),
    job("HWaiters", 900, ["told"], o={"sched": True, "preempt": 1, "switches": 2}, _native="prefer", n=1, early=1),
    job("HWaiters", 900, ["told"], o={"sched": True, "preempt": 0, "switches": 5}, _native="prefer", n=2, early=1),
], bounds=["2 registrations (thorough: 3) in each of five registries, each under a number of any of five Go types and any value (int up to 2^40), two characters of text or no identifier; 3 (4) with int and text", "every operation of each role, before and after communication is established", "2 waiters (thorough: 4) with no limit, one or four seconds, communication lost and established again; one waiter with one preemption or 3 free choices of the next goroutine (thorough: one preemption with 2 free choices; two waiters with 5)"],
   outside=["longer texts as identifiers", "alarms registered twice (the later replaces the earlier)"], note=GEM_NOTE)

RACE = {"sched": True, "race": True, "fix_rand": True, "freeze": 1}
def races(h, t, cover, sw=0, pre=0, **p): return job(h, t, cover, o=dict(RACE, switches=sw, preempt=pre, freeze_any=not h.endswith("Races")), _native="prefer", **p)
PAIRS = [(0, 0), (0, 1), (1, 1), (0, 2), (1, 2), (2, 2)]
prop("C43", [races("HRaces", 60, ["done"], 0, a=a, b=b, early=0) for a, b in PAIRS] +
    [job("HRaces", 60, ["done"], o=dict(RACE, switches=1, preempt=0, freeze=0), _native="prefer", a=a, b=b, early=0) for a, b in PAIRS] +
    [job("HRaces", 60, ["done"], o=dict(RACE, freeze=int((a, b) not in [(0, 0), (0, 1)])), _native="prefer", a=a, b=b, early=1) for a, b in PAIRS] +
    [races("HHostRaces", 60, ["done"], 1, a=a, b=b) for a, b in PAIRS] + [
    races("HLinkRaces", 60, ["done"], 2, session=0),
    races("HLinkRaces", 60, ["done"], 2, session=7),
    races("HSessionRace", 30, ["closed"], 2, 1, queue=1, closers=2),
    races("HManagerRace", 30, ["disposed"], 2, 1),
    races("HChannelRace", 30, ["done"], 2, 1),
    races("HServerStop", 30, ["stopped"], 2, 1),
    races("HServer", 30, ["stopped"], 0, 0, steps=3, queue=1),
    races("HDeque", 30, ["done"], 3, 1, putters=2, getters=2, per=1, timeout=5, race=0),
    races("HTraceTogether", 30, ["together"], 1),
    races("HModelRace", 30, ["raced"], 2, 1),
], [job("HRaces", 900, ["done"], o=dict(RACE, switches=0, preempt=0, freeze=2), _native="prefer", a=a, b=b, early=0) for a, b in PAIRS] +
    [races("HRaces", 900, ["done"], 2, a=a, b=b, early=e) for a, b in PAIRS for e in (0, 1)] +
    [races("HRaces", 900, ["done"], 0, 1, a=a, b=b, early=0) for a, b in [(0, 2), (1, 2), (2, 2)]] +
    [races("HHostRaces", 600, ["done"], 3, a=a, b=b) for a, b in PAIRS] +
    [races("HHostRaces", 600, ["done"], 0, 1, a=a, b=b) for a, b in [(0, 1), (1, 1), (0, 2), (1, 2)]] + [
    races("HLinkRaces", 600, ["done"], 4, session=0),
    races("HLinkRaces", 600, ["done"], 0, 1, session=7),
    races("HSessionRace", 300, ["closed"], 3, 2, queue=1, closers=2),
    races("HManagerRace", 300, ["disposed"], 2, 2),
    races("HChannelRace", 300, ["done"], 3, 3),
    races("HServerStop", 300, ["stopped"], 2, 2),
    races("HServer", 300, ["stopped"], 0, 0, steps=4, queue=1),
    races("HDeque", 300, ["done"], 3, 2, putters=2, getters=3, per=1, timeout=5, race=0),
    races("HTraceTogether", 300, ["together"], 3),
    races("HModelRace", 300, ["raced"], 2, 2),
], bounds=["every pair of: 39 calls of an equipment's application, 24 messages of a host, 9 things that become of the link (dropped, replaced, deselected, separated, disabled, enabled, restarted ...), at once, on an endpoint that communicates and on one that is just establishing communication", "every pair of: 23 calls of a host's application, 7 messages of equipment, the same things of the link", "every pair of a call and a call or event on a bare HSMS endpoint, active or passive, selected or not yet", "sessions, managers, channels, server, queues, traces and the control model under the harnesses of their own properties", "each pair in the schedules of one free choice of the next goroutine (link: 2; thorough: 3, or one preemption), and with one goroutine (thorough: two) stopped, after it touched without a lock a field or map that changes, until nothing else can run; conflicting accesses are found by happens-before, whichever order the schedule runs them in", "random numbers fixed to 1000 (the first system bytes)"],
   outside=["three or more things at once", "SetLogger, the setters of SecsTimeout and the exported callback fields, which are set-up before Enable", "accesses the standard library makes to its own memory"],
   note="Data races: a vector-clock happens-before analysis inside the symbolic executor over every load, store and map access of the library (engine/race.go), with the synchronisation edges of the Go memory model. A counterexample is run again under Go's race detector; a race that the detector does not see in one native run is still reported, since the executor's verdict is by happens-before.")

na("C34", "the JSON codec is a thin wrapper over encoding/json and reflect; encoding/json's reflection-driven encoder and decoder cannot be executed symbolically within reach, and stubbing them would leave nothing of the property to decide")

prop("C44", [
    job("HEventInside", 30, ["inside"], callbacks=3),
    job("HReentry", 60, ["came-back", "alive"]),
    job("HHostReentry", 60, ["came-back", "alive"]),
    job("HSessionReentry", 30, ["came-back"], queue=0),
    job("HSessionReentry", 30, ["came-back"], queue=2),
], [
    job("HEventInside", 100, ["inside"], callbacks=5),
    job("HReentry", 900, ["came-back", "alive"], o={"sched": True, "preempt": 1, "switches": 0}, _native="prefer"),
    job("HHostReentry", 900, ["came-back", "alive"], o={"sched": True, "preempt": 1, "switches": 1}, _native="prefer"),
    job("HSessionReentry", 300, ["came-back"], queue=2, o={"sched": True, "preempt": 2, "switches": 2}, _native="prefer"),
], bounds=["one call of 40 kinds from within each of 14 places at equipment and 8 calls in 6 places at a host", "an event with 3 callbacks (thorough: 5), one of which adds, removes, counts or fires", "11 operations within a close callback", "thorough: also with one preemption at every synchronisation operation"],
   outside=["calls that wait for a reply of the peer (the reply is read by the goroutine that waits)", "a provider that asks for its own value, a Dispose within a close callback of the same manager, and changes of a channel within its own Fetch: these wait for themselves", "two calls within one callback"],
   note="AlarmAckReceived is never fired, as alarms ask for no acknowledge.")
