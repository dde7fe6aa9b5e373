#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one property per line, schema /root/.vp/PROPERTIES.schema.json)."""
import json, os
P = []
AST = "lib-secs2-hsms-go/pkg/ast/"
PH = "lib-secs2-hsms-go/pkg/parser/hsms/parser.go"
SML = "lib-secs2-hsms-go/pkg/parser/sml/"
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=m[0], where=m[1]) for m in mech],
                     observe_at=observe, hook_needed=None,
                     state=[dict(name=s[0], meaning=s[1], where=s[2]) for s in (state or [])])))

ITEMF = [AST+x for x in ("ascii.go","binary.go","boolean.go","float.go","int.go","uint.go","list.go","interface.go")]

p("C01", "SECS-II items survive an encode/decode round trip",
  "Any SECS-II item the library lets a user build (list, ASCII, binary, boolean, I1-I8, U1-U8, F4, F8, nested, empty or longer than 255 bytes) and send in a data message is decoded by the library's HSMS parser into a message of the same stream, function, wait bit, session id, system bytes and an item of the same type, element count, order and exact values. Encoding the decoded message again yields the same bytes.",
  ["inputs"], "every item type, every element value, element counts including 0 and the 255/256 and 65535/65536 length-byte boundaries, every nesting shape up to the bound, every header field value",
  "The tests compare a few dozen hand-written byte strings, all shorter than 256 bytes and with hand-picked values; no test quantifies over values, lengths or nesting.",
  ITEMF+[AST+"ast.go", PH], [("DataMessage.ToBytes / ItemNode.ToBytes", AST), ("hsms.Parse", PH)],
  ["bytes returned by DataMessage.ToBytes", "message returned by hsms.Parse"])

p("C02", "Data messages are encoded exactly as SEMI E5/E37 prescribe",
  "A complete data message encodes to a 4-byte big-endian length that counts the bytes after it, a 10-byte header (session id, W-bit and stream, function, PType 0, SType 0, system bytes) and the item encoding, in which each item has its format code with the minimal number (1 to 3) of big-endian length bytes and big-endian two's-complement or IEEE-754 values. An incomplete message (unset session id, undetermined wait bit or unfilled variable) encodes to nothing.",
  ["inputs"], "every stream, function, wait bit, session id, system bytes, item type and value up to the bound, compared with an independently written encoder",
  "The tests pin a handful of byte strings; an error that needs a particular value, length or header combination (sign extension, wrong length byte count, W-bit clobbering the stream) is not sampled.",
  ITEMF+[AST+"ast.go"], [("getHeaderBytes", AST+"interface.go"), ("DataMessage.ToBytes", AST+"ast.go")], ["bytes returned by ToBytes"])

p("C03", "HSMS control messages are built, encoded and decoded faithfully",
  "Every control message the library can build encodes to the 14 bytes E37 prescribes: length 10, session id, header bytes 2 and 3, PType 0, SType and system bytes. Responses and rejects built from a request carry that request's session id and system bytes together with the given status or reason, and decoding the bytes of any control message gives back a message with the same type, session id, system bytes and bytes.",
  ["inputs"], "every session id, status or reason byte and system bytes, every control type, every 14-byte control header",
  "Tests use one header per type; field mix-ups only visible for particular byte values, and the reject builder that is never called by a test, are not sampled.",
  [AST+"hsms.go", PH], [("NewHSMSMessage*Req/Rsp, NewHSMSControlMessage", AST+"hsms.go"), ("Parse control branch", PH)], ["ControlMessage.ToBytes/Type/SessionID/SystemBytes", "hsms.Parse"])

p("C04", "Decoding untrusted bytes is total and accepts only what the bytes say",
  "For every byte string the HSMS decoder returns without panicking or hanging; it accepts a string only if the length field, header and item structure account for every byte of it exactly. An accepted data message has the header fields and item values that the bytes spell out under E5, and strings whose declared lengths run past the end or leave bytes over, whose format code is unknown, or whose numeric length is not a multiple of the element size are refused.",
  ["inputs"], "every byte string up to the bounded length, compared with an independently written reference decoder",
  "Tests feed a few dozen valid and invalid strings; truncation, overlong and surplus-byte cases depend on byte values no test samples.",
  [PH]+ITEMF, [("hsms.Parse", PH)], ["(message, ok) returned by hsms.Parse"])

p("C05", "Framing reassembles messages whatever the transport's chunking",
  "However the byte stream between peers is cut into reads, the SECS-II framing codec delivers exactly the frames that were sent, in order, complete with their length prefix; a stream that ends in the middle of a frame yields an error and not a frame. Sending writes exactly the given bytes, once.",
  ["inputs", "fault_sequences"], "every frame content and size up to the bound, every segmentation of the stream into reads, every truncation point",
  "Tests use one loopback write per frame; split reads and truncations are chosen by the network and never sampled deliberately.",
  ["codec/secs2.go", "session.go"], [("secsIICodec.Receive/Send", "codec/secs2.go")], ["messages returned by codec Receive", "bytes written to the transport"])

p("C06", "Length-prefixed codec enforces its limits and keeps frames intact",
  "The fixed-length-head codec, for each head width (1, 2, 4, 8), byte order and limits, delivers what was sent unchanged and in order under any segmentation. It refuses with an error, and without writing or delivering anything, a message to send longer than the send limit and an announced length greater than the receive limit, and no announced length can crash it.",
  ["inputs", "configurations", "fault_sequences"], "every head width and byte order, limits and message lengths up to the bound, every announced length value",
  "The one test sends random short messages with generous limits over one configuration.",
  ["codec/fixlen.go"], [("fixlenCodec.Send/Receive", "codec/fixlen.go")], ["error and value returned by Send/Receive", "bytes written"])

p("C07", "Item constructors represent a value exactly or refuse it",
  "Constructing an integer, binary, boolean or ASCII item succeeds if and only if every given value is representable in the item's declared format, and then reading the item back yields exactly those values in order. A value outside the format's range (negative or too large for U*, outside the signed range for I*, outside 0..255 for binary, a malformed 0b literal, non-ASCII text) is refused by a panic and never silently altered. F4 and F8 items accept exactly the finite values within the format's range, rounded to its precision; NaN, infinities and overflowing values are refused.",
  ["inputs"], "every value of every accepted Go argument type, for each item format",
  "Tests check a few values around some limits for some argument types only.",
  [AST+x for x in ("int.go","uint.go","float.go","binary.go","boolean.go","ascii.go","list.go")], [("New*Node and checkRep", AST)], ["panic or success of the constructor", "Values()/Get of the item"])

p("C08", "Filling variables equals building the item directly",
  "Replacing the variables of an item or message with values yields exactly what constructing it with those values in place would have yielded: same values, size, remaining variables in order, and encoding. The original is never changed, names that do not occur are ignored, and an item or message with a variable left unfilled encodes to nothing.",
  ["inputs"], "every position pattern of variables and values up to the bound, every assigned value, subsets of the variables, nested lists and ellipsis expansion",
  "Tests pin selected templates with selected values; aliasing with the original and partial fills are covered for few shapes.",
  ITEMF+[AST+"ast.go"], [("FillVariables", AST)], ["Variables(), Size(), ToBytes() of original and filled item"])

p("C09", "SML text is parsed totally and printing then parsing is the identity",
  "For every input text the SML parser returns messages, errors and warnings without panicking or hanging, and it reports an error for a literal the item's format cannot hold. Printing a message whose name and variables are not SML syntax themselves and parsing that text yields, without errors, one message of equal name, stream, function, wait bit, direction and items.",
  ["inputs"], "every text up to the bounded length; every message with items of each type up to the bound, including every ASCII text",
  "Tests parse a fixed set of texts; escape-sensitive characters (quotes, control characters) inside ASCII items and odd token boundaries are not sampled.",
  [SML+"parser.go", SML+"lexer.go"]+ITEMF, [("sml.Parse", SML+"parser.go"), ("String", AST)], ["results of sml.Parse", "String()"])

HP = "hsms/protocol.go"
p("C10", "Application data flows only on a selected HSMS session",
  "Data messages reach application handlers, and are answered by them, only between an accepted select and the deselect, separate or disconnect that ends it; a data message outside the selected state is answered with a reject (reason 4) and never delivered, and the application can send none. A passive endpoint answers a select request for its session (or the 0xFFFF wildcard) with a select response of status 0 and refuses any other session id with a reject or non-zero status, without becoming selected. An active endpoint is selected only by a select response of status 0 that answers its own request, and a passive endpoint closes a connection that is not selected within T7.",
  ["inputs", "histories"], "every sequence of control and data messages up to the bounded length from a connecting peer, every session id and system bytes",
  "Tests drive the happy path over loopback; refused selects, data before select or after deselect/separate are not exercised.",
  [HP, "hsms/connectionStateMachine.go"], [("handleHsmsRequests / receiver", HP), ("connection state machine", "hsms/connectionStateMachine.go")], ["bytes sent to the peer", "handler invocations"])

p("C11", "Every HSMS control request gets its matching response",
  "While the connection is up, each select, deselect and linktest request from the peer is answered by exactly one response of the matching type that carries the request's session id (0xFFFF for linktest) and system bytes. A response that answers no open request and a reject message change nothing: they are not answered by a response, do not change the selection, and do not break the connection.",
  ["inputs", "histories"], "every system bytes and session id, every order of control messages up to the bound",
  "Loopback tests never send unexpected or repeated control messages.",
  [HP, AST+"hsms.go"], [("handleHsmsRequests", HP)], ["bytes sent to the peer"])

p("C12", "A request gets its own reply and no other",
  "A synchronous request returns the message that carries its own system bytes, whatever other messages (replies to other or unknown requests, primaries) arrive before it and in whatever order concurrent replies come; without such a reply it returns an error after the reply timeout and nothing else. Concurrently outstanding requests carry distinct system bytes and messages go out with the endpoint's session id.",
  ["inputs", "schedules", "histories"], "every system bytes and order of interleaved incoming messages up to the bound, two concurrent requests, every starting counter value",
  "Loopback tests have one outstanding request and well-behaved peers.",
  [HP, "utils/queue.go"], [("SendAndWait, system queues", HP)], ["message or error returned by SendAndWait", "bytes sent"])

p("C13", "Each primary message is handled once and answered once, in kind",
  "Each data message from the peer that has a registered handler is handed to that handler exactly once, unaltered and in arrival order. If it asks for a reply, exactly one reply goes back, with the endpoint's session id and the primary's system bytes, the same stream, function plus one and the wait bit clear, and no reply goes back if the primary's wait bit is clear.",
  ["inputs", "histories"], "every stream, function, wait bit, system bytes and item up to the bound; sequences of primaries up to the bound",
  "Tests send single well-formed requests with the wait bit set.",
  [HP, "gem/handler.go"], [("invokeHandler / SendResponse", HP)], ["handler invocations", "bytes sent"])

p("C14", "Unanswerable messages are reported with the right S9 error",
  "A primary whose stream is unknown is answered by S9F3 with the stream as its body, one whose function is unknown in a known stream by S9F5 with the function as its body, both with the primary's system bytes, and a request whose reply does not come in time is reported to the peer by S9F9 with the 10 header bytes of that request. A stream 9 message, a stray or late reply, or a function-0 abort is never answered with a stream 9 message, and each stream 9 message received is reported to the application's callback once.",
  ["inputs", "histories"], "every stream, function, wait bit and system bytes of an incoming message",
  "Tests check the builders for fixed arguments and one unknown function.",
  [HP, "hsms/protocol_s9_helpers.go", "hsms/error_messages.go"], [("sendS9 helpers, BuildS9Fx", "hsms/")], ["bytes sent to the peer"])

p("C15", "No message from the peer can crash an endpoint or wedge the link",
  "Whatever well-framed message a peer sends to an equipment or host, in any GEM function the endpoint handles and with any item content, the process does not crash, and a following well-formed request is still answered. A message that is not valid (a reply asking for a reply, a body that is no item, text outside ASCII, a float that is not finite) may at most cost the link, which the peer can then establish again.",
  ["inputs", "histories"], "every handled stream/function with every item shape and value up to the bound",
  "Tests send only well-formed messages with known identifiers.",
  [HP, "gem/handler.go", "gem/collection_event_handlers.go", "gem/status_equipment_handlers.go", "gem/alarm_handlers.go", "gem/process_program_handlers.go", "gem/remote_command.go", "gem/clock_handlers.go", AST+"list.go"],
  [("GEM handlers", "gem/"), ("item constructors' panics", AST)], ["process liveness", "reply to the next request"])

p("C16", "The blocking queue loses nothing and keeps order",
  "Every item put into the queue is returned by exactly one get, in FIFO order, and a get that finds or is waiting for an item returns it and not a timeout. A get on a queue that stays empty returns an error once its timeout has passed.",
  ["schedules", "histories"], "every interleaving of concurrent puts and gets up to the bound",
  "The failure needs a put between the queue check and the wait of a concurrent get; tests see it only as rare flakiness.",
  ["utils/queue.go"], [("Deque.Get/Put", "utils/queue.go")], ["values and errors returned by Get"])

p("C17", "The control state follows the E30 control model",
  "From every configured start (equipment-offline, attempt-online, host-offline or online with local or remote; attempt-online and remote if not configured), and through every sequence of operator and host actions, one after the other or at once, the control state is the one the E30 control-state diagram prescribes. An action not allowed in the current state returns an error and changes nothing, one whose target state already holds changes nothing either, and the local/remote choice survives going offline and online. An endpoint that is not communicating is not online, and every change of its control state is reported through the ControlStateChanged event.",
  ["histories", "configurations"], "every configuration and every sequence of actions up to the bound",
  "Tests walk three sequences.",
  ["gem/control_state_machine.go"], [("ControlStateMachine", "gem/control_state_machine.go")], ["State() and errors of the actions"])

p("C18", "Offline and online requests are acknowledged as the state allows",
  "Equipment that communicates answers S1F15 with acknowledge 0, and is host-offline afterwards if it was online, else unchanged. It answers S1F17 with 0 exactly when it was host-offline and has then gone online (local or remote as chosen last), 2 when already online, and 1 otherwise with the state unchanged; an attempt to go online succeeds exactly when the host answers S1F1 with S1F2, and ends host-offline otherwise.",
  ["histories", "configurations", "inputs"], "every control state and every sequence of S1F15/S1F17 and operator actions up to the bound",
  "Tests cover one accepting transition for each message.",
  ["gem/handler.go", "gem/control_state_machine.go"], [("onS1F15/onS1F17", "gem/handler.go")], ["S1F16/S1F18 sent", "control state"])

p("C19", "Communication is established exactly by an accepted S1F13/S1F14",
  "An endpoint reports communicating only after it answered an S1F13 from the peer with acknowledge 0 or received an S1F14 with acknowledge 0 to its own, then keeps doing so whatever becomes of other attempts, and no longer once the link is lost or it is disabled, until communication is established anew. Calls that need communication fail with an error and send nothing while not communicating, and S1F14 carries acknowledge 0 with the equipment's model and revision (from equipment) or an empty list (from host).",
  ["inputs", "histories"], "every COMMACK value and S1F14 body shape, every order of establishing messages up to the bound",
  "Tests establish successfully once.",
  ["gem/communication_state.go", "gem/handler.go"], [("stateMachine, onS1F13/onS1F14", "gem/")], ["CommunicationState/WaitForCommunicating", "bytes sent"])

p("C20", "Status queries answer every requested variable, in order",
  "S1F3 is answered with the current value of each requested status variable in the order asked (all of them when the list is empty), and S1F11 with each one's id, name and unit. An identifier that does not exist gets an empty item in its place and never suppresses or shifts the rest of the answer.",
  ["inputs", "histories"], "every request list up to the bound over known and unknown ids of both id types, every registered set up to the bound, every current value",
  "Tests ask for known ids, one at a time.",
  ["gem/status_equipment_handlers.go", "gem/status_equipment_messages.go", "gem/status_variables.go"], [("onS1F3, onS1F11", "gem/status_equipment_handlers.go")], ["S1F4/S1F12 sent"])

p("C21", "Equipment constants are read and changed all-or-nothing",
  "S2F13 and S2F29 report the value and the attributes of each requested constant in order, with empty items for an unknown one. S2F15 is acknowledged with 0 only if it is well formed, every constant exists and every value passes that constant's validation, and then all of them have the new values; with any other acknowledge no constant has changed.",
  ["inputs", "histories"], "every request up to the bound over known and unknown constants, every value and limit",
  "Tests set one known constant to one valid and one invalid value.",
  ["gem/equipment_constants.go", "gem/status_equipment_handlers.go"], [("onS2F13/15/29", "gem/status_equipment_handlers.go")], ["S2F14/16/30 sent", "constant values"])

CE = "gem/collection_event_handlers.go"
p("C22", "Report definition is atomic and follows S2F33 exactly",
  "S2F33 with only known variables and unused report ids defines exactly those reports and is acknowledged 0; an empty report list deletes all reports and links, and an empty variable list deletes that report and its links. A message that defines a report id already defined (before or by the same message), names an unknown variable or is malformed is refused with its DRACK code (3, 4 or 2) and changes nothing.",
  ["inputs", "histories"], "every pair of S2F33 messages up to the bound over known/unknown variables and used/unused report ids",
  "Tests define one report.",
  [CE, "gem/collection_events.go"], [("onS2F33", CE)], ["S2F34 sent", "reports seen through S6F15/S6F19 or S6F11"])

p("C23", "Event-report linking is atomic and follows S2F35 exactly",
  "S2F35 naming only known events and defined reports not yet linked to that event links exactly those reports, after the ones already linked and in order, and is acknowledged 0; an empty report list unlinks the event. A message with an unknown event, an undefined report, a report already linked to that event (before or by the same message) or a malformed body is refused with its LRACK code (4, 5, 3 or 2) and changes no link.",
  ["inputs", "histories"], "every pair of S2F35 messages up to the bound over known/unknown events and reports",
  "Tests link one report to one event.",
  [CE, "gem/collection_events.go"], [("onS2F35", CE)], ["S2F36 sent", "S6F16 answered"])

p("C24", "Only enabled events are reported, and S2F37 switches them atomically",
  "An event report goes out for a triggered event exactly when that event has linked reports and is enabled; the first link enables it. S2F37 enables or disables exactly the events it names (all linked events when it names none) and is acknowledged 0, or, if it names an event without linked reports or is malformed, is refused with a non-zero code and changes none.",
  ["inputs", "histories"], "every sequence of S2F37 messages and triggers up to the bound over known and unknown events",
  "Tests enable one event.",
  [CE, "gem/collection_events.go"], [("onS2F37, TriggerCollectionEvent", CE)], ["S2F38 and S6F11 sent"])

p("C25", "Event reports carry the linked reports with current values in order",
  "S6F11 for a triggered event, and S6F16 for an S6F15 request for an enabled linked event, name the event and contain each linked report in link order, each with the current values of its variables in definition order. An unavailable value appears as an empty item and never suppresses, shifts or drops the rest; S6F16 for any other event has an empty report list.",
  ["inputs", "histories"], "every definition/link history up to the bound, every variable value, known and unknown events",
  "Tests check one report with one variable.",
  [CE, "gem/collection_events.go", "gem/data_variables.go"], [("buildReport / buildS6F11", CE)], ["S6F11 and S6F16 sent"])

p("C26", "Remote commands arrive intact and their acknowledge comes back",
  "A remote command sent by the host reaches the equipment's handler with the same name and the same parameters, and the handler's acknowledge code (HCACK 0 to 6) and parameter acknowledges (CPACK 1 to 63) come back to the host caller unchanged. Without a handler, or with a malformed command or parameter, the equipment answers with a non-zero acknowledge and runs nothing.",
  ["inputs"], "every command name, parameter list and value type up to the bound, every acknowledge code",
  "Tests send one command with one parameter.",
  ["gem/remote_command.go"], [("buildS2F41/onS2F41/parseS2F42", "gem/remote_command.go")], ["handler arguments", "RemoteCommandResult", "bytes sent"])

p("C27", "Alarms are reported and listed according to their set and enabled state",
  "S5F1 goes out for a raised or cleared alarm exactly when it is enabled, with ALCD non-zero exactly when set, the id and the text; S5F5 lists all and S5F7 all enabled alarms, ordered by id, with bit 7 of ALCD for set and bit 6 for enabled. S5F3 enables (ALED 128) or disables (ALED 0) exactly the named alarms and is acknowledged 0, or, if one is unknown or the message malformed, is answered with a non-zero acknowledge and changes nothing. A host hands its application exactly the id, text and set state of each S5F1.",
  ["inputs", "histories"], "every sequence of raise/clear, enable/disable and list operations up to the bound over known and unknown alarm ids",
  "Tests exercise only S5F1 for one alarm; the list and enable messages are never sent by a test.",
  ["gem/alarm.go", "gem/alarm_handlers.go", "gem/alarm_client.go"], [("RaiseAlarm, onS5F3/5/7", "gem/")], ["S5F1/S5F4/S5F6/S5F8 sent", "host callbacks"])

p("C28", "Process programs are transferred intact",
  "A process program uploaded with S7F3, its body ASCII or binary, reaches the equipment's upload handler, or without one its store, with identical id and body, and the handler's acknowledge goes back in S7F4 to the host caller. S7F5 returns in S7F6 exactly the id and body the request handler supplies, or without one the stored program, and the host caller gets just that. A malformed message or an unknown program is answered with a non-zero acknowledge or an empty item, never with silence, and changes nothing.",
  ["inputs"], "every id and body type and value up to the bound, every acknowledge value",
  "Tests upload one ASCII program.",
  ["gem/process_programs.go", "gem/process_program_handlers.go"], [("onS7F3/onS7F5", "gem/process_program_handlers.go")], ["handler arguments", "S7F4/S7F6 sent"])

p("C29", "Equipment time is formatted and accepted exactly as sent",
  "S2F17 is answered with the provider's time (years 0 to 9999) as 16 digits YYYYMMDDhhmmss00, and S2F31 hands the application the time the first 14 digits of its text denote and returns the handler's acknowledge. Text that is no valid time, a missing handler or a handler error gets a non-zero acknowledge and the handler is not called for text that is no valid time.",
  ["inputs"], "every time-of-day and date text up to the bound, every acknowledge value",
  "The time functions have no unit test.",
  ["gem/clock.go", "gem/clock_handlers.go"], [("GetFormattedTime, ParseSEMITime, onS2F31", "gem/")], ["S2F18/S2F32 sent", "handler argument"])

p("C30", "Host requests return exactly what the equipment reported",
  "Each host-side request call (status values and names, equipment constants and attributes, constant changes, report definition, linking, enabling, alarms) sends the identifiers and values it was given in order, and returns exactly what the peer's reply contains (acknowledge codes, and identifiers, names, values and flags in order; a name or unit that is no text as empty), or an error if an identifier is invalid or the reply is malformed, aborted or missing. No reply can make it panic. The host's application is told of each S6F11 exactly the event, reports and values it carries.",
  ["inputs"], "every identifier list and every reply body shape and value up to the bound",
  "Tests use one well-formed reply per call.",
  ["gem/status_equipment_client.go", "gem/alarm_client.go", CE], [("Request* client calls", "gem/status_equipment_client.go")], ["bytes sent", "values and errors returned"])

p("C31", "Sessions close once, and managers and channels track exactly the open ones",
  "Closing a session runs each registered and not removed close callback exactly once, in order, however often and concurrently it is closed. A manager or channel contains exactly the sessions that were put or created and are still open, and looking up, iterating or broadcasting reaches exactly those; after disposal or closing it contains none.",
  ["histories", "schedules"], "every sequence of add, remove, close, get and range operations up to the bound, close racing with registration",
  "Tests check one callback order and a few lookups under the default schedule.",
  ["session.go", "manager.go", "channel.go"], [("Session.Close, Manager, Channel", "session.go")], ["callbacks run", "Get/Len/Fetch results"])

p("C32", "Events reach exactly the registered callbacks",
  "Firing an event calls every callback that was added and not removed, once each, in the order added, with the given data. A removed callback is not called again.",
  ["histories"], "every sequence of add, remove and fire operations up to the bound",
  "No test removes a callback.",
  ["common/events.go"], [("Event", "common/events.go")], ["callbacks invoked"])

p("C33", "Reconnection delays grow to the limit and never beyond",
  "For every valid reconnection configuration, the delay before each attempt is never negative, never above the configured maximum, at least the initial delay (or the maximum if smaller) and non-decreasing in the attempt number, doubling from attempt to attempt until it reaches the maximum, however many attempts have failed.",
  ["inputs", "configurations"], "every initial and maximum delay in seconds, attempt numbers from the first to 2^31",
  "Tests compute a few attempts of the default configuration; overflow for large attempt numbers is not sampled.",
  ["hsms/reconnection.go", "hsms/SecsTimeout.go", "hsms/protocol.go"], [("calculateBackoffDelay", "hsms/reconnection.go")], ["delay between connection attempts"])

p("C35", "An enabled endpoint regains its link after every loss",
  "However a connection ends (the peer closes it, sends a separate, or it breaks), an enabled endpoint gets a link again: an active endpoint connects and selects anew, a passive one accepts and lets itself be selected, and requests then work as before. Whatever the application sends while the link is down fails with an error and does not crash the process, and after Disable no connection is made or accepted.",
  ["histories", "schedules", "fault_sequences"], "every sequence of losses of each kind up to the bound, sends and linktests racing with the loss",
  "Tests disconnect once, at a quiet moment; the crash of a linktest timer or send that meets a lost session depends on the schedule.",
  ["hsms/protocol.go", "hsms/reconnection.go", "hsms/connectionStateMachine.go"], [("reconnection and disconnect handling", "hsms/protocol.go")], ["connections made or accepted", "errors of sends", "process liveness"])

p("C36", "Messages are well formed and immutable",
  "A message is built exactly when its stream is 0 to 127, its function 0 to 255, its wait bit false, true or optional (true only with an odd function), its direction one of the three, its name without white space, its session id -1 to 65535 and, for a message ready to be sent, its wait bit decided, its session id given and its item without variables; everything else is refused. Setting the wait bit, session id and system bytes, or variables of a message makes a new message that differs in exactly that and leaves every message made before unchanged, whatever the caller does to the slices and maps it passed in.",
  ["inputs", "histories"], "every header field value, every name and direction text up to the bound, every sequence of changes up to the bound",
  "Tests build a few good messages and a few bad ones and never look at the original after a change.",
  ["lib-secs2-hsms-go/pkg/ast/ast.go"], [("NewDataMessage, NewHSMSDataMessage, Set..., FillVariables", "lib-secs2-hsms-go/pkg/ast/ast.go")], ["accessors of messages", "panics of constructors"])

p("C37", "Elements are found by their path",
  "Following a path of positions through the lists of a message returns exactly the element there, and an error if a position is negative, beyond the list, or leads through something that is no list. The typed accessors return exactly the addressed text, byte, boolean, float or signed integer, and an error if the path leads nowhere or the item there is of another type; they never return another value.",
  ["inputs"], "every item tree up to the bound and every path of any positions",
  "Tests read a few fixed positions of one message.",
  ["lib-secs2-hsms-go/pkg/ast/ast.go", "lib-secs2-hsms-go/pkg/ast/list.go"], [("Get, GetAscii, GetByte, GetBoolean, GetFloat, GetInt", "lib-secs2-hsms-go/pkg/ast/ast.go")], ["returned elements and errors"])

p("C39", "An idle link is kept and a silent peer is given up",
  "While a connection lasts, the endpoint sends a linktest.req once in every configured interval, and only once, however often the link was lost and regained before; a link whose peer answers stays selected and working however long nobody else sends. A peer that has been silent for T8, between messages or in the middle of one, is given up: the connection is closed, the loss is reported, and an enabled endpoint has a working link again afterwards.",
  ["histories", "schedules", "fault_sequences"], "every sequence of losses up to the bound, silence starting at every byte of a message",
  "Tests do not wait for intervals to pass and do not fall silent inside a message.",
  ["hsms/protocol.go", "hsms/connection.go"], [("startLinktestTimer, T8 read deadline", "hsms/protocol.go")], ["linktest requests sent", "connection closed", "OnDisconnected"])

p("C38", "Every message exchanged is traced as configured",
  "With message logging on, every data message an endpoint receives or sends is logged exactly once, by one write, in the order it happened: with its direction, stream, function, session, wait bit and system bytes as they are on the wire, in SML mode with SML text that reads back as the same message, in binary mode with exactly its bytes. Control messages are logged the same way if they are included, except the excluded types, whatever the case and surrounding space these were given in. Nothing is logged when logging is off, it can be switched while messages flow, a writer that fails does not disturb the traffic, and entries of concurrent messages are never mixed.",
  ["inputs", "histories", "configurations", "schedules"], "every mode, inclusion and exclusion, every exchange up to the bound with symbolic contents",
  "The one test logs one message and looks for a substring.",
  ["hsms/protocol.go", "hsms/connection.go", "gem/config.go"], [("logDataMessage, logControlMessage, ConfigureLogging", "hsms/protocol.go"), ("LoggingOptions.toConfig", "gem/config.go")], ["bytes written to the log writer"])

p("C40", "SML is read as documented whatever its layout",
  "White space and line comments with any text (in any encoding) between the tokens of an SML text and the case of its keywords change nothing of the messages read. A size [n], [n..m], [..m] or [n..] is accepted exactly if the number of elements is within it. Messages written one after another are read, in order, as each would be alone, and if one is not acceptable, none is returned and an error is.",
  ["inputs"], "every white space, every comment text up to the bound in every gap, every size, every text inside each of several messages",
  "Tests put a few comments and sizes into fixed texts.",
  ["lib-secs2-hsms-go/pkg/parser/sml/lexer.go", "lib-secs2-hsms-go/pkg/parser/sml/parser.go", "lib-secs2-hsms-go/README.md"], [("lexer states, Parse, checkDataItemSizeError", "lib-secs2-hsms-go/pkg/parser/sml/parser.go")], ["messages and errors returned by sml.Parse"])

p("C41", "A server serves every connection and closes them all when it stops",
  "A server hands each accepted connection to its handler exactly once, as an open session of its own over the codec made from that connection, without being held up by other connections. A connection for which no codec can be made, accepted or dialled, is closed. Temporary accept errors are retried with growing delays and lose no connection; any other error ends serving and is returned. Stopping ends serving and closes every session, including one being accepted at that moment; looking a session up finds exactly the open ones.",
  ["histories", "schedules", "fault_sequences"], "every sequence of connections, codec failures, accept errors, closes and stops up to the bound; stop racing with an accept",
  "Tests use a working listener and stop it at rest.",
  ["server.go", "api.go", "manager.go", "session.go"], [("Server.Serve, Server.Stop", "server.go"), ("Accept, Dial", "api.go")], ["sessions handed to the handler", "connections closed", "result of Serve and Accept"])

p("C42", "What is registered is served, and each role keeps to its own",
  "Whatever is registered under an identifier (a number of any Go integer type, or ASCII text) is listed and served under exactly that identifier, in the order registered; the same number is the same identifier whatever its type, and a second registration under it is refused and changes nothing (a process program is replaced). What is no identifier is refused. Operations of the other role are refused with ErrOperationNotSupported, operations that need communication with ErrNotCommunicating before there is any, unknown alarms with an error; a refused operation sends nothing. Waiting for communication ends with true for everyone waiting as soon as it is established, and with false when the time is up before; each establishment is announced once.",
  ["inputs", "histories", "schedules"], "every identifier value and type in every registry, every combination of role, state and operation, waiters started before and while communication is established",
  "Tests register a few distinct small numbers and never use the wrong role.",
  ["gem/id_utils.go", "gem/status_equipment_handlers.go", "gem/collection_event_handlers.go", "gem/process_programs.go", "gem/alarm.go", "gem/handler.go"], [("newIDInfo, Register functions, WaitForCommunicating", "gem/handler.go")], ["errors returned", "contents of list replies", "messages sent", "HandlerCommunicating"])

p("C43", "Using an endpoint from several goroutines is free of data races",
  "The application may use an enabled endpoint from several goroutines at once (registering and changing variables, constants, alarms, events, programs, handlers and callbacks; sending and requesting; triggering and raising; switching the control state; reading states; turning the trace on and off; disabling and enabling) while messages arrive and links are selected, deselected, lost and replaced: any two accesses to the same memory of the library, one of them a write, are ordered by synchronisation (happens-before in the Go memory model), no map is used by two goroutines at once, and nothing panics or blocks for ever. The same holds for sessions, channels, managers, servers and queues.",
  ["schedules", "histories", "inputs"], "every pair of calls, messages and link events at once, in every order of the pair and further schedules; roles, stages of communication",
  "Tests run one thing after another; the race detector sees only the schedules they happen to take, and no test runs two calls of one endpoint at once.",
  ["gem/*.go", "hsms/protocol.go", "hsms/connection.go", "hsms/connectionStateMachine.go", "common/events.go", "utils/*.go", "session.go", "channel.go", "manager.go", "server.go"], [("GemHandler, HsmsProtocol, HsmsConnection, Event, Deque, Session, Channel", "gem/handler.go")], ["absence of data races", "absence of panics and deadlocks"])

p("C44", "Callbacks and handlers may use the endpoint that calls them",
  "A callback of an event, a message handler, a remote command, process program or clock handler, a value or time provider, a validator or updater, and a session's close callback may itself use what calls it: register and change variables, constants, alarms, events, programs, handlers and callbacks; trigger, raise and send; switch the control state; read states; fire, add, remove and count callbacks; disable the endpoint; close and look up sessions. Such a call comes back, the message being handled is dealt with, the link and the other callbacks are unaffected, and changes to an event's callbacks count from its next firing.",
  ["histories", "inputs"], "every place the application is called at with every call that does not itself wait for the peer; changes of an event's callbacks from within each of them",
  "No test calls the library from within a callback; the calls that block differ by place.",
  ["common/events.go", "gem/handler.go", "gem/status_equipment_handlers.go", "gem/collection_event_handlers.go", "gem/process_program_handlers.go", "gem/clock.go", "hsms/protocol.go", "session.go", "manager.go", "channel.go"],
  [("Event.Fire", "common/events.go"), ("resolveStatusValues, resolveEquipmentConstantValues, applyEquipmentConstantUpdates", "gem/status_equipment_handlers.go"), ("invokeCloseCallbacks", "session.go")], ["calls that come back", "answers on the wire", "callbacks invoked"])

p("C34", "JSON codec delivers registered types unchanged",
  "A value of a registered type sent through the JSON codec is received as an equal value of the same type, and an unregistered type or head is refused with an error.",
  ["inputs"], "every registered type and value",
  "The test sends two fixed structs.",
  ["codec/json.go"], [("jsonCodec", "codec/json.go")], ["value returned by Receive"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
