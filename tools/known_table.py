fixed("C01", "eb1cbfc", "hsms.Parse computed item lengths of 2 and 3 length bytes wrongly, so every item longer than 255 bytes was refused or decoded wrongly")
fixed("C04", "7d46ff9", "an item whose declared length exceeds the message decoded bytes beyond the message (slice capacity), and nested lists with huge declared counts allocated without limit")
fixed("C04", "acedd5c", "messages with bytes left over after the item, and control messages with a body, were accepted")
fixed("C03", "a922b0a", "NewHSMSControlMessage panicked for a header of more than 10 bytes")
fixed("C03", "c4649e7", "NewHSMSMessageRejectReqFromMsg panicked for every message and took the system bytes from the session id")
fixed("C07", "2ab3d02", "unsigned items accepted negative Go integers as huge values")
fixed("C07", "b8a06ad", "signed items accepted uint values above MaxInt64 as negative values")
fixed("C07", "8933a8b", "binary items accepted malformed 0b literals as 0")
fixed("C09", "3e03a3a", "ASCII items holding a quote or a backslash were printed as SML that does not parse back")
fixed("C09", "091f5df", "a line break right after the opening quote was accepted and the text silently lost")
fixed("C09", "97b2318", "quoted text with an invalid escape was accepted as empty text")
fixed("C09", "3b8dee7", "malformed numbers in binary items ('-', '0E', '1.5') were accepted as 0")
fixed("C09", "c3cc9e8", "a duplicated ASCII variable with a huge size made the SML parser allocate that many bytes and die")
fixed("C09", "fc08386", "a form feed or other white space in a message header made the SML parser panic")
fixed("C09", "dc36834", "message names beginning with W were read as a wait bit, so printed messages did not parse back")
fixed("C16", "e2a7375", "a put between the queue check and the wait of a get was not noticed, so the get timed out although the queue held an item")
fixed("C32", "74fe4dd", "RemoveCallback compared the addresses of its own local variables, so no callback was ever removed")
fixed("C06", "9e610f4", "the send limit was not enforced (longer messages went out under a truncated length) and an announced 8-byte length above MaxInt64 made Receive panic")
fixed("C31", "5d658e9", "a channel kept sessions that were closed before or while they were put, dropped the new session when the replaced one had been closed, and deadlocked when a put or remove met the close callbacks")
fixed("C35", "4d76476", "a linktest timer, select or send that met a session already lost dereferenced nil and crashed the process")
fixed("C10", "56ffffa", "data messages were delivered to handlers and answered before a select and after a deselect")
fixed("C12", "869f9de", "a reply was matched to a request by system bytes only, so control and data transactions took each other's replies, and replies nobody waits for were queued for a later request with the same system bytes")
fixed("C13", "ae14561", "a handler's reply was sent although the primary's wait bit was clear")
fixed("C14", "a01ae1e", "stray or late replies and function-0 aborts were answered with S9F3 or S9F5")
fixed("C14", "05dd45f", "a stream 9 message with the system bytes of an open request ended the request but was not reported to the callback")
fixed("C20", "098cdca", "a reply with more than one unknown or unavailable variable could not be built (S1F4, S1F12, S2F14, S2F30, S6F11, S7F6 panicked or were never sent)")
fixed("C21", "b0f60d8", "a refused S2F15 had already changed the constants named before the one it was refused for")
fixed("C17", "76ccafd", "HOST_OFFLINE equipment could not be switched to EQUIPMENT_OFFLINE by the operator (E30 transition 12)")
fixed("C19", "300a533", "a link lost and regained between two looks of the monitor, or a handshake ending after Disable, left the endpoint communicating; a late failed attempt ended established communication")
fixed("C19", "1c20d0f", "any reply beginning with a zero binary was taken for an accepting S1F14")
fixed("C22", "c07795d", "an identifier above 2^32-1 or with characters outside ASCII made the equipment crash when it built the answer")
fixed("C22", "9f7a2ae", "an S2F33 that defined the same report twice was accepted, the second definition replacing the first")
fixed("C23", "1cde04d", "an S2F35 that linked the same report to an event twice was accepted and reported it twice")
fixed("C24", "28775f8", "a refused S2F37 had already switched the events named before the one it was refused for")
fixed("C26", "72f9ec7", "an S2F41 with a malformed parameter was run without it")
fixed("C26", "9313e3b", "malformed parameter acknowledges of an S2F42 were dropped silently")
fixed("C26", "1e81aa4", "a string parameter outside ASCII made the host's command call panic")
fixed("C27", "2736680", "the replies to alarm and clock messages named a direction the item library refuses, so building them panicked")
fixed("C27", "7f6b9b1", "an alarm identifier without a value was taken for alarm 0, one of several values for the first")
fixed("C27", "6b12ba8", "alarm identifiers above 65535 made the alarm report panic")
fixed("C29", "2736680", "S2F17 and S2F31 were never answered: building the reply panicked")
fixed("C28", "3f2d538", "binary process program bodies were lost")
fixed("C28", "495a5dc", "process program bodies outside ASCII made the endpoint panic")
fixed("C28", "bfa7eac", "an upload handler's code outside 0..255 made building S7F4 panic")
fixed("C30", "70b0efe", "malformed entries of alarm lists were dropped silently instead of being reported")
fixed("C22", "24eb027", "identifiers of several values were taken for their first value")
fixed("C39", "c031c7b", "a connection lost while a linktest was open left its linktest loop running, so every such loss added another stream of linktests to the next connection")
fixed("C40", "6c98304", "a comment ending in a byte such as 0xA0 (the last byte of 'à') or in a form feed broke the message around it")
fixed("C41", "5008b45", "Dial and DialTimeout left the connection open when no codec could be made for it")
fixed("C06", "cf60cbf", "a fixed-length frame longer than 4092 bytes was cut to that length by the byte codec and the rest lost")
fixed("C43", "7f676fb", "the session of an HSMS connection was read and written by several goroutines without synchronisation (Send, Close and Disable against the end of the connection)")
fixed("C43", "a5b95f8", "replacing a process program handler raced with S7F3 and S7F5: a handler set to nil between check and call crashed the process")
fixed("C44", "149c236", "a callback that used its own event (removed itself, or switched the control state within ControlStateChanged) blocked for ever, and with it the link")
fixed("C44", "344e854", "a value provider, validator or updater that registered a variable or constant of its own kind blocked for ever, and with it the link")
fixed("C43", "6f4a203", "a report built for a collection event read the event's link without its lock while S2F37 switched it")
