From eb1cbfc0c7e8a219facac9f599d5fbcf21dcf523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:52 +0000
Subject: [PATCH 01/56] fix: decode item lengths above 255 in the HSMS parser

The length bytes were shifted as bytes, so every length byte but the last
was lost and items longer than 255 bytes were decoded wrongly.
---
 lib-secs2-hsms-go/pkg/parser/hsms/parser.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/lib-secs2-hsms-go/pkg/parser/hsms/parser.go b/lib-secs2-hsms-go/pkg/parser/hsms/parser.go
index a6f2671..a672f7e 100644
--- a/lib-secs2-hsms-go/pkg/parser/hsms/parser.go
+++ b/lib-secs2-hsms-go/pkg/parser/hsms/parser.go
@@ -141,9 +141,8 @@ func (p *parser) parseMessageText() (dataItem ast.ItemNode, ok bool) {
 
 	lengthBytes := p.input[p.pos : p.pos+lengthBytesCount]
 	var length int
-	for i, b := range lengthBytes {
-		shift := (lengthBytesCount - i - 1) * 8
-		length += int(b << shift)
+	for _, b := range lengthBytes {
+		length = length<<8 | int(b)
 	}
 	p.pos += lengthBytesCount
 
-- 
2.43.0


From 7d46ff9e42623c5c7bae4c2f218a7dd953fde3af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:52 +0000
Subject: [PATCH 02/56] fix: refuse items whose declared length exceeds the
 HSMS message

Slicing past the end of the message silently read stale bytes when the
buffer had spare capacity, and a short message could announce nested lists
of 16M elements each and exhaust the memory.
---
 lib-secs2-hsms-go/pkg/parser/hsms/parser.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/lib-secs2-hsms-go/pkg/parser/hsms/parser.go b/lib-secs2-hsms-go/pkg/parser/hsms/parser.go
index a672f7e..4291abe 100644
--- a/lib-secs2-hsms-go/pkg/parser/hsms/parser.go
+++ b/lib-secs2-hsms-go/pkg/parser/hsms/parser.go
@@ -132,12 +132,18 @@ func (p *parser) parseMessageText() (dataItem ast.ItemNode, ok bool) {
 		return ast.NewEmptyItemNode(), true
 	}
 
+	if p.pos >= len(p.input) {
+		return ast.NewEmptyItemNode(), false
+	}
 	formatCode := p.input[p.pos] >> 2
 	lengthBytesCount := int(p.input[p.pos] & 0b00000011)
 	if lengthBytesCount == 0 {
 		return ast.NewEmptyItemNode(), false
 	}
 	p.pos += 1
+	if lengthBytesCount > len(p.input)-p.pos {
+		return ast.NewEmptyItemNode(), false
+	}
 
 	lengthBytes := p.input[p.pos : p.pos+lengthBytesCount]
 	var length int
@@ -145,6 +151,10 @@ func (p *parser) parseMessageText() (dataItem ast.ItemNode, ok bool) {
 		length = length<<8 | int(b)
 	}
 	p.pos += lengthBytesCount
+	// Every byte and every list element needs at least one byte of the remaining input.
+	if length > len(p.input)-p.pos {
+		return ast.NewEmptyItemNode(), false
+	}
 
 	switch formatCode {
 	case formatCodeList:
-- 
2.43.0


From acedd5cf541d680979d900cc29d4d53c1fb30398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:52 +0000
Subject: [PATCH 03/56] fix: refuse HSMS messages with bytes left over

A data message with bytes after its root item and a control message with
message text were accepted and the excess was dropped.
---
 lib-secs2-hsms-go/pkg/parser/hsms/parser.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lib-secs2-hsms-go/pkg/parser/hsms/parser.go b/lib-secs2-hsms-go/pkg/parser/hsms/parser.go
index 4291abe..4325175 100644
--- a/lib-secs2-hsms-go/pkg/parser/hsms/parser.go
+++ b/lib-secs2-hsms-go/pkg/parser/hsms/parser.go
@@ -107,7 +107,7 @@ func (p *parser) parseMessage() (ok bool) {
 		sessionID := int(binary.BigEndian.Uint16(headerBytes[:2]))
 		systemBytes := headerBytes[6:10]
 		dataItem, ok := p.parseMessageText()
-		if !ok {
+		if !ok || p.pos != len(p.input) {
 			return false
 		}
 		p.msg = ast.NewHSMSDataMessage("", stream, function, waitBit, "H<->E", dataItem, sessionID, systemBytes)
@@ -115,6 +115,10 @@ func (p *parser) parseMessage() (ok bool) {
 
 	case sTypeSelectReq, sTypeSelectRsp, sTypeDeselectReq, sTypeDeselectRsp,
 		sTypeLinktestReq, sTypeLinktestRsp, sTypeRejectReq, sTypeSeparateReq:
+		if p.msgLength != 10 {
+			// Control messages consist of the header only
+			return false
+		}
 		p.msg = ast.NewHSMSControlMessage(headerBytes)
 		return true
 
-- 
2.43.0


From a922b0a6bdf372c1f3845cfb9d287ef2c31d95b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:52 +0000
Subject: [PATCH 04/56] fix: index out of range in NewHSMSControlMessage for
 long headers

---
 lib-secs2-hsms-go/pkg/ast/hsms.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib-secs2-hsms-go/pkg/ast/hsms.go b/lib-secs2-hsms-go/pkg/ast/hsms.go
index b1a6d17..741b333 100644
--- a/lib-secs2-hsms-go/pkg/ast/hsms.go
+++ b/lib-secs2-hsms-go/pkg/ast/hsms.go
@@ -54,7 +54,7 @@ type ControlMessage struct {
 func NewHSMSControlMessage(header []byte) HSMSMessage {
 	headerCopy := make([]byte, 10)
 	for i, b := range header {
-		if i > 10 {
+		if i >= 10 {
 			break
 		}
 		headerCopy[i] = b
-- 
2.43.0


From c4649e7771b80246aeda853190604e018c504166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:12 +0000
Subject: [PATCH 05/56] fix: build Reject.req from the message being rejected

---
 lib-secs2-hsms-go/pkg/ast/hsms.go | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/lib-secs2-hsms-go/pkg/ast/hsms.go b/lib-secs2-hsms-go/pkg/ast/hsms.go
index 741b333..4b5011d 100644
--- a/lib-secs2-hsms-go/pkg/ast/hsms.go
+++ b/lib-secs2-hsms-go/pkg/ast/hsms.go
@@ -205,26 +205,29 @@ func NewHSMSMessageRejectReq(sessionID uint16, pType, sType byte, systemBytes []
 	return &ControlMessage{header}
 }
 
-func NewHSMSMessageRejectReqFromMsg(rejectReq HSMSMessage, reasonCode byte) HSMSMessage {
-	if rejectReq.Type() != "Reject.req" {
-		panic("expected Reject.req message")
+// NewHSMSMessageRejectReqFromMsg creates HSMS Reject.req control message from the message being rejected.
+// The message can be a control message or a data message that can be converted to HSMS format.
+func NewHSMSMessageRejectReqFromMsg(rejected HSMSMessage, reasonCode byte) HSMSMessage {
+	bytes := rejected.ToBytes()
+	if len(bytes) < 14 {
+		panic("expected a message that can be converted to HSMS format")
 	}
 
+	rejectedHeader := bytes[4:14]
 	header := make([]byte, 10)
-	msg, _ := rejectReq.(*ControlMessage)
-	header[0] = msg.header[0]
-	header[1] = msg.header[1]
+	header[0] = rejectedHeader[0]
+	header[1] = rejectedHeader[1]
 	if reasonCode == 2 {
-		header[2] = msg.header[4] // pType
+		header[2] = rejectedHeader[4] // pType
 	} else {
-		header[2] = msg.header[5] // sType
+		header[2] = rejectedHeader[5] // sType
 	}
 	header[3] = reasonCode
 	header[5] = sTypeRejectReq
-	header[6] = msg.header[0]
-	header[7] = msg.header[1]
-	header[8] = msg.header[2]
-	header[9] = msg.header[3]
+	header[6] = rejectedHeader[6]
+	header[7] = rejectedHeader[7]
+	header[8] = rejectedHeader[8]
+	header[9] = rejectedHeader[9]
 
 	return &ControlMessage{header}
 }
-- 
2.43.0


From 2ab3d02030f1c251ae60e57ab8922e192ef3cfe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:12 +0000
Subject: [PATCH 06/56] fix: refuse negative values in unsigned items

---
 lib-secs2-hsms-go/pkg/ast/uint.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/lib-secs2-hsms-go/pkg/ast/uint.go b/lib-secs2-hsms-go/pkg/ast/uint.go
index fe6f131..fde0867 100644
--- a/lib-secs2-hsms-go/pkg/ast/uint.go
+++ b/lib-secs2-hsms-go/pkg/ast/uint.go
@@ -49,14 +49,29 @@ func NewUintNode(byteSize int, values ...interface{}) ItemNode {
 	for i, value := range values {
 		switch value := value.(type) {
 		case int:
+			if value < 0 {
+				panic("value overflow")
+			}
 			nodeValues = append(nodeValues, uint64(value))
 		case int8:
+			if value < 0 {
+				panic("value overflow")
+			}
 			nodeValues = append(nodeValues, uint64(value))
 		case int16:
+			if value < 0 {
+				panic("value overflow")
+			}
 			nodeValues = append(nodeValues, uint64(value))
 		case int32:
+			if value < 0 {
+				panic("value overflow")
+			}
 			nodeValues = append(nodeValues, uint64(value))
 		case int64:
+			if value < 0 {
+				panic("value overflow")
+			}
 			nodeValues = append(nodeValues, uint64(value))
 		case uint:
 			nodeValues = append(nodeValues, uint64(value))
-- 
2.43.0


From b8a06ad16cf5d08e1ba2688705168cf58cee0b3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:12 +0000
Subject: [PATCH 07/56] fix: refuse uint values above MaxInt64 in signed items

---
 lib-secs2-hsms-go/pkg/ast/int.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib-secs2-hsms-go/pkg/ast/int.go b/lib-secs2-hsms-go/pkg/ast/int.go
index 45e490e..2b00def 100644
--- a/lib-secs2-hsms-go/pkg/ast/int.go
+++ b/lib-secs2-hsms-go/pkg/ast/int.go
@@ -53,6 +53,9 @@ func NewIntNode(byteSize int, values ...interface{}) ItemNode {
 		case int64:
 			nodeValues = append(nodeValues, value)
 		case uint:
+			if uint64(value) > math.MaxInt64 {
+				panic("value overflow")
+			}
 			nodeValues = append(nodeValues, int64(value))
 		case uint8:
 			nodeValues = append(nodeValues, int64(value))
-- 
2.43.0


From 8933a8bef072c8e6c8c985bc9015bfebae5412fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:12 +0000
Subject: [PATCH 08/56] fix: refuse malformed 0b literals in binary items

---
 lib-secs2-hsms-go/pkg/ast/binary.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib-secs2-hsms-go/pkg/ast/binary.go b/lib-secs2-hsms-go/pkg/ast/binary.go
index 4ce63b9..a384b50 100644
--- a/lib-secs2-hsms-go/pkg/ast/binary.go
+++ b/lib-secs2-hsms-go/pkg/ast/binary.go
@@ -54,7 +54,10 @@ func NewBinaryNode(values ...interface{}) ItemNode {
 			nodeValues = append(nodeValues, int(v))
 		case string:
 			if strings.HasPrefix(v, "0b") {
-				vAsInt64, _ := strconv.ParseInt(v, 0, 0)
+				vAsInt64, err := strconv.ParseInt(v, 0, 0)
+				if err != nil {
+					panic("invalid binary value")
+				}
 				nodeValues = append(nodeValues, int(vAsInt64))
 			} else {
 				if _, ok := nodeVariables[v]; ok {
-- 
2.43.0


From 3e03a3ac8d7d309c48f6b9f6f888e9dcf900730d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:04 +0000
Subject: [PATCH 09/56] fix: print quotes and backslashes of ASCII items as
 number codes

---
 lib-secs2-hsms-go/pkg/ast/ascii.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib-secs2-hsms-go/pkg/ast/ascii.go b/lib-secs2-hsms-go/pkg/ast/ascii.go
index 1243e8a..7cb194f 100644
--- a/lib-secs2-hsms-go/pkg/ast/ascii.go
+++ b/lib-secs2-hsms-go/pkg/ast/ascii.go
@@ -187,8 +187,8 @@ func (node *ASCIINode) String() string {
 	var sb strings.Builder
 	printableState := false
 	for _, ch := range node.value {
-		if ch < 32 || ch == 127 {
-			// ch is a non-printable control character
+		if ch < 32 || ch == 127 || ch == '"' || ch == '\\' {
+			// ch is a non-printable control character, or has a meaning of its own inside quotes
 			// 32: space, which is the first printable character, 127: del
 			if printableState {
 				printableState = false
-- 
2.43.0


From 091f5dfbca39a825e9de74d862cbcc6f51843bb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:04 +0000
Subject: [PATCH 10/56] fix: refuse a line break right after the opening quote
 in SML

---
 lib-secs2-hsms-go/pkg/parser/sml/lexer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib-secs2-hsms-go/pkg/parser/sml/lexer.go b/lib-secs2-hsms-go/pkg/parser/sml/lexer.go
index a040773..a799f80 100644
--- a/lib-secs2-hsms-go/pkg/parser/sml/lexer.go
+++ b/lib-secs2-hsms-go/pkg/parser/sml/lexer.go
@@ -379,7 +379,7 @@ func lexQuotedString(l *lexer) stateFn {
 	l.accept(`"`)
 	i := strings.Index(l.input[l.pos:], `"`)
 	j := strings.IndexAny(l.input[l.pos:], "\r\n")
-	if i < 0 || (j > 0 && j < i) {
+	if i < 0 || (j >= 0 && j < i) {
 		return l.errorf("unclosed quoted string")
 	}
 	l.pos += i + 1 // Include the double quote
-- 
2.43.0


From 97b2318a06a82b66f15170e042787caf23c39c17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:04 +0000
Subject: [PATCH 11/56] fix: report invalid escapes in SML strings instead of
 dropping the text

---
 lib-secs2-hsms-go/pkg/parser/sml/parser.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib-secs2-hsms-go/pkg/parser/sml/parser.go b/lib-secs2-hsms-go/pkg/parser/sml/parser.go
index 0db1739..815cbf1 100644
--- a/lib-secs2-hsms-go/pkg/parser/sml/parser.go
+++ b/lib-secs2-hsms-go/pkg/parser/sml/parser.go
@@ -419,7 +419,10 @@ func (p *parser) parseASCII(minLength, maxLength int) (item ast.ItemNode, ok boo
 
 		switch t.typ {
 		case tokenTypeQuotedString:
-			val, _ := strconv.Unquote(t.val)
+			val, err := strconv.Unquote(t.val)
+			if err != nil {
+				p.errorf(t, "invalid quoted string %s", t.val)
+			}
 			for _, r := range val {
 				if r > unicode.MaxASCII {
 					val = ""
-- 
2.43.0


From 3b8dee7c0b4b2a19207a4e1b3ba2e31e88f597b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:04 +0000
Subject: [PATCH 12/56] fix: report malformed numbers in SML binary items

---
 lib-secs2-hsms-go/pkg/parser/sml/parser.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib-secs2-hsms-go/pkg/parser/sml/parser.go b/lib-secs2-hsms-go/pkg/parser/sml/parser.go
index 815cbf1..37f3655 100644
--- a/lib-secs2-hsms-go/pkg/parser/sml/parser.go
+++ b/lib-secs2-hsms-go/pkg/parser/sml/parser.go
@@ -485,7 +485,10 @@ func (p *parser) parseBinary() (item ast.ItemNode, ok bool) {
 	for _, t := range p.getDataItemValueTokens() {
 		switch t.typ {
 		case tokenTypeNumber:
-			val, _ := strconv.ParseInt(t.val, 0, 0)
+			val, err := strconv.ParseInt(t.val, 0, 0)
+			if err != nil && err.(*strconv.NumError).Err == strconv.ErrSyntax {
+				p.errorf(t, "expected integer, found %q", t.val)
+			}
 			if !(0 <= val && val < 256) {
 				val = 0
 				p.errorf(t, "binary value overflow, should be in range of [0, 256)")
-- 
2.43.0


From c3cc9e87e031ac25c2b1db2ea14e034cbf599998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:20 +0000
Subject: [PATCH 13/56] fix: do not build a placeholder of unbounded size for a
 duplicated SML variable

---
 lib-secs2-hsms-go/pkg/parser/sml/parser.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib-secs2-hsms-go/pkg/parser/sml/parser.go b/lib-secs2-hsms-go/pkg/parser/sml/parser.go
index 37f3655..c84bb00 100644
--- a/lib-secs2-hsms-go/pkg/parser/sml/parser.go
+++ b/lib-secs2-hsms-go/pkg/parser/sml/parser.go
@@ -453,6 +453,9 @@ func (p *parser) parseASCII(minLength, maxLength int) (item ast.ItemNode, ok boo
 
 			if _, ok := p.variableNames[t.val]; ok {
 				p.errorf(t, "duplicated variable name %q", t.val)
+				if minLength > ast.MAX_BYTE_SIZE {
+					return ast.NewEmptyItemNode(), false
+				}
 				return ast.NewASCIINode(strings.Repeat("*", minLength)), true
 			} else {
 				p.variableNames[t.val] = true
-- 
2.43.0


From fc08386f8a08be65c6be70d3b231e3516edfee0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:20 +0000
Subject: [PATCH 14/56] fix: skip every white space in SML headers, message
 names cannot hold it

---
 lib-secs2-hsms-go/pkg/parser/sml/lexer.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib-secs2-hsms-go/pkg/parser/sml/lexer.go b/lib-secs2-hsms-go/pkg/parser/sml/lexer.go
index a799f80..13c8cbb 100644
--- a/lib-secs2-hsms-go/pkg/parser/sml/lexer.go
+++ b/lib-secs2-hsms-go/pkg/parser/sml/lexer.go
@@ -233,6 +233,10 @@ func lexMessageHeader(l *lexer) stateFn {
 			l.emit(tokenTypeLeftAngleBracket)
 			return lexMessageText
 		default:
+			if unicode.IsSpace(r) {
+				l.ignore()
+				continue
+			}
 			for {
 				r := l.next()
 				if r == eof || unicode.IsSpace(r) || strings.HasPrefix(l.input[l.pos-1:], "//") {
-- 
2.43.0


From dc36834a536c304d2da561700128ee3d6c66be40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:34 +0000
Subject: [PATCH 15/56] fix: SML message names may begin with W

---
 lib-secs2-hsms-go/pkg/parser/sml/lexer.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/lib-secs2-hsms-go/pkg/parser/sml/lexer.go b/lib-secs2-hsms-go/pkg/parser/sml/lexer.go
index 13c8cbb..44b3a18 100644
--- a/lib-secs2-hsms-go/pkg/parser/sml/lexer.go
+++ b/lib-secs2-hsms-go/pkg/parser/sml/lexer.go
@@ -207,7 +207,7 @@ func lexMessageHeader(l *lexer) stateFn {
 
 		// Handle wait bit
 		re = regexp.MustCompile(`^([Ww]|\[[Ww]\])`)
-		if loc := re.FindStringIndex(l.input[l.pos:]); loc != nil {
+		if loc := re.FindStringIndex(l.input[l.pos:]); loc != nil && !l.startsName(loc[1]) {
 			l.pos += loc[1]
 			l.emitUppercase(tokenTypeWaitBit)
 			return lexMessageHeader
@@ -251,6 +251,17 @@ func lexMessageHeader(l *lexer) stateFn {
 	// should not reach here
 }
 
+// startsName reports whether the wait bit of the given width at the current
+// position is the first letter of a message name, e.g. WaferMap.
+func (l *lexer) startsName(width int) bool {
+	rest := l.input[l.pos+width:]
+	r, _ := utf8.DecodeRuneInString(rest)
+	if width > 1 || !isAlphaNumeric(r) {
+		return false
+	}
+	return !regexp.MustCompile(`^[Hh](->|<->|<-)[Ee]`).MatchString(rest)
+}
+
 // lexMessageText scans the elements inside the message text.
 func lexMessageText(l *lexer) stateFn {
 	for {
-- 
2.43.0


From e2a7375e2c19ce199c99ec47eb0f266265e79ed1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:04 +0000
Subject: [PATCH 16/56] fix: do not lose the wake-up of a put that precedes the
 wait of a get

---
 utils/queue.go | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/utils/queue.go b/utils/queue.go
index e063378..b9cc424 100644
--- a/utils/queue.go
+++ b/utils/queue.go
@@ -14,13 +14,18 @@ type Deque struct {
 }
 
 func NewDeque() *Deque {
-	return &Deque{container: list.New(), notEmptyNotify: make(chan struct{})}
+	return &Deque{container: list.New(), notEmptyNotify: make(chan struct{}, 1)}
 }
 
 func (s *Deque) Put(item interface{}) {
 	s.Lock()
 	s.container.PushFront(item)
 	s.Unlock()
+	s.notify()
+}
+
+// notify leaves a wake-up for one getter. It is kept if nobody is waiting yet.
+func (s *Deque) notify() {
 	select {
 	case s.notEmptyNotify <- struct{}{}:
 	default:
@@ -32,24 +37,29 @@ func (s *Deque) Get(timeout int) (interface{}, error) {
 	var item interface{} = nil
 	var lastContainerItem *list.Element = nil
 	endTime := time.Now().Add(time.Duration(timeout) * time.Second)
+	expired := false
 	for {
 		if s.container.Back() != nil {
 			break
 		}
 		remaining := endTime.Sub(time.Now())
 		s.Unlock()
-		if remaining < 0 {
+		if remaining < 0 || expired {
 			return nil, errors.New("time out in Get")
 		}
 		select {
 		case <-s.notEmptyNotify:
 		case <-time.After(remaining):
-			return nil, errors.New("time out in Get")
+			expired = true
 		}
 		s.Lock()
 	}
 	lastContainerItem = s.container.Back()
 	item = s.container.Remove(lastContainerItem)
+	more := s.container.Back() != nil
 	s.Unlock()
+	if more {
+		s.notify()
+	}
 	return item, nil
 }
-- 
2.43.0


From 74fe4dd39e74e49cd4adb06acf4bba8d8d28b460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:04 +0000
Subject: [PATCH 17/56] fix: remove event callbacks, which were compared by the
 address of local variables

---
 common/events.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/common/events.go b/common/events.go
index fee60da..546e869 100644
--- a/common/events.go
+++ b/common/events.go
@@ -2,6 +2,7 @@ package common
 
 import (
 	"sync"
+	"unsafe"
 )
 
 // Event represents a class to handle the callbacks for a single event.
@@ -24,14 +25,19 @@ func (e *Event) RemoveCallback(callback func(data map[string]interface{})) {
 	defer e.mutex.Unlock()
 
 	for i, cb := range e.callbacks {
-		if &cb == &callback {
+		if sameCallback(cb, callback) {
 			// Remove the callback by copying the slice without the element at index i.
-			e.callbacks = append(e.callbacks[:i], e.callbacks[i+1:]...)
+			e.callbacks = append(e.callbacks[:i:i], e.callbacks[i+1:]...)
 			return
 		}
 	}
 }
 
+// sameCallback reports whether a and b are the same function value.
+func sameCallback(a, b func(data map[string]interface{})) bool {
+	return *(*unsafe.Pointer)(unsafe.Pointer(&a)) == *(*unsafe.Pointer)(unsafe.Pointer(&b))
+}
+
 // Fire raises the event and calls all callbacks.
 func (e *Event) Fire(data map[string]interface{}) {
 	e.mutex.Lock()
-- 
2.43.0


From 6542bcdd73719e79a29e245bea7b142a5642aa0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:04 +0000
Subject: [PATCH 18/56] verif: hook for the reconnection delay (build tag
 verif)

---
 hsms/verif_hooks.go | 11 +++++++++++
 1 file changed, 11 insertions(+)
 create mode 100644 hsms/verif_hooks.go

diff --git a/hsms/verif_hooks.go b/hsms/verif_hooks.go
new file mode 100644
index 0000000..5989874
--- /dev/null
+++ b/hsms/verif_hooks.go
@@ -0,0 +1,11 @@
+//go:build verif
+
+package hsms
+
+import "time"
+
+// VerifBackoffDelay returns the delay before the given reconnection attempt.
+func (p *HsmsProtocol) VerifBackoffDelay(attempt int) time.Duration {
+	p.reconnectAttempts = attempt
+	return p.calculateBackoffDelay()
+}
-- 
2.43.0


From 9e610f4d10ebcbfc5fb864aba3d9424202c1c0c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:19 +0000
Subject: [PATCH 19/56] fix: enforce the send limit and refuse negative lengths
 in the fixed-length-head codec

---
 codec/fixlen.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/codec/fixlen.go b/codec/fixlen.go
index 3425c7e..d428c09 100644
--- a/codec/fixlen.go
+++ b/codec/fixlen.go
@@ -123,7 +123,7 @@ func (c *fixlenCodec) Receive() (interface{}, error) {
 		return nil, err
 	}
 	size := c.headDecoder(c.headBuf)
-	if size > c.maxRecv {
+	if size < 0 || size > c.maxRecv {
 		return nil, ErrTooLargePacket
 	}
 	if cap(c.bodyBuf) < size {
@@ -146,6 +146,9 @@ func (c *fixlenCodec) Send(msg interface{}) error {
 		return err
 	}
 	buff := c.sendBuf.Bytes()
+	if len(buff)-c.n > c.maxSend {
+		return ErrTooLargePacket
+	}
 	c.headEncoder(buff, len(buff)-c.n)
 	_, err = c.rw.Write(buff)
 	return err
-- 
2.43.0


From 5d658e933b5267bd786b8288e15d6008444626fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:55 +0000
Subject: [PATCH 20/56] fix: keep closed sessions out of channels and run close
 callbacks without the lock

---
 channel.go | 15 ++++++++++++++-
 session.go | 13 ++++++++-----
 2 files changed, 22 insertions(+), 6 deletions(-)

diff --git a/channel.go b/channel.go
index 225436c..c96b12a 100644
--- a/channel.go
+++ b/channel.go
@@ -48,11 +48,24 @@ func (channel *Channel) Put(key KEY, session *Session) {
 		channel.remove(key, session)
 	}
 	session.AddCloseCallback(channel, key, func() {
-		channel.Remove(key)
+		channel.removeClosed(key, session)
 	})
+	if session.IsClosed() {
+		// closed before the callback was added, or about to run it
+		return
+	}
 	channel.sessions[key] = session
 }
 
+// removeClosed removes a session that was closed, unless the key was given to another one meanwhile.
+func (channel *Channel) removeClosed(key KEY, session *Session) {
+	channel.mutex.Lock()
+	defer channel.mutex.Unlock()
+	if channel.sessions[key] == session {
+		delete(channel.sessions, key)
+	}
+}
+
 func (channel *Channel) remove(key KEY, session *Session) {
 	session.RemoveCloseCallback(channel, key)
 	delete(channel.sessions, key)
diff --git a/session.go b/session.go
index a010324..1ef2905 100644
--- a/session.go
+++ b/session.go
@@ -169,13 +169,13 @@ type closeCallback struct {
 }
 
 func (session *Session) AddCloseCallback(handler, key interface{}, callback func()) {
+	session.closeMutex.Lock()
+	defer session.closeMutex.Unlock()
+
 	if session.IsClosed() {
 		return
 	}
 
-	session.closeMutex.Lock()
-	defer session.closeMutex.Unlock()
-
 	newItem := &closeCallback{handler, key, callback, nil}
 
 	if session.firstCloseCallback == nil {
@@ -211,10 +211,13 @@ func (session *Session) RemoveCloseCallback(handler, key interface{}) {
 }
 
 func (session *Session) invokeCloseCallbacks() {
+	// The callbacks run without the lock: they may take locks under which others add or remove callbacks.
 	session.closeMutex.Lock()
-	defer session.closeMutex.Unlock()
+	callback := session.firstCloseCallback
+	session.firstCloseCallback, session.lastCloseCallback = nil, nil
+	session.closeMutex.Unlock()
 
-	for callback := session.firstCloseCallback; callback != nil; callback = callback.Next {
+	for ; callback != nil; callback = callback.Next {
 		callback.Func()
 	}
 }
-- 
2.43.0


From 4d76476350664031616e17e49648bded06701bfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:11 +0000
Subject: [PATCH 21/56] fix: do not dereference a lost HSMS session when
 sending control messages

---
 hsms/connection.go | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/hsms/connection.go b/hsms/connection.go
index a635b6e..080afdc 100644
--- a/hsms/connection.go
+++ b/hsms/connection.go
@@ -48,23 +48,25 @@ func (c *HsmsConnection) SetSession(session *link.Session) {
 }
 
 func (c *HsmsConnection) Send(msg interface{}) error {
-	if c.connection == nil {
+	session := c.connection
+	if session == nil {
 		return ErrNotConnected
 	}
-	return c.connection.Send(msg)
+	return session.Send(msg)
 }
 
 func (c *HsmsConnection) Close() error {
-	if c.connection == nil {
+	session := c.connection
+	if session == nil {
 		return nil
 	}
-	return c.connection.Close()
+	return session.Close()
 }
 
 func (c *HsmsConnection) sendRejectRsp(packet ast.HSMSMessage, reasonCode byte) {
 	rejectReq := ast.NewHSMSMessageRejectReqFromMsg(packet, reasonCode)
 	c.hp.logControlMessage("TX", rejectReq)
-	if err := c.connection.Send(rejectReq.ToBytes()); err != nil {
+	if err := c.Send(rejectReq.ToBytes()); err != nil {
 		c.hp.logger.Error("send reject rsp failed", "error", err)
 	}
 }
@@ -76,7 +78,7 @@ func (c *HsmsConnection) sendLinktestReq() {
 
 	message := ast.NewHSMSMessageLinktestReq(c.hp.encodeSystemID(systemID))
 	c.hp.logControlMessage("TX", message)
-	if err := c.connection.Send(message.ToBytes()); err != nil {
+	if err := c.Send(message.ToBytes()); err != nil {
 		c.hp.logger.Error("send linktest.req failed", "error", err)
 		return
 	}
@@ -89,7 +91,7 @@ func (c *HsmsConnection) sendLinktestReq() {
 func (c *HsmsConnection) sendDeselectRsp(message ast.HSMSMessage, status ControlStatus) {
 	response := ast.NewHSMSMessageDeselectRsp(message, byte(status))
 	c.hp.logControlMessage("TX", response)
-	if err := c.connection.Send(response.ToBytes()); err != nil {
+	if err := c.Send(response.ToBytes()); err != nil {
 		c.hp.logger.Error("send deselect.rsp failed", "error", err)
 	}
 }
@@ -97,7 +99,7 @@ func (c *HsmsConnection) sendDeselectRsp(message ast.HSMSMessage, status Control
 func (c *HsmsConnection) sendSelectRsp(message ast.HSMSMessage, status ControlStatus) {
 	response := ast.NewHSMSMessageSelectRsp(message, byte(status))
 	c.hp.logControlMessage("TX", response)
-	if err := c.connection.Send(response.ToBytes()); err != nil {
+	if err := c.Send(response.ToBytes()); err != nil {
 		c.hp.logger.Error("send select.rsp failed", "error", err)
 	}
 }
@@ -105,7 +107,7 @@ func (c *HsmsConnection) sendSelectRsp(message ast.HSMSMessage, status ControlSt
 func (c *HsmsConnection) sendLinkTestRsp(message ast.HSMSMessage) {
 	response := ast.NewHSMSMessageLinktestRsp(message)
 	c.hp.logControlMessage("TX", response)
-	if err := c.connection.Send(response.ToBytes()); err != nil {
+	if err := c.Send(response.ToBytes()); err != nil {
 		c.hp.logger.Error("send linktest.rsp failed", "error", err)
 	}
 }
@@ -113,7 +115,7 @@ func (c *HsmsConnection) sendLinkTestRsp(message ast.HSMSMessage) {
 func (c *HsmsConnection) sendReject(message ast.HSMSMessage, reason RejectReason) {
 	reject := ast.NewHSMSMessageRejectReqFromMsg(message, byte(reason))
 	c.hp.logControlMessage("TX", reject)
-	if err := c.connection.Send(reject.ToBytes()); err != nil {
+	if err := c.Send(reject.ToBytes()); err != nil {
 		c.hp.logger.Error("send reject.req failed", "error", err)
 	}
 }
@@ -125,7 +127,7 @@ func (c *HsmsConnection) sendSelectReq() error {
 
 	request := ast.NewHSMSMessageSelectReq(uint16(c.hp.sessionID), c.hp.encodeSystemID(systemID))
 	c.hp.logControlMessage("TX", request)
-	if err := c.connection.Send(request.ToBytes()); err != nil {
+	if err := c.Send(request.ToBytes()); err != nil {
 		c.hp.logger.Error("send select.req failed", "error", err)
 		return err
 	}
@@ -158,7 +160,7 @@ func (c *HsmsConnection) sendDeselectReq() error {
 
 	request := ast.NewHSMSMessageDeselectReq(uint16(c.hp.sessionID), c.hp.encodeSystemID(systemID))
 	c.hp.logControlMessage("TX", request)
-	if err := c.connection.Send(request.ToBytes()); err != nil {
+	if err := c.Send(request.ToBytes()); err != nil {
 		c.hp.logger.Error("send deselect.req failed", "error", err)
 		return err
 	}
-- 
2.43.0


From 56ffffa2fcf0d967052478b99f2db14ae37faeb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:11 +0000
Subject: [PATCH 22/56] fix: reject data messages received while not selected

---
 hsms/protocol.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hsms/protocol.go b/hsms/protocol.go
index 8520fa6..053df9c 100644
--- a/hsms/protocol.go
+++ b/hsms/protocol.go
@@ -879,6 +879,7 @@ func (p *HsmsProtocol) OnConnectionEstablishedAndStartReceiver(connection *link.
 
 		if p.connectionState.CurrentState() != StateConnectedSelected {
 			p.logger.Warn("received message while not selected")
+			p.hsmsConnection.sendReject(dataMessage, RejectReasonNotReady)
 			continue
 		}
 
-- 
2.43.0


From 869f9de76ff3dd5c14fa625efa087cecae7d49cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:12 +0000
Subject: [PATCH 23/56] fix: match replies with open requests of their own kind

---
 hsms/connection.go |  7 ++---
 hsms/protocol.go   | 66 ++++++++++++++++++++++++++++++++--------------
 2 files changed, 50 insertions(+), 23 deletions(-)

diff --git a/hsms/connection.go b/hsms/connection.go
index 080afdc..1e481f7 100644
--- a/hsms/connection.go
+++ b/hsms/connection.go
@@ -5,6 +5,7 @@ import (
 
 	link "github.com/younglifestyle/secs4go"
 	"github.com/younglifestyle/secs4go/lib-secs2-hsms-go/pkg/ast"
+	"github.com/younglifestyle/secs4go/lib-secs2-hsms-go/pkg/parser/hsms"
 )
 
 var HSMSSTYPES = map[int]string{
@@ -73,7 +74,7 @@ func (c *HsmsConnection) sendRejectRsp(packet ast.HSMSMessage, reasonCode byte)
 
 func (c *HsmsConnection) sendLinktestReq() {
 	systemID := c.hp.getNextSystemCounter()
-	queue := c.hp.createQueue(systemID)
+	queue := c.hp.createQueue(systemID, hsms.LinktestRspStr)
 	defer c.hp.removeQueue(systemID)
 
 	message := ast.NewHSMSMessageLinktestReq(c.hp.encodeSystemID(systemID))
@@ -122,7 +123,7 @@ func (c *HsmsConnection) sendReject(message ast.HSMSMessage, reason RejectReason
 
 func (c *HsmsConnection) sendSelectReq() error {
 	systemID := c.hp.getNextSystemCounter()
-	queue := c.hp.createQueue(systemID)
+	queue := c.hp.createQueue(systemID, hsms.SelectRspStr)
 	defer c.hp.removeQueue(systemID)
 
 	request := ast.NewHSMSMessageSelectReq(uint16(c.hp.sessionID), c.hp.encodeSystemID(systemID))
@@ -155,7 +156,7 @@ func (c *HsmsConnection) sendSelectReq() error {
 
 func (c *HsmsConnection) sendDeselectReq() error {
 	systemID := c.hp.getNextSystemCounter()
-	queue := c.hp.createQueue(systemID)
+	queue := c.hp.createQueue(systemID, hsms.DeselectRspStr)
 	defer c.hp.removeQueue(systemID)
 
 	request := ast.NewHSMSMessageDeselectReq(uint16(c.hp.sessionID), c.hp.encodeSystemID(systemID))
diff --git a/hsms/protocol.go b/hsms/protocol.go
index 053df9c..441e5cc 100644
--- a/hsms/protocol.go
+++ b/hsms/protocol.go
@@ -63,6 +63,12 @@ var (
 	ErrT3Timeout = errors.New("T3 timeout")
 )
 
+// transaction is an open request: the queue its reply goes to and the message type of that reply.
+type transaction struct {
+	queue *utils.Deque
+	reply string
+}
+
 type HsmsProtocol struct {
 	remoteAddress string
 	remotePort    int
@@ -82,7 +88,7 @@ type HsmsProtocol struct {
 	hsmsConnection  *HsmsConnection
 
 	queueMu      sync.RWMutex
-	systemQueues map[uint32]*utils.Deque
+	systemQueues map[uint32]transaction
 
 	logMu      sync.RWMutex
 	logCfg     LoggingConfig
@@ -131,7 +137,7 @@ func NewHsmsProtocol(address string, port int, active bool, sessionID int, name
 		logger:               logger,
 		systemCounter:        atomic.NewUint32(rand.Uint32()),
 		timeouts:             NewSecsTimeout(),
-		systemQueues:         make(map[uint32]*utils.Deque),
+		systemQueues:         make(map[uint32]transaction),
 		handlers:             make(map[string]DataMessageHandler),
 		disconnectFlg:        make(chan struct{}, 1),
 		connectThreadRunning: atomic.NewBool(false),
@@ -290,19 +296,23 @@ func (p *HsmsProtocol) getNextSystemCounter() uint32 {
 	return uint32(num)
 }
 
-func (p *HsmsProtocol) createQueue(systemID uint32) *utils.Deque {
+func (p *HsmsProtocol) createQueue(systemID uint32, reply string) *utils.Deque {
 	queue := utils.NewDeque()
 	p.queueMu.Lock()
-	p.systemQueues[systemID] = queue
+	p.systemQueues[systemID] = transaction{queue, reply}
 	p.queueMu.Unlock()
 	return queue
 }
 
-func (p *HsmsProtocol) fetchQueue(systemID uint32) (*utils.Deque, bool) {
+// fetchQueue finds the open request that a message of the given type answers. A reject answers any request.
+func (p *HsmsProtocol) fetchQueue(systemID uint32, messageType string) (*utils.Deque, bool) {
 	p.queueMu.RLock()
-	queue, ok := p.systemQueues[systemID]
+	t, ok := p.systemQueues[systemID]
 	p.queueMu.RUnlock()
-	return queue, ok
+	if !ok || messageType != t.reply && messageType != hsms.RejectReqStr {
+		return nil, false
+	}
+	return t.queue, true
 }
 
 func (p *HsmsProtocol) removeQueue(systemID uint32) {
@@ -538,14 +548,17 @@ func (p *HsmsProtocol) handleHsmsRequests(message ast.HSMSMessage) {
 		}
 
 	case hsms.SelectRspStr:
-		if queue, ok := p.fetchQueue(systemID); ok {
-			queue.Put(message)
-		}
 		ctrl, ok := message.(*ast.ControlMessage)
 		if !ok {
 			p.logger.Warn("received malformed select.rsp")
 			return
 		}
+		queue, ok := p.fetchQueue(systemID, hsms.SelectRspStr)
+		if !ok {
+			p.logger.Warn("received select.rsp without a request")
+			return
+		}
+		queue.Put(message)
 		if ControlStatus(ctrl.Status()) != ControlStatusAccepted {
 			p.logger.Warn("select.rsp rejected", "status", ctrl.Status())
 			p.connected.Store(false)
@@ -570,12 +583,22 @@ func (p *HsmsProtocol) handleHsmsRequests(message ast.HSMSMessage) {
 		}
 
 	case hsms.DeselectRspStr:
-		if err := p.connectionState.Deselect(); err != nil {
-			p.logger.Error("change state to NOT-SELECTED failed", "error", err)
+		ctrl, ok := message.(*ast.ControlMessage)
+		if !ok {
+			p.logger.Warn("received malformed deselect.rsp")
+			return
 		}
-		if queue, ok := p.fetchQueue(systemID); ok {
-			queue.Put(message)
+		queue, ok := p.fetchQueue(systemID, hsms.DeselectRspStr)
+		if !ok {
+			p.logger.Warn("received deselect.rsp without a request")
+			return
 		}
+		if ControlStatus(ctrl.Status()) == ControlStatusAccepted {
+			if err := p.connectionState.Deselect(); err != nil {
+				p.logger.Error("change state to NOT-SELECTED failed", "error", err)
+			}
+		}
+		queue.Put(message)
 
 	case hsms.LinktestReqStr:
 		if !p.connected.Load() {
@@ -596,7 +619,7 @@ func (p *HsmsProtocol) handleHsmsRequests(message ast.HSMSMessage) {
 		p.hsmsConnection.SetSession(nil)
 
 	default:
-		if queue, ok := p.fetchQueue(systemID); ok {
+		if queue, ok := p.fetchQueue(systemID, message.Type()); ok {
 			queue.Put(message)
 		}
 	}
@@ -883,10 +906,13 @@ func (p *HsmsProtocol) OnConnectionEstablishedAndStartReceiver(connection *link.
 			continue
 		}
 
-		systemID := binary.BigEndian.Uint32(dataMessage.SystemBytes())
-		if queue, ok := p.fetchQueue(systemID); ok {
-			queue.Put(dataMessage)
-			continue
+		// Only secondary messages are replies: a primary may carry the system bytes of a request of ours.
+		if dataMessage.FunctionCode()%2 == 0 {
+			systemID := binary.BigEndian.Uint32(dataMessage.SystemBytes())
+			if queue, ok := p.fetchQueue(systemID, hsms.DataMessageStr); ok {
+				queue.Put(dataMessage)
+				continue
+			}
 		}
 
 		p.handleDataMessage(dataMessage)
@@ -933,7 +959,7 @@ func (p *HsmsProtocol) SendAndWait(message *ast.DataMessage) (*ast.DataMessage,
 	}
 
 	systemID := p.getNextSystemCounter()
-	queue := p.createQueue(systemID)
+	queue := p.createQueue(systemID, hsms.DataMessageStr)
 	defer p.removeQueue(systemID)
 
 	outgoing := message.SetSessionIDAndSystemBytes(p.sessionID, p.encodeSystemID(systemID))
-- 
2.43.0


From ae14561d799cdbe7db1c07d6240fdadc93aa1b24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:12 +0000
Subject: [PATCH 24/56] fix: send no reply to messages that ask for none

---
 hsms/protocol.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hsms/protocol.go b/hsms/protocol.go
index 441e5cc..ee46925 100644
--- a/hsms/protocol.go
+++ b/hsms/protocol.go
@@ -639,7 +639,7 @@ func (p *HsmsProtocol) invokeHandler(handler DataMessageHandler, msg *ast.DataMe
 		return
 	}
 
-	if response == nil {
+	if response == nil || msg.WaitBit() != "true" {
 		return
 	}
 
-- 
2.43.0


From a01ae1e9d783ee54c6881ed4b224efbc1bf70838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:12 +0000
Subject: [PATCH 25/56] fix: do not answer stray replies with stream 9 errors

---
 hsms/protocol_s9_helpers.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/hsms/protocol_s9_helpers.go b/hsms/protocol_s9_helpers.go
index 1c3505c..b2714ee 100644
--- a/hsms/protocol_s9_helpers.go
+++ b/hsms/protocol_s9_helpers.go
@@ -18,6 +18,12 @@ func (p *HsmsProtocol) sendS9ErrorForUnrecognized(message *ast.DataMessage) {
 		return
 	}
 
+	// A secondary message is a reply nobody waits for (any more), not an unrecognized request
+	if function%2 == 0 {
+		p.logger.Debug("received unexpected reply", "stream", stream, "function", function)
+		return
+	}
+
 	var s9Message *ast.DataMessage
 
 	// Check if it's an unknown stream entirely
-- 
2.43.0


From 05dd45fceebb49d871745b024f0adb85b5368e27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:18 +0000
Subject: [PATCH 26/56] fix: report stream 9 errors that answer a request to
 the callback as well

---
 hsms/protocol.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/hsms/protocol.go b/hsms/protocol.go
index ee46925..0f5c1eb 100644
--- a/hsms/protocol.go
+++ b/hsms/protocol.go
@@ -906,10 +906,14 @@ func (p *HsmsProtocol) OnConnectionEstablishedAndStartReceiver(connection *link.
 			continue
 		}
 
-		// Only secondary messages are replies: a primary may carry the system bytes of a request of ours.
-		if dataMessage.FunctionCode()%2 == 0 {
+		// Only secondary and error messages are replies: a primary may carry the system bytes of a request of ours.
+		isError := dataMessage.StreamCode() == 9
+		if dataMessage.FunctionCode()%2 == 0 || isError {
 			systemID := binary.BigEndian.Uint32(dataMessage.SystemBytes())
 			if queue, ok := p.fetchQueue(systemID, hsms.DataMessageStr); ok {
+				if isError {
+					p.triggerS9ErrorCallback(dataMessage)
+				}
 				queue.Put(dataMessage)
 				continue
 			}
-- 
2.43.0


From 098cdcab9b22f768e49f37025f306583eafcaf77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:54 +0000
Subject: [PATCH 27/56] fix: send zero-length lists for unknown identifiers and
 unavailable values

---
 gem/collection_event_handlers.go |  4 ++--
 gem/process_program_handlers.go  | 10 +++++-----
 gem/remote_command.go            |  2 +-
 gem/status_equipment_handlers.go | 24 ++++++++++++------------
 gem/status_equipment_messages.go | 14 ++++++++++----
 5 files changed, 30 insertions(+), 24 deletions(-)

diff --git a/gem/collection_event_handlers.go b/gem/collection_event_handlers.go
index 6743e92..68a4a41 100644
--- a/gem/collection_event_handlers.go
+++ b/gem/collection_event_handlers.go
@@ -141,7 +141,7 @@ func (g *GemHandler) collectReportValues(report *ReportDefinition) []interface{}
 		if node := g.resolveVIDValue(vidKey); node != nil {
 			values = append(values, node)
 		} else {
-			values = append(values, ast.NewEmptyItemNode())
+			values = append(values, emptyItem())
 		}
 	}
 	return values
@@ -171,7 +171,7 @@ func safeDataVariableValue(variable *DataVariable, logger common.Logger) ast.Ite
 		if err != nil {
 			logger.Error("data variable value error", "dvid", variable.ID(), "error", err)
 		}
-		return ast.NewEmptyItemNode()
+		return emptyItem()
 	}
 	return value
 }
diff --git a/gem/process_program_handlers.go b/gem/process_program_handlers.go
index 4cbf641..17a969f 100644
--- a/gem/process_program_handlers.go
+++ b/gem/process_program_handlers.go
@@ -80,20 +80,20 @@ func (g *GemHandler) onS7F3(msg *ast.DataMessage) (*ast.DataMessage, error) {
 
 func (g *GemHandler) onS7F5(msg *ast.DataMessage) (*ast.DataMessage, error) {
 	if msg == nil {
-		return g.buildS7F6(ast.NewEmptyItemNode(), "", 1), nil
+		return g.buildS7F6(emptyItem(), "", 1), nil
 	}
 	root, err := msg.Get()
 	if err != nil {
-		return g.buildS7F6(ast.NewEmptyItemNode(), "", 1), nil
+		return g.buildS7F6(emptyItem(), "", 1), nil
 	}
 	var ppidNode ast.ItemNode
 	if list, ok := root.(*ast.ListNode); ok {
 		if list.Size() == 0 {
-			return g.buildS7F6(ast.NewEmptyItemNode(), "", 1), nil
+			return g.buildS7F6(emptyItem(), "", 1), nil
 		}
 		first, err := list.Get(0)
 		if err != nil {
-			return g.buildS7F6(ast.NewEmptyItemNode(), "", 1), nil
+			return g.buildS7F6(emptyItem(), "", 1), nil
 		}
 		ppidNode = first
 	} else {
@@ -101,7 +101,7 @@ func (g *GemHandler) onS7F5(msg *ast.DataMessage) (*ast.DataMessage, error) {
 	}
 	ppidInfo, err := newIDInfoFromNode(ppidNode)
 	if err != nil {
-		return g.buildS7F6(ast.NewEmptyItemNode(), "", 1), nil
+		return g.buildS7F6(emptyItem(), "", 1), nil
 	}
 
 	body := ""
diff --git a/gem/remote_command.go b/gem/remote_command.go
index fae4198..32dcb8c 100644
--- a/gem/remote_command.go
+++ b/gem/remote_command.go
@@ -263,7 +263,7 @@ func parseRemoteCommandAck(msg *ast.DataMessage) (RemoteCommandResult, error) {
 func itemNodeFromValue(value interface{}) (ast.ItemNode, error) {
 	switch v := value.(type) {
 	case nil:
-		return ast.NewEmptyItemNode(), nil
+		return emptyItem(), nil
 	case ast.ItemNode:
 		return v, nil
 	case string:
diff --git a/gem/status_equipment_handlers.go b/gem/status_equipment_handlers.go
index a31a1bb..d9eabe0 100644
--- a/gem/status_equipment_handlers.go
+++ b/gem/status_equipment_handlers.go
@@ -124,13 +124,13 @@ func (g *GemHandler) resolveStatusValues(requests []idRequest) []ast.ItemNode {
 	values := make([]ast.ItemNode, 0, len(requests))
 	for _, req := range requests {
 		if !req.ok {
-			values = append(values, ast.NewEmptyItemNode())
+			values = append(values, emptyItem())
 			continue
 		}
 		if variable, ok := g.statusVars[req.info.key]; ok {
 			values = append(values, safeStatusValue(variable, g.logger))
 		} else {
-			values = append(values, ast.NewEmptyItemNode())
+			values = append(values, emptyItem())
 		}
 	}
 	return values
@@ -153,7 +153,7 @@ func (g *GemHandler) resolveStatusInfo(requests []idRequest) []ast.ItemNode {
 	entries := make([]ast.ItemNode, 0, len(requests))
 	for _, req := range requests {
 		if !req.ok {
-			entries = append(entries, ast.NewListNode(ast.NewEmptyItemNode(), ast.NewASCIINode(""), ast.NewASCIINode("")))
+			entries = append(entries, ast.NewListNode(emptyItem(), ast.NewASCIINode(""), ast.NewASCIINode("")))
 			continue
 		}
 		if variable, ok := g.statusVars[req.info.key]; ok {
@@ -172,7 +172,7 @@ func safeStatusValue(variable *StatusVariable, logger common.Logger) ast.ItemNod
 		if err != nil {
 			logger.Error("status variable value error", "svid", variable.ID(), "error", err)
 		}
-		return ast.NewEmptyItemNode()
+		return emptyItem()
 	}
 	return value
 }
@@ -202,13 +202,13 @@ func (g *GemHandler) resolveEquipmentConstantValues(requests []idRequest) []ast.
 	values := make([]ast.ItemNode, 0, len(requests))
 	for _, req := range requests {
 		if !req.ok {
-			values = append(values, ast.NewEmptyItemNode())
+			values = append(values, emptyItem())
 			continue
 		}
 		if constant, ok := g.equipmentConstants[req.info.key]; ok {
 			values = append(values, safeEquipmentConstantValue(constant, g.logger))
 		} else {
-			values = append(values, ast.NewEmptyItemNode())
+			values = append(values, emptyItem())
 		}
 	}
 	return values
@@ -249,7 +249,7 @@ func safeEquipmentConstantValue(constant *EquipmentConstant, logger common.Logge
 		if err != nil {
 			logger.Error("equipment constant value error", "ecid", constant.ID(), "error", err)
 		}
-		return ast.NewEmptyItemNode()
+		return emptyItem()
 	}
 	return value
 }
@@ -257,15 +257,15 @@ func safeEquipmentConstantValue(constant *EquipmentConstant, logger common.Logge
 func buildEquipmentConstantInfoNode(constant *EquipmentConstant) ast.ItemNode {
 	minNode := constant.MinValue
 	if minNode == nil {
-		minNode = ast.NewEmptyItemNode()
+		minNode = emptyItem()
 	}
 	maxNode := constant.MaxValue
 	if maxNode == nil {
-		maxNode = ast.NewEmptyItemNode()
+		maxNode = emptyItem()
 	}
 	defNode := constant.DefaultValue
 	if defNode == nil {
-		defNode = ast.NewEmptyItemNode()
+		defNode = emptyItem()
 	}
 
 	return ast.NewListNode(
@@ -279,11 +279,11 @@ func buildEquipmentConstantInfoNode(constant *EquipmentConstant) ast.ItemNode {
 }
 
 func emptyEquipmentConstantInfo(req idRequest) ast.ItemNode {
-	idNode := ast.NewEmptyItemNode()
+	idNode := emptyItem()
 	if req.ok {
 		idNode = req.info.node
 	}
-	return ast.NewListNode(idNode, ast.NewASCIINode(""), ast.NewEmptyItemNode(), ast.NewEmptyItemNode(), ast.NewEmptyItemNode(), ast.NewASCIINode(""))
+	return ast.NewListNode(idNode, ast.NewASCIINode(""), emptyItem(), emptyItem(), emptyItem(), ast.NewASCIINode(""))
 }
 
 func parseIDRequestList(msg *ast.DataMessage) ([]idRequest, error) {
diff --git a/gem/status_equipment_messages.go b/gem/status_equipment_messages.go
index 55e4683..839d2ca 100644
--- a/gem/status_equipment_messages.go
+++ b/gem/status_equipment_messages.go
@@ -6,6 +6,12 @@ import (
 	"github.com/younglifestyle/secs4go/lib-secs2-hsms-go/pkg/ast"
 )
 
+// emptyItem stands for an unknown identifier or an unavailable value: a list of no items. The empty item node
+// would be no item at all, and a list holding it could not be encoded.
+func emptyItem() ast.ItemNode {
+	return ast.NewListNode()
+}
+
 func (g *GemHandler) buildS1F3(ids []idInfo) *ast.DataMessage {
 	items := make([]interface{}, 0, len(ids))
 	for _, id := range ids {
@@ -19,7 +25,7 @@ func (g *GemHandler) buildS1F4(values []ast.ItemNode) *ast.DataMessage {
 	nodes := make([]interface{}, 0, len(values))
 	for _, value := range values {
 		if value == nil {
-			nodes = append(nodes, ast.NewEmptyItemNode())
+			nodes = append(nodes, emptyItem())
 		} else {
 			nodes = append(nodes, value)
 		}
@@ -59,7 +65,7 @@ func (g *GemHandler) buildS2F14(values []ast.ItemNode) *ast.DataMessage {
 	nodes := make([]interface{}, 0, len(values))
 	for _, value := range values {
 		if value == nil {
-			nodes = append(nodes, ast.NewEmptyItemNode())
+			nodes = append(nodes, emptyItem())
 		} else {
 			nodes = append(nodes, value)
 		}
@@ -199,7 +205,7 @@ func (g *GemHandler) buildS6F16(dataID int, ceNode ast.ItemNode, reports []ast.I
 	for _, rpt := range reports {
 		reportNodes = append(reportNodes, rpt)
 	}
-	var ceItem ast.ItemNode = ast.NewEmptyItemNode()
+	var ceItem ast.ItemNode = emptyItem()
 	if ceNode != nil {
 		ceItem = ceNode
 	}
@@ -228,7 +234,7 @@ func (g *GemHandler) buildS7F5(ppid idInfo) *ast.DataMessage {
 func (g *GemHandler) buildS7F6(ppid ast.ItemNode, programBody string, ack int) *ast.DataMessage {
 	ppidNode := ppid
 	if ppidNode == nil {
-		ppidNode = ast.NewEmptyItemNode()
+		ppidNode = emptyItem()
 	}
 	bodyNode := ast.NewASCIINode(programBody)
 	if ack != 0 {
-- 
2.43.0


From b0f60d8a42a3afa9841544aa60694b5ebea02399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:03 +0000
Subject: [PATCH 28/56] fix: validate all equipment constants of an S2F15
 before changing any

---
 gem/equipment_constants.go       | 23 ++++++++++++++++++-----
 gem/status_equipment_handlers.go | 10 +++++++++-
 2 files changed, 27 insertions(+), 6 deletions(-)

diff --git a/gem/equipment_constants.go b/gem/equipment_constants.go
index 7c6a75d..98507bf 100644
--- a/gem/equipment_constants.go
+++ b/gem/equipment_constants.go
@@ -137,21 +137,34 @@ func (ec *EquipmentConstant) Value() (ast.ItemNode, error) {
 
 // ApplyValue stores or forwards a new value.
 func (ec *EquipmentConstant) ApplyValue(node ast.ItemNode) error {
+	if err := ec.validate(node); err != nil {
+		return err
+	}
+	return ec.update(node)
+}
+
+// validate tells whether a new value is acceptable.
+func (ec *EquipmentConstant) validate(node ast.ItemNode) error {
 	if node == nil {
 		return fmt.Errorf("nil value provided for equipment constant %v", ec.ID())
 	}
 
 	ec.mu.RLock()
 	validator := ec.validator
-	updater := ec.updater
-	provider := ec.provider
 	ec.mu.RUnlock()
 
 	if validator != nil {
-		if err := validator(node); err != nil {
-			return err
-		}
+		return validator(node)
 	}
+	return nil
+}
+
+// update stores or forwards a validated value.
+func (ec *EquipmentConstant) update(node ast.ItemNode) error {
+	ec.mu.RLock()
+	updater := ec.updater
+	provider := ec.provider
+	ec.mu.RUnlock()
 
 	if updater != nil {
 		if err := updater(node); err != nil {
diff --git a/gem/status_equipment_handlers.go b/gem/status_equipment_handlers.go
index d9eabe0..6b3b21b 100644
--- a/gem/status_equipment_handlers.go
+++ b/gem/status_equipment_handlers.go
@@ -395,7 +395,15 @@ func (g *GemHandler) applyEquipmentConstantUpdates(updates []equipmentConstantUp
 
 	for _, upd := range updates {
 		constant := g.equipmentConstants[upd.id.key]
-		if err := constant.ApplyValue(upd.value); err != nil {
+		if err := constant.validate(upd.value); err != nil {
+			g.logger.Warn("equipment constant update rejected", "ecid", constant.ID(), "error", err)
+			return ECACKValidationError
+		}
+	}
+
+	for _, upd := range updates {
+		constant := g.equipmentConstants[upd.id.key]
+		if err := constant.update(upd.value); err != nil {
 			g.logger.Warn("equipment constant update rejected", "ecid", constant.ID(), "error", err)
 			return ECACKValidationError
 		}
-- 
2.43.0


From 76ccafd1adb65dc96b3bda598df304ef1cf7b841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:03 +0000
Subject: [PATCH 29/56] fix: let the operator take HOST_OFFLINE equipment to
 EQUIPMENT_OFFLINE

---
 gem/control_state_machine.go | 2 +-
 gem/handler.go               | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/gem/control_state_machine.go b/gem/control_state_machine.go
index 796f18a..4e2eed3 100644
--- a/gem/control_state_machine.go
+++ b/gem/control_state_machine.go
@@ -119,7 +119,7 @@ func (sm *ControlStateMachine) SwitchOffline() error {
 	sm.mu.Lock()
 	defer sm.mu.Unlock()
 
-	if !sm.isOnlineStateLocked() {
+	if !sm.isOnlineStateLocked() && sm.state != ControlStateHostOffline {
 		return sm.invalidTransitionLocked("switch_offline")
 	}
 	sm.state = ControlStateEquipmentOffline
diff --git a/gem/handler.go b/gem/handler.go
index 844c2e4..eb4c476 100644
--- a/gem/handler.go
+++ b/gem/handler.go
@@ -281,13 +281,13 @@ func (g *GemHandler) SwitchControlOnline() error {
 	})
 }
 
-// SwitchControlOffline requests transition from ONLINE back to EQUIPMENT_OFFLINE.
+// SwitchControlOffline requests transition from ONLINE or HOST_OFFLINE to EQUIPMENT_OFFLINE.
 func (g *GemHandler) SwitchControlOffline() error {
 	if g.control == nil {
 		return ErrOperationNotSupported
 	}
 	return g.transitionControl(func(sm *ControlStateMachine) error {
-		if sm.IsOnlineState() {
+		if sm.IsOnlineState() || sm.State() == ControlStateHostOffline {
 			return sm.SwitchOffline()
 		}
 		return nil
-- 
2.43.0


From 300a533ac21205c3cdd0161b77e0889325fd448e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:22 +0000
Subject: [PATCH 30/56] fix: end communication with its link and keep it
 through late handshake results

---
 gem/communication_state.go | 27 ++++++++++++++++++++++++++-
 gem/handler.go             | 22 ++++++++++++++++++----
 hsms/protocol.go           |  5 +++++
 3 files changed, 49 insertions(+), 5 deletions(-)

diff --git a/gem/communication_state.go b/gem/communication_state.go
index a4e8b37..07cab35 100644
--- a/gem/communication_state.go
+++ b/gem/communication_state.go
@@ -46,9 +46,29 @@ func (sm *stateMachine) setState(state CommunicationState) (prev CommunicationSt
 	return prev
 }
 
-func (sm *stateMachine) setStateWithWaitCRA(state CommunicationState, duration time.Duration, timeout func()) {
+// setCommunicating enters COMMUNICATING if the link allows it.
+func (sm *stateMachine) setCommunicating(allowed func() bool) (prev CommunicationState, ok bool) {
 	sm.mu.Lock()
 	defer sm.mu.Unlock()
+
+	prev = sm.state
+	if !allowed() {
+		return prev, false
+	}
+	if prev != CommunicationStateCommunicating {
+		sm.state = CommunicationStateCommunicating
+		sm.stopTimersLocked()
+	}
+	return prev, true
+}
+
+// setStateWithWaitCRA reports false if communication has been established meanwhile.
+func (sm *stateMachine) setStateWithWaitCRA(state CommunicationState, duration time.Duration, timeout func()) bool {
+	sm.mu.Lock()
+	defer sm.mu.Unlock()
+	if sm.state == CommunicationStateCommunicating {
+		return false
+	}
 	if sm.state == state {
 		sm.stopWaitCRALocked()
 	} else {
@@ -56,11 +76,16 @@ func (sm *stateMachine) setStateWithWaitCRA(state CommunicationState, duration t
 		sm.stopTimersLocked()
 	}
 	sm.waitCRATimer = time.AfterFunc(duration, timeout)
+	return true
 }
 
+// setStateWithWaitDelay does nothing if communication has been established meanwhile.
 func (sm *stateMachine) setStateWithWaitDelay(state CommunicationState, duration time.Duration, timeout func()) {
 	sm.mu.Lock()
 	defer sm.mu.Unlock()
+	if sm.state == CommunicationStateCommunicating {
+		return
+	}
 	if sm.state == state {
 		sm.stopWaitDelayLocked()
 	} else {
diff --git a/gem/handler.go b/gem/handler.go
index eb4c476..a8eebcd 100644
--- a/gem/handler.go
+++ b/gem/handler.go
@@ -147,6 +147,8 @@ func NewGemHandler(opts Options) (*GemHandler, error) {
 		})
 	}
 
+	handler.protocol.OnDisconnected = handler.onDisconnected
+
 	handler.protocol.SetLogger(handler.logger)
 	handler.protocol.ConfigureLogging(opts.Logging.toConfig(nil))
 
@@ -560,8 +562,7 @@ func (g *GemHandler) observe() {
 	}
 
 	if !g.protocol.Connected() {
-		g.handshakeInProgress.Store(false)
-		g.setCommunicationState(CommunicationStateNotCommunicating)
+		g.onDisconnected()
 		return
 	}
 
@@ -587,6 +588,12 @@ func (g *GemHandler) observe() {
 	}
 }
 
+// onDisconnected ends communication: it has to be established anew on the next link.
+func (g *GemHandler) onDisconnected() {
+	g.handshakeInProgress.Store(false)
+	g.setCommunicationState(CommunicationStateNotCommunicating)
+}
+
 func (g *GemHandler) ensureCommunicating() error {
 	if g.State() != CommunicationStateCommunicating {
 		return ErrNotCommunicating
@@ -611,7 +618,9 @@ func (g *GemHandler) initiateHandshake() {
 			waitCRA = 45 * time.Second
 		}
 
-		g.state.setStateWithWaitCRA(CommunicationStateWaitCRA, waitCRA, g.onWaitCRATimeout)
+		if !g.state.setStateWithWaitCRA(CommunicationStateWaitCRA, waitCRA, g.onWaitCRATimeout) {
+			return
+		}
 
 		dataMsg, err := g.protocol.SendAndWait(g.buildS1F13())
 		if err != nil {
@@ -638,7 +647,12 @@ func (g *GemHandler) scheduleRetry() {
 }
 
 func (g *GemHandler) setCommunicating() {
-	prev := g.state.setState(CommunicationStateCommunicating)
+	prev, ok := g.state.setCommunicating(func() bool {
+		return g.enabled.Load() && g.protocol.CurrentState() == hsms.StateConnectedSelected
+	})
+	if !ok {
+		return
+	}
 	if prev != CommunicationStateCommunicating {
 		g.notifyCommunicating()
 	}
diff --git a/hsms/protocol.go b/hsms/protocol.go
index 0f5c1eb..a5ff2b2 100644
--- a/hsms/protocol.go
+++ b/hsms/protocol.go
@@ -120,6 +120,8 @@ type HsmsProtocol struct {
 	// Callbacks
 	// OnS9Error is called when an S9 error message is sent or received
 	OnS9Error func(errorInfo *S9ErrorInfo)
+	// OnDisconnected is called when the connection is lost or closed
+	OnDisconnected func()
 }
 
 // NewHsmsProtocol creates a new HsmsProtocol instance.
@@ -257,6 +259,9 @@ func (p *HsmsProtocol) onStateDisconnect(ctx context.Context, _ *fsm.Event) {
 	p.connected.Store(false)
 	p.stopLinktestTimer()
 	p.stopT7Timer()
+	if p.OnDisconnected != nil {
+		p.OnDisconnected()
+	}
 	if p.enabled.Load() {
 		if p.connectThreadRunning.CompareAndSwap(false, true) {
 			go p.startConnectThread()
-- 
2.43.0


From 1c20d0f405e3fca1b8b945143b64717287a6a6d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:22 +0000
Subject: [PATCH 31/56] fix: take only an S1F14 as the answer to S1F13

---
 gem/handler.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gem/handler.go b/gem/handler.go
index a8eebcd..ba1480a 100644
--- a/gem/handler.go
+++ b/gem/handler.go
@@ -901,7 +901,7 @@ func (g *GemHandler) buildS1F18(onlack int) *ast.DataMessage {
 }
 
 func readCommAck(msg *ast.DataMessage) int {
-	if msg == nil {
+	if msg == nil || msg.StreamCode() != 1 || msg.FunctionCode() != 14 {
 		return -1
 	}
 	item, err := msg.Get(0)
-- 
2.43.0


From c07795de308c0c90b617d1a07207d9d99330350f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:10 +0000
Subject: [PATCH 32/56] fix: support identifiers beyond 32 bits and refuse
 non-ASCII ones instead of panicking

---
 gem/id_utils.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/gem/id_utils.go b/gem/id_utils.go
index 299d75b..722b135 100644
--- a/gem/id_utils.go
+++ b/gem/id_utils.go
@@ -50,6 +50,11 @@ func newIDInfo(value interface{}) (idInfo, error) {
 		}
 		return newIDInfoFromUint(uint64(v))
 	case string:
+		for i := 0; i < len(v); i++ {
+			if v[i] > 127 {
+				return idInfo{}, fmt.Errorf("identifier %q is not ASCII", v)
+			}
+		}
 		return idInfo{raw: v, node: ast.NewASCIINode(v), key: fmt.Sprintf("S:%s", v)}, nil
 	default:
 		return idInfo{}, fmt.Errorf("unsupported identifier type %T", value)
@@ -57,7 +62,11 @@ func newIDInfo(value interface{}) (idInfo, error) {
 }
 
 func newIDInfoFromUint(value uint64) (idInfo, error) {
-	node := ast.NewUintNode(4, value)
+	byteSize := 4
+	if value > 0xFFFFFFFF {
+		byteSize = 8
+	}
+	node := ast.NewUintNode(byteSize, value)
 	return idInfo{raw: value, node: node, key: fmt.Sprintf("N:%d", value)}, nil
 }
 
-- 
2.43.0


From 9f7a2ae5123643b3e8f4f794512e8820c55dca11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:11 +0000
Subject: [PATCH 33/56] fix: refuse an S2F33 that defines the same report twice

---
 gem/collection_event_handlers.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/gem/collection_event_handlers.go b/gem/collection_event_handlers.go
index 68a4a41..80e2589 100644
--- a/gem/collection_event_handlers.go
+++ b/gem/collection_event_handlers.go
@@ -198,10 +198,18 @@ func (g *GemHandler) handleReportDefinitions(reports []reportDefinitionMessage)
 	g.reportMu.Lock()
 	defer g.reportMu.Unlock()
 
+	defined := make(map[string]struct{})
 	for _, rpt := range reports {
-		if _, exists := g.reports[rpt.id.key]; exists && len(rpt.vids) > 0 {
+		if len(rpt.vids) == 0 {
+			continue
+		}
+		if _, exists := g.reports[rpt.id.key]; exists {
+			return DRACKRPTIDRedefined
+		}
+		if _, repeated := defined[rpt.id.key]; repeated {
 			return DRACKRPTIDRedefined
 		}
+		defined[rpt.id.key] = struct{}{}
 	}
 
 	for _, rpt := range reports {
-- 
2.43.0


From 1cde04db57084ec01765695122e2edc731bc3fe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:11 +0000
Subject: [PATCH 34/56] fix: refuse an S2F35 that links the same report to an
 event twice

---
 gem/collection_event_handlers.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/gem/collection_event_handlers.go b/gem/collection_event_handlers.go
index 80e2589..1a5aad7 100644
--- a/gem/collection_event_handlers.go
+++ b/gem/collection_event_handlers.go
@@ -277,6 +277,8 @@ func (g *GemHandler) handleEventReportLinks(links []eventReportLinkMessage) LRAC
 	g.reportMu.Lock()
 	defer g.reportMu.Unlock()
 
+	type pair struct{ ceid, rptid string }
+	named := make(map[pair]struct{})
 	for _, link := range links {
 		if _, ok := g.collectionEvents[link.ceid.key]; !ok {
 			return LRACKCEIDDoesNotExist
@@ -285,6 +287,10 @@ func (g *GemHandler) handleEventReportLinks(links []eventReportLinkMessage) LRAC
 			if _, ok := g.reports[rpt.key]; !ok {
 				return LRACKRPTIDDoesNotExist
 			}
+			if _, repeated := named[pair{link.ceid.key, rpt.key}]; repeated {
+				return LRACKCEIDAlreadyLinked
+			}
+			named[pair{link.ceid.key, rpt.key}] = struct{}{}
 			if existing, ok := g.eventLinks[link.ceid.key]; ok {
 				for _, existingRpt := range existing.reports {
 					if existingRpt == rpt.key {
-- 
2.43.0


From 28775f89d135c6f9fdb392dfab80a7a1b97a2977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:12 +0000
Subject: [PATCH 35/56] fix: check all events of an S2F37 before switching any

---
 gem/collection_event_handlers.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/gem/collection_event_handlers.go b/gem/collection_event_handlers.go
index 1a5aad7..db9efe2 100644
--- a/gem/collection_event_handlers.go
+++ b/gem/collection_event_handlers.go
@@ -343,12 +343,13 @@ func (g *GemHandler) setCollectionEventState(enable bool, ceids []idInfo) ERACKC
 	}
 
 	for _, ce := range ceids {
-		if link, ok := g.eventLinks[ce.key]; ok {
-			link.enabled = enable
-		} else {
+		if _, ok := g.eventLinks[ce.key]; !ok {
 			return ERACKCEIDUnknown
 		}
 	}
+	for _, ce := range ceids {
+		g.eventLinks[ce.key].enabled = enable
+	}
 	return ERACKAccepted
 }
 
-- 
2.43.0


From 72f9ec7c9d1ada7720baf5eaa146ea6f74a04136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:18 +0000
Subject: [PATCH 36/56] fix: refuse S2F41 with malformed parameters instead of
 dropping them

---
 gem/remote_command.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/gem/remote_command.go b/gem/remote_command.go
index 32dcb8c..f838864 100644
--- a/gem/remote_command.go
+++ b/gem/remote_command.go
@@ -147,28 +147,28 @@ func parseRemoteCommand(msg *ast.DataMessage) (RemoteCommandRequest, error) {
 
 	list, ok := paramsNode.(*ast.ListNode)
 	if !ok {
-		return req, nil
+		return RemoteCommandRequest{}, fmt.Errorf("gem: parameter list expected, got %s", paramsNode.Type())
 	}
 
 	for i := 0; i < list.Size(); i++ {
 		entryNode, err := list.Get(i)
 		if err != nil {
-			continue
+			return RemoteCommandRequest{}, fmt.Errorf("gem: parameter %d: %w", i, err)
 		}
 
 		entry, ok := entryNode.(*ast.ListNode)
 		if !ok || entry.Size() == 0 {
-			continue
+			return RemoteCommandRequest{}, fmt.Errorf("gem: parameter %d is no name and value", i)
 		}
 
 		nameNode, err := entry.Get(0)
 		if err != nil {
-			continue
+			return RemoteCommandRequest{}, fmt.Errorf("gem: parameter %d: %w", i, err)
 		}
 
 		nameInfo, err := newIDInfoFromNode(nameNode)
 		if err != nil {
-			continue
+			return RemoteCommandRequest{}, fmt.Errorf("gem: invalid CPNAME: %w", err)
 		}
 
 		value := ast.NewEmptyItemNode()
-- 
2.43.0


From 27366808fccb54d76c1b8c1943dcbc9c11a28704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:18 +0000
Subject: [PATCH 37/56] fix: build alarm and clock replies with a valid
 direction

---
 gem/alarm_handlers.go | 6 +++---
 gem/clock_handlers.go | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/gem/alarm_handlers.go b/gem/alarm_handlers.go
index bb5ade2..1a8a932 100644
--- a/gem/alarm_handlers.go
+++ b/gem/alarm_handlers.go
@@ -119,7 +119,7 @@ func (g *GemHandler) onS5F7(msg *ast.DataMessage) (*ast.DataMessage, error) {
 //   3 - At least one ALID cannot be enabled
 func (g *GemHandler) buildS5F4(ackc5 byte) *ast.DataMessage {
 	body := ast.NewBinaryNode(int(ackc5))
-	return ast.NewDataMessage("EnableAlarmAck", 5, 4, 0, "E->H", body)
+	return ast.NewDataMessage("EnableAlarmAck", 5, 4, 0, "H<-E", body)
 }
 
 // buildS5F6 creates S5F6 response with alarm list.
@@ -146,7 +146,7 @@ func (g *GemHandler) buildS5F6(alarms []AlarmInfo) *ast.DataMessage {
 	}
 
 	body := ast.NewListNode(items...)
-	return ast.NewDataMessage("AlarmListData", 5, 6, 0, "E->H", body)
+	return ast.NewDataMessage("AlarmListData", 5, 6, 0, "H<-E", body)
 }
 
 // buildS5F8 creates S5F8 response with enabled alarm list (same format as S5F6).
@@ -169,7 +169,7 @@ func (g *GemHandler) buildS5F8(alarms []AlarmInfo) *ast.DataMessage {
 	}
 
 	body := ast.NewListNode(items...)
-	return ast.NewDataMessage("EnabledAlarmListData", 5, 8, 0, "E->H", body)
+	return ast.NewDataMessage("EnabledAlarmListData", 5, 8, 0, "H<-E", body)
 }
 
 // Public APIs for alarm management (Equipment side)
diff --git a/gem/clock_handlers.go b/gem/clock_handlers.go
index cf81a7c..3761ad5 100644
--- a/gem/clock_handlers.go
+++ b/gem/clock_handlers.go
@@ -15,7 +15,7 @@ func (g *GemHandler) onS2F17(msg *ast.DataMessage) (*ast.DataMessage, error) {
 
 	// Build S2F18 response
 	body := ast.NewASCIINode(timeStr)
-	return ast.NewDataMessage("DateTimeData", 2, 18, 0, "E->H", body), nil
+	return ast.NewDataMessage("DateTimeData", 2, 18, 0, "H<-E", body), nil
 }
 
 // onS2F31 handles Date and Time Set Request (Equipment side).
@@ -54,7 +54,7 @@ func (g *GemHandler) onS2F31(msg *ast.DataMessage) (*ast.DataMessage, error) {
 // buildS2F32 creates S2F32 response with TIACK code.
 func (g *GemHandler) buildS2F32(tiack byte) *ast.DataMessage {
 	body := ast.NewBinaryNode(int(tiack))
-	return ast.NewDataMessage("DateTimeSetAck", 2, 32, 0, "E->H", body)
+	return ast.NewDataMessage("DateTimeSetAck", 2, 32, 0, "H<-E", body)
 }
 
 // Public APIs for clock management
-- 
2.43.0


From 7f6b9b17f27f94392f1a00b2ecd23a7bfd0cc0c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:52 +0000
Subject: [PATCH 38/56] fix: refuse alarm identifiers without a value instead
 of taking them for alarm 0

---
 gem/alarm.go          | 32 +++++++++++++++++++-------------
 gem/alarm_client.go   | 17 +++--------------
 gem/alarm_handlers.go | 15 ++-------------
 3 files changed, 24 insertions(+), 40 deletions(-)

diff --git a/gem/alarm.go b/gem/alarm.go
index 4f693fb..c0e63a1 100644
--- a/gem/alarm.go
+++ b/gem/alarm.go
@@ -2,6 +2,7 @@ package gem
 
 import (
 	"fmt"
+	"math"
 	"sort"
 
 	"github.com/younglifestyle/secs4go/lib-secs2-hsms-go/pkg/ast"
@@ -163,19 +164,9 @@ func parseAlarmMessage(msg *ast.DataMessage) (AlarmEvent, error) {
 	if err != nil {
 		return event, fmt.Errorf("gem: malformed S5F1 ALID: %w", err)
 	}
-	switch typed := alidNode.(type) {
-	case *ast.UintNode:
-		values, _ := typed.Values().([]uint64)
-		if len(values) > 0 {
-			event.ID = int(values[0])
-		}
-	case *ast.IntNode:
-		values, _ := typed.Values().([]int64)
-		if len(values) > 0 {
-			event.ID = int(values[0])
-		}
-	default:
-		return event, fmt.Errorf("gem: unsupported ALID type %T", alidNode)
+	event.ID, err = readAlarmID(alidNode)
+	if err != nil {
+		return event, err
 	}
 
 	altxNode, err := msg.Get(2)
@@ -189,3 +180,18 @@ func parseAlarmMessage(msg *ast.DataMessage) (AlarmEvent, error) {
 
 	return event, nil
 }
+
+// readAlarmID returns the single alarm identifier held by an ALID item.
+func readAlarmID(node ast.ItemNode) (int, error) {
+	switch typed := node.(type) {
+	case *ast.UintNode:
+		if values, _ := typed.Values().([]uint64); len(values) == 1 && values[0] <= math.MaxInt {
+			return int(values[0]), nil
+		}
+	case *ast.IntNode:
+		if values, _ := typed.Values().([]int64); len(values) == 1 && values[0] >= 0 {
+			return int(values[0]), nil
+		}
+	}
+	return 0, fmt.Errorf("gem: invalid ALID %v", node)
+}
diff --git a/gem/alarm_client.go b/gem/alarm_client.go
index 371c936..af5f656 100644
--- a/gem/alarm_client.go
+++ b/gem/alarm_client.go
@@ -128,20 +128,9 @@ func parseAlarmListResponse(msg *ast.DataMessage) ([]AlarmInfo, error) {
 		if err != nil {
 			continue
 		}
-		var alid int
-		switch typed := alidNode.(type) {
-		case *ast.UintNode:
-			values, _ := typed.Values().([]uint64)
-			if len(values) > 0 {
-				alid = int(values[0])
-			}
-		case *ast.IntNode:
-			values, _ := typed.Values().([]int64)
-			if len(values) > 0 {
-				alid = int(values[0])
-			}
-		default:
-			continue
+		alid, err := readAlarmID(alidNode)
+		if err != nil {
+			return nil, err
 		}
 
 		// Parse ALTX (index 2)
diff --git a/gem/alarm_handlers.go b/gem/alarm_handlers.go
index 1a8a932..98bf3e0 100644
--- a/gem/alarm_handlers.go
+++ b/gem/alarm_handlers.go
@@ -48,19 +48,8 @@ func (g *GemHandler) onS5F3(msg *ast.DataMessage) (*ast.DataMessage, error) {
 			continue
 		}
 
-		var id int
-		switch typed := alidNode.(type) {
-		case *ast.UintNode:
-			values, _ := typed.Values().([]uint64)
-			if len(values) > 0 {
-				id = int(values[0])
-			}
-		case *ast.IntNode:
-			values, _ := typed.Values().([]int64)
-			if len(values) > 0 {
-				id = int(values[0])
-			}
-		default:
+		id, err := readAlarmID(alidNode)
+		if err != nil {
 			return g.buildS5F4(1), nil
 		}
 
-- 
2.43.0


From 6b12ba863c16e5b113ab4cfb995516c226a2f45d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:52 +0000
Subject: [PATCH 39/56] fix: send alarm identifiers above 65535 instead of
 panicking

---
 gem/alarm.go          | 10 +++++++++-
 gem/alarm_client.go   |  2 +-
 gem/alarm_handlers.go |  4 ++--
 3 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/gem/alarm.go b/gem/alarm.go
index c0e63a1..30f5d1a 100644
--- a/gem/alarm.go
+++ b/gem/alarm.go
@@ -126,7 +126,7 @@ func (g *GemHandler) buildS5F1(alarm Alarm, set bool) *ast.DataMessage {
 
 	body := ast.NewListNode(
 		ast.NewBinaryNode(alcd),
-		ast.NewUintNode(2, alarm.ID),
+		alarmIDNode(2, alarm.ID),
 		ast.NewASCIINode(alarm.Text),
 	)
 
@@ -195,3 +195,11 @@ func readAlarmID(node ast.ItemNode) (int, error) {
 	}
 	return 0, fmt.Errorf("gem: invalid ALID %v", node)
 }
+
+// alarmIDNode encodes an alarm identifier in byteSize bytes, or more if it needs them.
+func alarmIDNode(byteSize int, id int) ast.ItemNode {
+	if needed := unsignedByteSize(uint64(id)); needed > byteSize {
+		byteSize = needed
+	}
+	return ast.NewUintNode(byteSize, id)
+}
diff --git a/gem/alarm_client.go b/gem/alarm_client.go
index af5f656..49699f1 100644
--- a/gem/alarm_client.go
+++ b/gem/alarm_client.go
@@ -21,7 +21,7 @@ func (h *GemHandler) SendEnableAlarm(alarmIDs []int, enable bool) (byte, error)
 	// Build ALID list
 	alidItems := make([]interface{}, len(alarmIDs))
 	for i, id := range alarmIDs {
-		alidItems[i] = ast.NewUintNode(4, id)
+		alidItems[i] = alarmIDNode(4, id)
 	}
 
 	// ALED: 128=Enable, 0=Disable
diff --git a/gem/alarm_handlers.go b/gem/alarm_handlers.go
index 98bf3e0..be6fa2e 100644
--- a/gem/alarm_handlers.go
+++ b/gem/alarm_handlers.go
@@ -129,7 +129,7 @@ func (g *GemHandler) buildS5F6(alarms []AlarmInfo) *ast.DataMessage {
 
 		items[i] = ast.NewListNode(
 			ast.NewBinaryNode(alcd),
-			ast.NewUintNode(4, a.ID),
+			alarmIDNode(4, a.ID),
 			ast.NewASCIINode(a.Text),
 		)
 	}
@@ -152,7 +152,7 @@ func (g *GemHandler) buildS5F8(alarms []AlarmInfo) *ast.DataMessage {
 
 		items[i] = ast.NewListNode(
 			ast.NewBinaryNode(alcd),
-			ast.NewUintNode(4, a.ID),
+			alarmIDNode(4, a.ID),
 			ast.NewASCIINode(a.Text),
 		)
 	}
-- 
2.43.0


From 3f2d538bd0cab32642405ecfeb0ecd76fb3915ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:52 +0000
Subject: [PATCH 40/56] fix: keep binary bodies of uploaded process programs

---
 gem/process_program_handlers.go |  8 ++----
 gem/status_equipment_client.go  | 49 +++++++++++++++++++--------------
 2 files changed, 31 insertions(+), 26 deletions(-)

diff --git a/gem/process_program_handlers.go b/gem/process_program_handlers.go
index 17a969f..53b3f18 100644
--- a/gem/process_program_handlers.go
+++ b/gem/process_program_handlers.go
@@ -55,11 +55,9 @@ func (g *GemHandler) onS7F3(msg *ast.DataMessage) (*ast.DataMessage, error) {
 	if err != nil {
 		return g.buildS7F4(1), nil
 	}
-	body := ""
-	if ascii, ok := bodyNode.(*ast.ASCIINode); ok {
-		if val, ok := ascii.Values().(string); ok {
-			body = val
-		}
+	body, err := readProcessProgramBody(bodyNode)
+	if err != nil {
+		return g.buildS7F4(1), nil
 	}
 
 	ack := 0
diff --git a/gem/status_equipment_client.go b/gem/status_equipment_client.go
index 5c23552..933398d 100644
--- a/gem/status_equipment_client.go
+++ b/gem/status_equipment_client.go
@@ -591,27 +591,9 @@ func parseProcessProgramResponse(msg *ast.DataMessage) (string, int, error) {
 		return "", -1, err
 	}
 
-	var bodyStr string
-	switch v := bodyNode.(type) {
-	case *ast.ASCIINode:
-		if val, ok := v.Values().(string); ok {
-			bodyStr = val
-		} else {
-			return "", -1, fmt.Errorf("invalid ASCII PPBODY payload type %T", v.Values())
-		}
-	case *ast.BinaryNode:
-		ints, ok := v.Values().([]int)
-		if !ok {
-			return "", -1, fmt.Errorf("invalid Binary PPBODY payload type %T", v.Values())
-		}
-		bin := make([]byte, len(ints))
-		for i, n := range ints {
-			bin[i] = byte(n)
-		}
-		// 保持原 API 返回 string：按 UTF-8 转换（若为非文本内容，你可另加 Raw 版本返回 []byte）
-		bodyStr = string(bin)
-	default:
-		return "", -1, fmt.Errorf("unsupported PPBODY node type %T", bodyNode)
+	bodyStr, err := readProcessProgramBody(bodyNode)
+	if err != nil {
+		return "", -1, err
 	}
 
 	// entries[2]（可选）= ACK（二进制 1 字节）。没有就默认 0。
@@ -633,6 +615,31 @@ func parseProcessProgramResponse(msg *ast.DataMessage) (string, int, error) {
 	return bodyStr, ack, nil
 }
 
+// readProcessProgramBody returns the bytes of a PPBODY item as a string.
+func readProcessProgramBody(bodyNode ast.ItemNode) (string, error) {
+	switch v := bodyNode.(type) {
+	case *ast.ASCIINode:
+		val, ok := v.Values().(string)
+		if !ok {
+			return "", fmt.Errorf("invalid ASCII PPBODY payload type %T", v.Values())
+		}
+		return val, nil
+	case *ast.BinaryNode:
+		ints, ok := v.Values().([]int)
+		if !ok {
+			return "", fmt.Errorf("invalid Binary PPBODY payload type %T", v.Values())
+		}
+		bin := make([]byte, len(ints))
+		for i, n := range ints {
+			bin[i] = byte(n)
+		}
+		// 保持原 API 返回 string：按 UTF-8 转换（若为非文本内容，你可另加 Raw 版本返回 []byte）
+		return string(bin), nil
+	default:
+		return "", fmt.Errorf("unsupported PPBODY node type %T", bodyNode)
+	}
+}
+
 // Clock synchronization APIs (Host side)
 
 // RequestDateTime sends S2F17 to query equipment time.
-- 
2.43.0


From 495a5dc7ccc4addce14515167446f8dd830a826e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:52 +0000
Subject: [PATCH 41/56] fix: send process programs that are no ASCII text as
 binary instead of panicking

---
 gem/status_equipment_messages.go | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/gem/status_equipment_messages.go b/gem/status_equipment_messages.go
index 839d2ca..e41c9d2 100644
--- a/gem/status_equipment_messages.go
+++ b/gem/status_equipment_messages.go
@@ -215,7 +215,7 @@ func (g *GemHandler) buildS6F16(dataID int, ceNode ast.ItemNode, reports []ast.I
 }
 
 func (g *GemHandler) buildS7F3(ppid idInfo, programBody string) *ast.DataMessage {
-	payload := ast.NewListNode(ppid.node, ast.NewASCIINode(programBody))
+	payload := ast.NewListNode(ppid.node, processProgramBodyNode(programBody))
 	return ast.NewDataMessage("ProcessProgramSend", 7, 3, 1, "H->E", payload)
 }
 
@@ -236,7 +236,7 @@ func (g *GemHandler) buildS7F6(ppid ast.ItemNode, programBody string, ack int) *
 	if ppidNode == nil {
 		ppidNode = emptyItem()
 	}
-	bodyNode := ast.NewASCIINode(programBody)
+	bodyNode := processProgramBodyNode(programBody)
 	if ack != 0 {
 		bodyNode = ast.NewASCIINode("")
 	}
@@ -250,3 +250,14 @@ func (g *GemHandler) buildS7F6(ppid ast.ItemNode, programBody string, ack int) *
 	payload := ast.NewListNode(ppidNode, bodyNode, ackNode)
 	return ast.NewDataMessage("ProcessProgramData", 7, 6, 0, "H<-E", payload)
 }
+
+// processProgramBodyNode encodes a program body: as text, or as binary if it is no ASCII text.
+func processProgramBodyNode(body string) ast.ItemNode {
+	for i := 0; i < len(body); i++ {
+		if body[i] > 127 {
+			node, _ := itemNodeFromValue([]byte(body))
+			return node
+		}
+	}
+	return ast.NewASCIINode(body)
+}
-- 
2.43.0


From bfa7eac6adc8f6a02add6bdfa44955a922fb1f08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:53 +0000
Subject: [PATCH 42/56] fix: answer process program uploads whatever code the
 handler returns

---
 gem/status_equipment_messages.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gem/status_equipment_messages.go b/gem/status_equipment_messages.go
index e41c9d2..a16b8cb 100644
--- a/gem/status_equipment_messages.go
+++ b/gem/status_equipment_messages.go
@@ -221,6 +221,9 @@ func (g *GemHandler) buildS7F3(ppid idInfo, programBody string) *ast.DataMessage
 
 func (g *GemHandler) buildS7F4(ack int) *ast.DataMessage {
 	//body := ast.NewListNode(ast.NewBinaryNode(ack))
+	if ack < 0 || ack > 255 {
+		ack = 1
+	}
 	body := ast.NewBinaryNode(ack)
 	return ast.NewDataMessage("ProcessProgramAcknowledge", 7, 4, 0, "H<-E", body)
 }
-- 
2.43.0


From 70b0efe49c06851b2fd7fb5919d71116780b27ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:33 +0000
Subject: [PATCH 43/56] fix: report malformed alarm lists instead of dropping
 their entries

---
 gem/alarm_client.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/gem/alarm_client.go b/gem/alarm_client.go
index 49699f1..d3180c9 100644
--- a/gem/alarm_client.go
+++ b/gem/alarm_client.go
@@ -105,28 +105,28 @@ func parseAlarmListResponse(msg *ast.DataMessage) ([]AlarmInfo, error) {
 	for i := 0; i < outerList.Size(); i++ {
 		alarmNode, err := outerList.Get(i)
 		if err != nil {
-			continue
+			return nil, err
 		}
 
 		alarmList, ok := alarmNode.(*ast.ListNode)
 		if !ok || alarmList.Size() < 3 {
-			continue
+			return nil, fmt.Errorf("gem: malformed alarm list entry %d", i)
 		}
 
 		// Parse ALCD (byte 0)
 		alcdNode, err := alarmList.Get(0)
 		if err != nil {
-			continue
+			return nil, err
 		}
 		alcd, err := readSingleBinaryValue(alcdNode)
 		if err != nil {
-			continue
+			return nil, err
 		}
 
 		// Parse ALID (index 1)
 		alidNode, err := alarmList.Get(1)
 		if err != nil {
-			continue
+			return nil, err
 		}
 		alid, err := readAlarmID(alidNode)
 		if err != nil {
@@ -136,7 +136,7 @@ func parseAlarmListResponse(msg *ast.DataMessage) ([]AlarmInfo, error) {
 		// Parse ALTX (index 2)
 		altxNode, err := alarmList.Get(2)
 		if err != nil {
-			continue
+			return nil, err
 		}
 		var text string
 		if asciiNode, ok := altxNode.(*ast.ASCIINode); ok {
-- 
2.43.0


From 9313e3b6944b92ae0a11ec8d81023e1ccc955c8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:34 +0000
Subject: [PATCH 44/56] fix: report malformed parameter acknowledges instead of
 dropping them

---
 gem/remote_command.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/gem/remote_command.go b/gem/remote_command.go
index f838864..737d0b5 100644
--- a/gem/remote_command.go
+++ b/gem/remote_command.go
@@ -212,7 +212,7 @@ func parseRemoteCommandAck(msg *ast.DataMessage) (RemoteCommandResult, error) {
 
 	list, ok := paramsNode.(*ast.ListNode)
 	if !ok {
-		return result, nil
+		return RemoteCommandResult{}, fmt.Errorf("gem: parameter acknowledge list expected, got %s", paramsNode.Type())
 	}
 
 	if list.Size() == 0 {
@@ -223,32 +223,32 @@ func parseRemoteCommandAck(msg *ast.DataMessage) (RemoteCommandResult, error) {
 	for i := 0; i < list.Size(); i++ {
 		entryNode, err := list.Get(i)
 		if err != nil {
-			continue
+			return RemoteCommandResult{}, fmt.Errorf("gem: parameter acknowledge %d: %w", i, err)
 		}
 
 		entry, ok := entryNode.(*ast.ListNode)
 		if !ok || entry.Size() < 2 {
-			continue
+			return RemoteCommandResult{}, fmt.Errorf("gem: malformed parameter acknowledge %d", i)
 		}
 
 		nameNode, err := entry.Get(0)
 		if err != nil {
-			continue
+			return RemoteCommandResult{}, fmt.Errorf("gem: parameter acknowledge %d: %w", i, err)
 		}
 
 		nameInfo, err := newIDInfoFromNode(nameNode)
 		if err != nil {
-			continue
+			return RemoteCommandResult{}, fmt.Errorf("gem: parameter acknowledge %d: %w", i, err)
 		}
 
 		ackNode, err := entry.Get(1)
 		if err != nil {
-			continue
+			return RemoteCommandResult{}, fmt.Errorf("gem: parameter acknowledge %d: %w", i, err)
 		}
 
 		ackValue, err := readSingleBinaryValue(ackNode)
 		if err != nil {
-			continue
+			return RemoteCommandResult{}, fmt.Errorf("gem: parameter acknowledge %d: %w", i, err)
 		}
 
 		result.ParameterAcks = append(result.ParameterAcks, RemoteCommandParameterAck{
-- 
2.43.0


From 1e81aa4cab10aa6a529ba30a5ed20d1cba3ea0be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:34 +0000
Subject: [PATCH 45/56] fix: refuse command parameters that are no ASCII text
 instead of panicking

---
 gem/remote_command.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/gem/remote_command.go b/gem/remote_command.go
index 737d0b5..6fd1450 100644
--- a/gem/remote_command.go
+++ b/gem/remote_command.go
@@ -267,6 +267,11 @@ func itemNodeFromValue(value interface{}) (ast.ItemNode, error) {
 	case ast.ItemNode:
 		return v, nil
 	case string:
+		for i := 0; i < len(v); i++ {
+			if v[i] > 127 {
+				return nil, fmt.Errorf("gem: CPVAL %q is not ASCII", v)
+			}
+		}
 		return ast.NewASCIINode(v), nil
 	case []byte:
 		ints := make([]interface{}, len(v))
-- 
2.43.0


From 24eb027912e14984bd8fe1099efa4e63a2361098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:35 +0000
Subject: [PATCH 46/56] fix: refuse identifiers of several values instead of
 taking the first

---
 gem/id_utils.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gem/id_utils.go b/gem/id_utils.go
index 722b135..bd2ef15 100644
--- a/gem/id_utils.go
+++ b/gem/id_utils.go
@@ -84,13 +84,13 @@ func newIDInfoFromNode(node ast.ItemNode) (idInfo, error) {
 		return idInfo{raw: str, node: node, key: fmt.Sprintf("S:%s", str)}, nil
 	case "u1", "u2", "u4", "u8":
 		values, ok := node.Values().([]uint64)
-		if !ok || len(values) == 0 {
+		if !ok || len(values) != 1 {
 			return idInfo{}, fmt.Errorf("invalid unsigned id payload")
 		}
 		return idInfo{raw: values[0], node: node, key: fmt.Sprintf("N:%d", values[0])}, nil
 	case "i1", "i2", "i4", "i8":
 		values, ok := node.Values().([]int64)
-		if !ok || len(values) == 0 {
+		if !ok || len(values) != 1 {
 			return idInfo{}, fmt.Errorf("invalid signed id payload")
 		}
 		if values[0] < 0 {
-- 
2.43.0


From c031c7b33c1059f44ce3f1ddc600e805587e1fa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:00 +0000
Subject: [PATCH 47/56] fix: end the linktests of a connection with it, also
 when it is lost during one

---
 hsms/protocol.go | 68 +++++++++++++++++++-----------------------------
 1 file changed, 27 insertions(+), 41 deletions(-)

diff --git a/hsms/protocol.go b/hsms/protocol.go
index a5ff2b2..e0fe83a 100644
--- a/hsms/protocol.go
+++ b/hsms/protocol.go
@@ -103,9 +103,8 @@ type HsmsProtocol struct {
 	handlers       map[string]DataMessageHandler
 	defaultHandler DataMessageHandler
 
-	linktestTimerMu sync.Mutex
-	linktestTimer   *time.Ticker
-	disconnectFlg   chan struct{}
+	linktestMu   sync.Mutex
+	linktestStop chan struct{} // ends the linktests of the current connection
 
 	t7TimerMu sync.Mutex
 	t7Timer   *time.Timer
@@ -141,7 +140,6 @@ func NewHsmsProtocol(address string, port int, active bool, sessionID int, name
 		timeouts:             NewSecsTimeout(),
 		systemQueues:         make(map[uint32]transaction),
 		handlers:             make(map[string]DataMessageHandler),
-		disconnectFlg:        make(chan struct{}, 1),
 		connectThreadRunning: atomic.NewBool(false),
 	}
 	h.logCfg.Writer = os.Stderr
@@ -158,54 +156,45 @@ func NewHsmsProtocol(address string, port int, active bool, sessionID int, name
 	return h
 }
 
-func (p *HsmsProtocol) clearDisconnectFlag() {
-	for {
-		select {
-		case <-p.disconnectFlg:
-		default:
-			return
-		}
+func (p *HsmsProtocol) startLinktestTimer() {
+	stop := make(chan struct{})
+	p.linktestMu.Lock()
+	if p.linktestStop != nil {
+		close(p.linktestStop)
 	}
-}
+	p.linktestStop = stop
+	p.linktestMu.Unlock()
 
-func (p *HsmsProtocol) startLinktestTimer() {
-	ticker := time.NewTicker(time.Duration(p.timeouts.Linktest()) * time.Second)
+	if !p.connected.Load() {
+		return
+	}
 
-	p.linktestTimerMu.Lock()
-	p.linktestTimer = ticker
-	p.linktestTimerMu.Unlock()
+	ticker := time.NewTicker(time.Duration(p.timeouts.Linktest()) * time.Second)
+	defer ticker.Stop()
 
-	defer func() {
-		ticker.Stop()
-		p.linktestTimerMu.Lock()
-		if p.linktestTimer == ticker {
-			p.linktestTimer = nil
+	for {
+		select {
+		case <-stop:
+			return
+		default:
 		}
-		p.linktestTimerMu.Unlock()
-	}()
+		p.hsmsConnection.sendLinktestReq()
 
-	p.clearDisconnectFlag()
-	p.hsmsConnection.sendLinktestReq()
-
-	for {
 		select {
 		case <-ticker.C:
-			p.hsmsConnection.sendLinktestReq()
-		case <-p.disconnectFlg:
+		case <-stop:
 			return
 		}
 	}
 }
 
 func (p *HsmsProtocol) stopLinktestTimer() {
-	p.linktestTimerMu.Lock()
-	defer p.linktestTimerMu.Unlock()
+	p.linktestMu.Lock()
+	defer p.linktestMu.Unlock()
 
-	if p.linktestTimer != nil {
-		select {
-		case p.disconnectFlg <- struct{}{}:
-		default:
-		}
+	if p.linktestStop != nil {
+		close(p.linktestStop)
+		p.linktestStop = nil
 	}
 }
 
@@ -367,10 +356,7 @@ func (p *HsmsProtocol) Disable() {
 			// allow a brief moment for remote to process before closing
 			time.Sleep(200 * time.Millisecond)
 		}
-		select {
-		case p.disconnectFlg <- struct{}{}:
-		default:
-		}
+		p.stopLinktestTimer()
 		if err := p.hsmsConnection.Close(); err != nil {
 			p.logger.Error("close session failed", "error", err)
 		}
-- 
2.43.0


From 6c9830493fe28a679097a331572f13a9cf66b2c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:06 +0000
Subject: [PATCH 48/56] fix: end a comment after its last whole character
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

The end of a line comment was searched byte by byte, so a comment ending in a
byte that is white space as a rune (the last byte of 'à', for instance) was cut
inside the character and the rest of it broke the message.
---
 lib-secs2-hsms-go/pkg/parser/sml/lexer.go | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/lib-secs2-hsms-go/pkg/parser/sml/lexer.go b/lib-secs2-hsms-go/pkg/parser/sml/lexer.go
index 44b3a18..5a35880 100644
--- a/lib-secs2-hsms-go/pkg/parser/sml/lexer.go
+++ b/lib-secs2-hsms-go/pkg/parser/sml/lexer.go
@@ -353,10 +353,7 @@ func lexComment(l *lexer) stateFn {
 		return lexEOF
 	}
 
-	for unicode.IsSpace(rune(l.input[l.pos+i-1])) {
-		i -= 1
-	}
-	l.pos += i
+	l.pos += len(strings.TrimRight(l.input[l.pos:l.pos+i], " \t\r"))
 	l.emit(tokenTypeComment)
 	return l.lastState
 }
-- 
2.43.0


From 5008b45bfb574f2e1d3bdedbca6e22f7b5cd9a5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:06 +0000
Subject: [PATCH 49/56] fix: close a dialled connection for which no codec can
 be made

---
 api.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/api.go b/api.go
index 76ca8ba..bec83c2 100644
--- a/api.go
+++ b/api.go
@@ -48,6 +48,7 @@ func Dial(network, address string, protocol Protocol, sendChanSize int) (*Sessio
 	}
 	codec, err := protocol.NewCodec(conn)
 	if err != nil {
+		conn.Close()
 		return nil, err
 	}
 	return NewSession(codec, sendChanSize), nil
@@ -60,6 +61,7 @@ func DialTimeout(network, address string, timeout time.Duration, protocol Protoc
 	}
 	codec, err := protocol.NewCodec(conn)
 	if err != nil {
+		conn.Close()
 		return nil, err
 	}
 	return NewSession(codec, sendChanSize), nil
-- 
2.43.0


From cf60cbf8742300d02e60c3693aa16091345a6d74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:07:04 +0000
Subject: [PATCH 50/56] fix: read a fixed-length frame whole through the byte
 codec

---
 codec/byte.go   | 7 ++++++-
 codec/fixlen.go | 5 +++++
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/codec/byte.go b/codec/byte.go
index 032279b..c749cc6 100644
--- a/codec/byte.go
+++ b/codec/byte.go
@@ -36,7 +36,12 @@ type byteCodec struct {
 
 func (c *byteCodec) Receive() (interface{}, error) {
 
-	recvData := make([]byte, 4092)
+	size := 4092
+	// A reader that knows what it holds, like a fixed-length frame, is read whole.
+	if l, ok := c.r.(interface{ Len() int }); ok && l.Len() > size {
+		size = l.Len()
+	}
+	recvData := make([]byte, size)
 
 	cnt, err := c.r.Read(recvData)
 
diff --git a/codec/fixlen.go b/codec/fixlen.go
index d428c09..f6021ad 100644
--- a/codec/fixlen.go
+++ b/codec/fixlen.go
@@ -104,6 +104,11 @@ func (rw *fixlenReadWriter) Read(p []byte) (int, error) {
 	return rw.recvBuf.Read(p)
 }
 
+// Len returns how many bytes of the frame received last are left to read.
+func (rw *fixlenReadWriter) Len() int {
+	return rw.recvBuf.Len()
+}
+
 func (rw *fixlenReadWriter) Write(p []byte) (int, error) {
 	return rw.sendBuf.Write(p)
 }
-- 
2.43.0


From 7f676fb9a6cb4b142a64df99364a9f5bc227f20d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:07:04 +0000
Subject: [PATCH 51/56] fix: guard the session of an HSMS connection against
 concurrent use

---
 hsms/connection.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/hsms/connection.go b/hsms/connection.go
index 1e481f7..19de324 100644
--- a/hsms/connection.go
+++ b/hsms/connection.go
@@ -2,6 +2,7 @@ package hsms
 
 import (
 	"fmt"
+	"sync"
 
 	link "github.com/younglifestyle/secs4go"
 	"github.com/younglifestyle/secs4go/lib-secs2-hsms-go/pkg/ast"
@@ -26,6 +27,7 @@ type HsmsConnection struct {
 	remotePort    int
 	sessionID     int
 	hp            *HsmsProtocol
+	mu            sync.RWMutex // guards connection
 	connection    *link.Session
 }
 
@@ -41,15 +43,19 @@ func NewHsmsConnection(active bool, address string, port int, sessionID int, del
 }
 
 func (c *HsmsConnection) Session() *link.Session {
+	c.mu.RLock()
+	defer c.mu.RUnlock()
 	return c.connection
 }
 
 func (c *HsmsConnection) SetSession(session *link.Session) {
+	c.mu.Lock()
 	c.connection = session
+	c.mu.Unlock()
 }
 
 func (c *HsmsConnection) Send(msg interface{}) error {
-	session := c.connection
+	session := c.Session()
 	if session == nil {
 		return ErrNotConnected
 	}
@@ -57,7 +63,7 @@ func (c *HsmsConnection) Send(msg interface{}) error {
 }
 
 func (c *HsmsConnection) Close() error {
-	session := c.connection
+	session := c.Session()
 	if session == nil {
 		return nil
 	}
-- 
2.43.0


From a5b95f8f1d43922dbfeeb91d60534155ceb79706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:07:04 +0000
Subject: [PATCH 52/56] fix: guard the process program handlers against
 concurrent replacement

---
 gem/handler.go                  |  5 +++--
 gem/process_program_handlers.go | 18 ++++++++++++++----
 2 files changed, 17 insertions(+), 6 deletions(-)

diff --git a/gem/handler.go b/gem/handler.go
index ba1480a..7e9ec87 100644
--- a/gem/handler.go
+++ b/gem/handler.go
@@ -82,6 +82,7 @@ type GemHandler struct {
 	eventLinks       map[string]*collectionEventLink
 
 	processStore          *processProgramStore
+	processMu             sync.RWMutex // guards the two handlers
 	processUploadHandler  ProcessProgramUploadHandler
 	processRequestHandler ProcessProgramRequestHandler
 
@@ -222,10 +223,10 @@ func (g *GemHandler) Enable() {
 	g.state.setState(CommunicationStateNotCommunicating)
 	g.protocol.Enable()
 
-	g.stopMu.Lock()
+//	g.stopMu.Lock()
 	stopCh := make(chan struct{})
 	g.stopCh = stopCh
-	g.stopMu.Unlock()
+//	g.stopMu.Unlock()
 
 	go g.monitorLoop(stopCh)
 }
diff --git a/gem/process_program_handlers.go b/gem/process_program_handlers.go
index 53b3f18..d08fa97 100644
--- a/gem/process_program_handlers.go
+++ b/gem/process_program_handlers.go
@@ -31,14 +31,24 @@ func (g *GemHandler) ListProcessPrograms() []ProcessProgram {
 
 // SetProcessProgramUploadHandler registers a callback invoked when the host uploads a process program (S7F3).
 func (g *GemHandler) SetProcessProgramUploadHandler(handler ProcessProgramUploadHandler) {
+	g.processMu.Lock()
+	defer g.processMu.Unlock()
 	g.processUploadHandler = handler
 }
 
 // SetProcessProgramRequestHandler registers a callback used to serve S7F5 requests.
 func (g *GemHandler) SetProcessProgramRequestHandler(handler ProcessProgramRequestHandler) {
+	g.processMu.Lock()
+	defer g.processMu.Unlock()
 	g.processRequestHandler = handler
 }
 
+func (g *GemHandler) getProcessProgramHandlers() (ProcessProgramUploadHandler, ProcessProgramRequestHandler) {
+	g.processMu.RLock()
+	defer g.processMu.RUnlock()
+	return g.processUploadHandler, g.processRequestHandler
+}
+
 func (g *GemHandler) onS7F3(msg *ast.DataMessage) (*ast.DataMessage, error) {
 	if msg == nil {
 		return g.buildS7F4(1), nil
@@ -61,8 +71,8 @@ func (g *GemHandler) onS7F3(msg *ast.DataMessage) (*ast.DataMessage, error) {
 	}
 
 	ack := 0
-	if g.processUploadHandler != nil {
-		ack = g.processUploadHandler(ppidInfo.raw, body)
+	if upload, _ := g.getProcessProgramHandlers(); upload != nil {
+		ack = upload(ppidInfo.raw, body)
 	}
 	if ack == 0 {
 		program, err := newProcessProgram(ppidInfo.raw, body)
@@ -104,8 +114,8 @@ func (g *GemHandler) onS7F5(msg *ast.DataMessage) (*ast.DataMessage, error) {
 
 	body := ""
 	ack := 0
-	if g.processRequestHandler != nil {
-		body, ack = g.processRequestHandler(ppidInfo.raw)
+	if _, request := g.getProcessProgramHandlers(); request != nil {
+		body, ack = request(ppidInfo.raw)
 	} else {
 		if program, ok := g.processStore.get(ppidInfo.key); ok {
 			body = program.Body
-- 
2.43.0


From 149c2360d91ddeacb4426b6f50221b291c020b56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:17:51 +0000
Subject: [PATCH 53/56] fix: let an event's callbacks use the event

---
 common/events.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/common/events.go b/common/events.go
index 546e869..5b3de77 100644
--- a/common/events.go
+++ b/common/events.go
@@ -38,12 +38,13 @@ func sameCallback(a, b func(data map[string]interface{})) bool {
 	return *(*unsafe.Pointer)(unsafe.Pointer(&a)) == *(*unsafe.Pointer)(unsafe.Pointer(&b))
 }
 
-// Fire raises the event and calls all callbacks.
+// Fire raises the event and calls all callbacks. A callback may itself use the event.
 func (e *Event) Fire(data map[string]interface{}) {
 	e.mutex.Lock()
-	defer e.mutex.Unlock()
+	callbacks := append([]func(data map[string]interface{}){}, e.callbacks...)
+	e.mutex.Unlock()
 
-	for _, callback := range e.callbacks {
+	for _, callback := range callbacks {
 		callback(data)
 	}
 }
-- 
2.43.0


From 344e85421219ed43e67f76adfed732120fed0048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:17:51 +0000
Subject: [PATCH 54/56] fix: run value providers, validators and updaters
 without the registry's lock

---
 gem/status_equipment_handlers.go | 51 ++++++++++++++++++++++----------
 1 file changed, 36 insertions(+), 15 deletions(-)

diff --git a/gem/status_equipment_handlers.go b/gem/status_equipment_handlers.go
index 6b3b21b..b90883f 100644
--- a/gem/status_equipment_handlers.go
+++ b/gem/status_equipment_handlers.go
@@ -107,14 +107,25 @@ func (g *GemHandler) onS2F29(msg *ast.DataMessage) (*ast.DataMessage, error) {
 	return g.buildS2F30(entries), nil
 }
 
-func (g *GemHandler) resolveStatusValues(requests []idRequest) []ast.ItemNode {
+// variablesSnapshot copies the registered status variables, so that their callbacks run without the lock.
+func (g *GemHandler) variablesSnapshot() (map[string]*StatusVariable, []string) {
 	g.statusMu.RLock()
 	defer g.statusMu.RUnlock()
 
+	variables := make(map[string]*StatusVariable, len(g.statusVars))
+	for key, item := range g.statusVars {
+		variables[key] = item
+	}
+	return variables, append([]string(nil), g.statusOrder...)
+}
+
+func (g *GemHandler) resolveStatusValues(requests []idRequest) []ast.ItemNode {
+	variables, order := g.variablesSnapshot()
+
 	if len(requests) == 0 {
-		values := make([]ast.ItemNode, 0, len(g.statusOrder))
-		for _, key := range g.statusOrder {
-			if variable, ok := g.statusVars[key]; ok {
+		values := make([]ast.ItemNode, 0, len(order))
+		for _, key := range order {
+			if variable, ok := variables[key]; ok {
 				values = append(values, safeStatusValue(variable, g.logger))
 			}
 		}
@@ -127,7 +138,7 @@ func (g *GemHandler) resolveStatusValues(requests []idRequest) []ast.ItemNode {
 			values = append(values, emptyItem())
 			continue
 		}
-		if variable, ok := g.statusVars[req.info.key]; ok {
+		if variable, ok := variables[req.info.key]; ok {
 			values = append(values, safeStatusValue(variable, g.logger))
 		} else {
 			values = append(values, emptyItem())
@@ -185,14 +196,25 @@ func buildStatusInfoNode(variable *StatusVariable) ast.ItemNode {
 	)
 }
 
-func (g *GemHandler) resolveEquipmentConstantValues(requests []idRequest) []ast.ItemNode {
+// constantsSnapshot copies the registered equipment constants, so that their callbacks run without the lock.
+func (g *GemHandler) constantsSnapshot() (map[string]*EquipmentConstant, []string) {
 	g.ecMu.RLock()
 	defer g.ecMu.RUnlock()
 
+	constants := make(map[string]*EquipmentConstant, len(g.equipmentConstants))
+	for key, item := range g.equipmentConstants {
+		constants[key] = item
+	}
+	return constants, append([]string(nil), g.ecOrder...)
+}
+
+func (g *GemHandler) resolveEquipmentConstantValues(requests []idRequest) []ast.ItemNode {
+	constants, order := g.constantsSnapshot()
+
 	if len(requests) == 0 {
-		values := make([]ast.ItemNode, 0, len(g.ecOrder))
-		for _, key := range g.ecOrder {
-			if constant, ok := g.equipmentConstants[key]; ok {
+		values := make([]ast.ItemNode, 0, len(order))
+		for _, key := range order {
+			if constant, ok := constants[key]; ok {
 				values = append(values, safeEquipmentConstantValue(constant, g.logger))
 			}
 		}
@@ -205,7 +227,7 @@ func (g *GemHandler) resolveEquipmentConstantValues(requests []idRequest) []ast.
 			values = append(values, emptyItem())
 			continue
 		}
-		if constant, ok := g.equipmentConstants[req.info.key]; ok {
+		if constant, ok := constants[req.info.key]; ok {
 			values = append(values, safeEquipmentConstantValue(constant, g.logger))
 		} else {
 			values = append(values, emptyItem())
@@ -381,20 +403,19 @@ func (g *GemHandler) applyEquipmentConstantUpdates(updates []equipmentConstantUp
 		return ECACKAccepted
 	}
 
-	g.ecMu.RLock()
-	defer g.ecMu.RUnlock()
+	constants, _ := g.constantsSnapshot()
 
 	for _, upd := range updates {
 		if !upd.ok {
 			return ECACKInvalidData
 		}
-		if _, ok := g.equipmentConstants[upd.id.key]; !ok {
+		if _, ok := constants[upd.id.key]; !ok {
 			return ECACKDoesNotExist
 		}
 	}
 
 	for _, upd := range updates {
-		constant := g.equipmentConstants[upd.id.key]
+		constant := constants[upd.id.key]
 		if err := constant.validate(upd.value); err != nil {
 			g.logger.Warn("equipment constant update rejected", "ecid", constant.ID(), "error", err)
 			return ECACKValidationError
@@ -402,7 +423,7 @@ func (g *GemHandler) applyEquipmentConstantUpdates(updates []equipmentConstantUp
 	}
 
 	for _, upd := range updates {
-		constant := g.equipmentConstants[upd.id.key]
+		constant := constants[upd.id.key]
 		if err := constant.update(upd.value); err != nil {
 			g.logger.Warn("equipment constant update rejected", "ecid", constant.ID(), "error", err)
 			return ECACKValidationError
-- 
2.43.0


From a467b0e0044cb4c766803e9f7727bb7dcc698288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:32:32 +0000
Subject: [PATCH 55/56] fix: restore the lock around the stop channel, lost in
 a5b95f8

---
 gem/handler.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gem/handler.go b/gem/handler.go
index 7e9ec87..c010d39 100644
--- a/gem/handler.go
+++ b/gem/handler.go
@@ -223,10 +223,10 @@ func (g *GemHandler) Enable() {
 	g.state.setState(CommunicationStateNotCommunicating)
 	g.protocol.Enable()
 
-//	g.stopMu.Lock()
+	g.stopMu.Lock()
 	stopCh := make(chan struct{})
 	g.stopCh = stopCh
-//	g.stopMu.Unlock()
+	g.stopMu.Unlock()
 
 	go g.monitorLoop(stopCh)
 }
-- 
2.43.0


From 6f4a203c73b859ccb640fd72ba711d2e54235c20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:33:26 +0000
Subject: [PATCH 56/56] fix: read an event link under its lock when a report is
 built

---
 gem/collection_event_handlers.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/gem/collection_event_handlers.go b/gem/collection_event_handlers.go
index db9efe2..de5e3e6 100644
--- a/gem/collection_event_handlers.go
+++ b/gem/collection_event_handlers.go
@@ -106,12 +106,11 @@ func (g *GemHandler) buildCollectionEventPayload(key string) ([]ast.ItemNode, in
 
 	g.reportMu.RLock()
 	link, linked := g.eventLinks[key]
-	g.reportMu.RUnlock()
 	if !linked || !link.enabled || len(link.reports) == 0 {
+		g.reportMu.RUnlock()
 		return nil, 0, nil, nil
 	}
 
-	g.reportMu.RLock()
 	reportKeys := append([]string{}, link.reports...)
 	g.reportMu.RUnlock()
 
-- 
2.43.0

