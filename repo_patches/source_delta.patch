From 1cb0040f2a3294422f155ef2cedce26702120221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:39:14 +0000
Subject: [PATCH 01/13] fix: compress the internet OID prefix only for a fifth
 sub-identifier of 1..255

The prefix byte of an AgentX object identifier (RFC 2741, 5.1) carries one
sub-identifier; 0 means that there is no prefix. 1.3.6.1.0 was encoded as
the null OID and 1.3.6.1.256 lost its first five sub-identifiers.
---
 agentx/encoding.go     | 4 ++--
 agentx/encoding_dbg.go | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/agentx/encoding.go b/agentx/encoding.go
index 3e8a625..3a5aa5b 100644
--- a/agentx/encoding.go
+++ b/agentx/encoding.go
@@ -160,7 +160,7 @@ func objectIdEncodingSize(id []uint32) (size int) {
 	size = 4
 	if len(id) > 0 {
 		nsubids := len(id)
-		if len(id) >= 5 && id[0] == 1 && id[1] == 3 && id[2] == 6 && id[3] == 1 && id[4] <= 256 {
+		if len(id) >= 5 && id[0] == 1 && id[1] == 3 && id[2] == 6 && id[3] == 1 && id[4] != 0 && id[4] < 256 {
 			nsubids -= 5
 		}
 		size += 4 * nsubids
@@ -174,7 +174,7 @@ func (e encoder) appendObjectId(data []byte, val []uint32, include byte) []byte
 	}
 	nsubids := len(val)
 	prefix := byte(0)
-	if nsubids >= 5 && val[0] == 1 && val[1] == 3 && val[2] == 6 && val[3] == 1 && val[4] <= 256 {
+	if nsubids >= 5 && val[0] == 1 && val[1] == 3 && val[2] == 6 && val[3] == 1 && val[4] != 0 && val[4] < 256 {
 		nsubids -= 5
 		prefix = byte(val[4])
 		val = val[5:]
diff --git a/agentx/encoding_dbg.go b/agentx/encoding_dbg.go
index 8724348..c0e658d 100644
--- a/agentx/encoding_dbg.go
+++ b/agentx/encoding_dbg.go
@@ -170,7 +170,7 @@ func (e encoderDbg) appendObjectId(data []byte, val []uint32, include byte) []by
 	nsubids := len(val)
 	prefix := byte(0)
 
-	if nsubids >= 5 && val[0] == 1 && val[1] == 3 && val[2] == 6 && val[3] == 1 && val[4] <= 256 {
+	if nsubids >= 5 && val[0] == 1 && val[1] == 3 && val[2] == 6 && val[3] == 1 && val[4] != 0 && val[4] < 256 {
 		nsubids -= 5
 		prefix = byte(val[4])
 		val = val[5:]
-- 
2.43.0


From 9142e8bebfa090a2d18d1bc876b19720ac4a26b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:41:33 +0000
Subject: [PATCH 02/13] fix: refuse to encode an object identifier of more than
 128 sub-identifiers

The count is one byte and RFC 2741 allows 128; 256 sub-identifiers were
encoded with a count of 0 and the receiver lost the frame boundaries.
---
 agentx/encoding.go     | 7 +++++++
 agentx/encoding_dbg.go | 4 ++++
 2 files changed, 11 insertions(+)

diff --git a/agentx/encoding.go b/agentx/encoding.go
index 3a5aa5b..062b2c8 100644
--- a/agentx/encoding.go
+++ b/agentx/encoding.go
@@ -156,6 +156,10 @@ func (d decoder) parseOctetString(data []byte) (val string, next []byte) {
 	return
 }
 
+// maxSubids is the maximum number of sub-identifiers that follow
+// the header of the encoded object identifier (RFC 2741, 5.1).
+const maxSubids = 128
+
 func objectIdEncodingSize(id []uint32) (size int) {
 	size = 4
 	if len(id) > 0 {
@@ -179,6 +183,9 @@ func (e encoder) appendObjectId(data []byte, val []uint32, include byte) []byte
 		prefix = byte(val[4])
 		val = val[5:]
 	}
+	if nsubids > maxSubids {
+		panic(ErrEncoding)
+	}
 	data = append(data, byte(nsubids), prefix, include, 0)
 	for _, subid := range val {
 		data = e.appendUint32(data, subid)
diff --git a/agentx/encoding_dbg.go b/agentx/encoding_dbg.go
index c0e658d..6e67a11 100644
--- a/agentx/encoding_dbg.go
+++ b/agentx/encoding_dbg.go
@@ -175,6 +175,10 @@ func (e encoderDbg) appendObjectId(data []byte, val []uint32, include byte) []by
 		prefix = byte(val[4])
 		val = val[5:]
 	}
+	if nsubids > maxSubids {
+		e.log.Writef("!!! Error. Number of subids %d > %d", nsubids, maxSubids)
+		panic(ErrEncoding)
+	}
 
 	e.log.Writef("appending ObjectId header {nsubids: %d, prefix: %d, include: %d, reserved byte: 0}:",
 		nsubids, prefix, include)
-- 
2.43.0


From fc44d67b636ff30ea8cc0c00367b3cb261ff5a41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:41:34 +0000
Subject: [PATCH 03/13] fix: refuse to encode a pdu with flags that its type
 does not allow

The decoder refuses such a header, so that the receiver closed the
connection over a pdu that EncodePdu reported as encoded.
---
 agentx/pdu.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/agentx/pdu.go b/agentx/pdu.go
index 66961b1..131238b 100644
--- a/agentx/pdu.go
+++ b/agentx/pdu.go
@@ -68,6 +68,11 @@ func EncodePdu(pdu Pdu) (data []byte, ok bool) {
 		return
 	}
 
+	if pdu.Tag.NotAllowedFlags(pdu.Flags) != 0 {
+		ok = false
+		return
+	}
+
 	// This panics if pdu.Tag is unknown or pdu.Params = nil
 	payloadSize := pdu.countPayloadSize()
 	pdu.PayloadSize = int32(payloadSize)
@@ -197,6 +202,11 @@ func EncodePduDbg(pdu Pdu, log logger.Log) (data []byte, ok bool) {
 		log.Write("!!! Error. Invalid type of payload params")
 		return
 	}
+	fooFlags := pdu.Tag.NotAllowedFlags(pdu.Flags)
+	if ok = fooFlags == 0; !ok {
+		log.Writef("!!! Error. Flags %s are not allowed for this pdu", fooFlags.String())
+		return
+	}
 
 	payloadSize := pdu.countPayloadSize()
 	pdu.PayloadSize = int32(payloadSize)
-- 
2.43.0


From 8cde0c5340470773be48f5128e3e84feb7570953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:41:36 +0000
Subject: [PATCH 04/13] fix: refuse to encode negative GetBulk parameters

The decoder refuses them.
---
 agentx/payload_params.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/agentx/payload_params.go b/agentx/payload_params.go
index 684924a..7a198bf 100644
--- a/agentx/payload_params.go
+++ b/agentx/payload_params.go
@@ -302,6 +302,9 @@ func (GetBulkParams) encodingSize() int {
 }
 
 func (p GetBulkParams) append(e encoder, data []byte) []byte {
+	if p.NonRepeaters < 0 || p.MaxRepeatitions < 0 {
+		panic(ErrEncoding)
+	}
 	data = e.appendInt16(data, p.NonRepeaters)
 	return e.appendInt16(data, p.MaxRepeatitions)
 }
@@ -318,6 +321,10 @@ func parseGetBulkParams(d decoder, data []byte) (PayloadParams, []byte) {
 
 func (p GetBulkParams) appendDbg(e encoderDbg, data []byte) []byte {
 	e.log.Write("appending GetBulkParams")
+	if p.NonRepeaters < 0 || p.MaxRepeatitions < 0 {
+		e.log.Write("!!! Error. NonRepeaters < 0 or MaxRepeatitions < 0")
+		panic(ErrEncoding)
+	}
 	e.log.Write("appending NonRepeaters")
 	data = e.appendInt16(data, p.NonRepeaters)
 	e.log.Write("appending MaxRepeatitions")
-- 
2.43.0


From f3a0cf0ddb3632d1ca01e9bed98c35da3a446d63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:41:42 +0000
Subject: [PATCH 05/13] fix: check payload data size in DecodePduPayload as
 DecodePduPayloadDbg does

---
 agentx/pdu.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/agentx/pdu.go b/agentx/pdu.go
index 131238b..8f2e50c 100644
--- a/agentx/pdu.go
+++ b/agentx/pdu.go
@@ -150,6 +150,11 @@ func DecodePduPayload(pdu *Pdu, data []byte) (ok bool) {
 		}
 	}()
 
+	if len(data) != int(pdu.PayloadSize) {
+		ok = false
+		return
+	}
+
 	d := decoder{byteOrder: pdu.Flags.byteOrder()}
 
 	if pdu.Flags&FlagNonDefaultContext != 0 {
-- 
2.43.0


From 2c6938c0926e099360ee5a31da78318b0ebaeeac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:41:48 +0000
Subject: [PATCH 06/13] fix: allocate memory for Opaque only if the data is
 there

A payload of a few bytes with a bogus Opaque size made the decoder allocate
up to 2 GB before it was refused.
---
 agentx/encoding.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/agentx/encoding.go b/agentx/encoding.go
index 062b2c8..a78d3a6 100644
--- a/agentx/encoding.go
+++ b/agentx/encoding.go
@@ -250,8 +250,11 @@ func (d decoder) parseOpaque(data []byte) (val []byte, next []byte) {
 	if size < 0 {
 		panic(ErrEncoding)
 	}
+	// This panics if there is not enough data, so that nothing
+	// is allocated on the strength of the size alone.
+	chunk := next[:int(size)]
 	val = make([]byte, int(size))
-	copy(val, next[:int(size)])
+	copy(val, chunk)
 	next = next[int(size):]
 	next = d.parsePaddingBytes(next, int(size))
 	return
-- 
2.43.0


From 4cdc99261ed4053933c9df63e6e56e048a5deaef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:41:50 +0000
Subject: [PATCH 07/13] fix: do not truncate varbind type to a byte

A varbind of type 258 was decoded as Integer32 (2).
---
 agentx/varbind.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/agentx/varbind.go b/agentx/varbind.go
index bdbe593..8f800c4 100644
--- a/agentx/varbind.go
+++ b/agentx/varbind.go
@@ -20,6 +20,9 @@ func (e encoder) appendVarbind(data []byte, vb asn.Varbind) []byte {
 func (d decoder) parseVarbind(data []byte) (vb asn.Varbind, next []byte) {
 	var tag int16
 	tag, next = d.parseInt16(data)
+	if tag < 0 || tag > 0xFF {
+		panic(ErrEncoding)
+	}
 	if vb.Tag = asn.Tag(tag); !vb.Tag.IsValueTag() {
 		panic(ErrEncoding)
 	}
@@ -58,6 +61,9 @@ func (d decoderDbg) parseVarbind(startpos int) (vb asn.Varbind, nextpos int) {
 	d.log.Write("parsing Varbind.Tag")
 	var tag int16
 	tag, nextpos = d.parseInt16(startpos)
+	if tag < 0 || tag > 0xFF {
+		panic("Unknown value tag")
+	}
 	vb.Tag = asn.Tag(tag)
 	d.log.Writef("parsed Tag: %s", vb.Tag.String())
 	if vb.Tag = asn.Tag(tag); !vb.Tag.IsValueTag() {
-- 
2.43.0


From 18f0370baf2058285fcc07f1d49dcaa89f177196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:41:55 +0000
Subject: [PATCH 08/13] fix: respect both bounds in getNextNode

Leaves that are proper prefixes of oid2 were skipped; leaves that are
proper prefixes of oid1 (and less than it) were returned with include1;
the root of an empty tree was returned as a leaf.
---
 oid/node.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/oid/node.go b/oid/node.go
index 5ac2591..6346de2 100644
--- a/oid/node.go
+++ b/oid/node.go
@@ -126,7 +126,10 @@ func (node *Node) getNextNode(oid1, oid2 []uint32, include1 bool, repeatition in
 	var iterate func(*Node, int, bool, bool)
 	iterate = func(node *Node, ind int, eq1, eq2 bool) {
 		if len(node.Children) == 0 {
-			if (!eq1 || include1) && !eq2 {
+			// eq1 (eq2): the oid of node consists of the first ind subids
+			// of oid1 (oid2), i.e. it is oid1 (oid2) itself if there are no
+			// more subids, and it is less otherwise. The root has no oid.
+			if node.Parent != nil && (!eq1 || include1 && ind == len(oid1)) && (!eq2 || ind < len(oid2)) {
 				if repeatition == 1 {
 					resnode = node
 				} else {
-- 
2.43.0


From 88f0f252da3d61fac902c173e666b29ea784a182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:41:57 +0000
Subject: [PATCH 09/13] fix: do not mix payloads of different pdus when Pdu is
 decoded again

Search ranges and varbinds were appended to those decoded before.
---
 agentx/pdu.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/agentx/pdu.go b/agentx/pdu.go
index 8f2e50c..287b6e7 100644
--- a/agentx/pdu.go
+++ b/agentx/pdu.go
@@ -155,6 +155,9 @@ func DecodePduPayload(pdu *Pdu, data []byte) (ok bool) {
 		return
 	}
 
+	// Drop payload of the previously decoded pdu.
+	pdu.Context, pdu.Params, pdu.Ranges, pdu.Varbinds = "", nil, nil, nil
+
 	d := decoder{byteOrder: pdu.Flags.byteOrder()}
 
 	if pdu.Flags&FlagNonDefaultContext != 0 {
@@ -362,6 +365,9 @@ func DecodePduPayloadDbg(pdu *Pdu, data []byte, log logger.Log) (ok bool) {
 		return
 	}
 
+	// Drop payload of the previously decoded pdu.
+	pdu.Context, pdu.Params, pdu.Ranges, pdu.Varbinds = "", nil, nil, nil
+
 	d := decoderDbg{
 		byteOrder: pdu.Flags.byteOrder(),
 		data:      data,
-- 
2.43.0


From a6372f9509e61447f6decb3e0b7938b1d722bf51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:43:35 +0000
Subject: [PATCH 10/13] fix: refuse to decode an object identifier of more than
 128 sub-identifiers

RFC 2741 allows 128, and the encoder cannot send a longer one back: the
ParseError response to a pdu refused after such an identifier was lost.
---
 agentx/encoding.go     | 3 +++
 agentx/encoding_dbg.go | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/agentx/encoding.go b/agentx/encoding.go
index a78d3a6..45794b5 100644
--- a/agentx/encoding.go
+++ b/agentx/encoding.go
@@ -199,6 +199,9 @@ func (d decoder) parseObjectId(data []byte) (val []uint32, include byte, next []
 	}
 	nsubids, prefix, include := int(data[0]), uint32(data[1]), data[2]
 	next = data[4:]
+	if nsubids > maxSubids {
+		panic(ErrEncoding)
+	}
 	if nsubids == 0 && prefix == 0 {
 		return
 	}
diff --git a/agentx/encoding_dbg.go b/agentx/encoding_dbg.go
index 6e67a11..2e9612d 100644
--- a/agentx/encoding_dbg.go
+++ b/agentx/encoding_dbg.go
@@ -205,6 +205,9 @@ func (d *decoderDbg) parseObjectId(startpos int) (val []uint32, include byte, ne
 	if data[3] != 0 {
 		panic("non-zero reserved byte")
 	}
+	if nsubids > maxSubids {
+		panic("too many subids")
+	}
 	if nsubids == 0 && prefix == 0 {
 		d.log.Write("parsed ObjectId: <null>")
 		return
-- 
2.43.0


From a8859a33f1d51ce76a3eec6ec677809b46df552f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:04:11 +0000
Subject: [PATCH 11/13] fix: refuse to encode payloads larger than the header
 can tell

---
 agentx/pdu.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/agentx/pdu.go b/agentx/pdu.go
index 287b6e7..9e63eeb 100644
--- a/agentx/pdu.go
+++ b/agentx/pdu.go
@@ -1,6 +1,8 @@
 package agentx
 
 import (
+	"math"
+
 	"github.com/alexispb/mygosnmp/asn"
 	"github.com/alexispb/mygosnmp/hex"
 	"github.com/alexispb/mygosnmp/internal"
@@ -75,6 +77,10 @@ func EncodePdu(pdu Pdu) (data []byte, ok bool) {
 
 	// This panics if pdu.Tag is unknown or pdu.Params = nil
 	payloadSize := pdu.countPayloadSize()
+	if payloadSize > math.MaxInt32 {
+		ok = false
+		return
+	}
 	pdu.PayloadSize = int32(payloadSize)
 
 	data = make([]byte, 0, PduHeaderSize+payloadSize)
@@ -217,6 +223,10 @@ func EncodePduDbg(pdu Pdu, log logger.Log) (data []byte, ok bool) {
 	}
 
 	payloadSize := pdu.countPayloadSize()
+	if ok = payloadSize <= math.MaxInt32; !ok {
+		log.Writef("!!! Error. Payload size %d is too large", payloadSize)
+		return
+	}
 	pdu.PayloadSize = int32(payloadSize)
 	log.Writef("counted payload size: %d", payloadSize)
 
-- 
2.43.0


From 561b42ca7045f472f0328b090f22d89971fe0691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:00:18 +0000
Subject: [PATCH 12/13] fix: give log messages of the debug variants the
 arguments their formats name

---
 agentx/pdu.go     | 2 +-
 agentx/varbind.go | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/agentx/pdu.go b/agentx/pdu.go
index 9e63eeb..527b636 100644
--- a/agentx/pdu.go
+++ b/agentx/pdu.go
@@ -307,7 +307,7 @@ func DecodePduHeaderDbg(data []byte, log logger.Log) (pdu Pdu, ok bool) {
 	log.Writef("parsed agentx version: %d, pdu.Tag: %s, pdu.Flags: %s",
 		data[0], pdu.Tag.String(), pdu.Flags.String())
 	if ok = data[0] == 1; !ok {
-		log.Writef("!!! Error. Invalid agentx version", data[0])
+		log.Writef("!!! Error. Invalid agentx version %d", data[0])
 		return
 	}
 	if ok = pdu.Tag.IsKnown(); !ok {
diff --git a/agentx/varbind.go b/agentx/varbind.go
index 8f800c4..382295b 100644
--- a/agentx/varbind.go
+++ b/agentx/varbind.go
@@ -51,8 +51,8 @@ func (e encoderDbg) appendVarbind(data []byte, vb asn.Varbind) []byte {
 	e.log.Write("appending Varbind Value")
 	data = vbtable[vb.Tag].appendValueDbg(e, data, vb.Value)
 
-	e.log.Writef("appended Varbind data:\n%s")
-	hex.DumpSub("    ", data, startindex, len(data))
+	e.log.Writef("appended Varbind data:\n%s",
+		hex.DumpSub("    ", data, startindex, len(data)))
 	return data
 }
 
-- 
2.43.0


From f7f4b67439c0f937b9fd3896541f38986d0d896a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:00 +0000
Subject: [PATCH 13/13] fix: release removed nodes

removeChild left the last pointer in the spare room of the slice, so that
a removed subtree stayed in memory until another child took its place.
---
 oid/node.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/oid/node.go b/oid/node.go
index 6346de2..6881da2 100644
--- a/oid/node.go
+++ b/oid/node.go
@@ -54,7 +54,10 @@ func (node *Node) getChild(subid uint32) *Node {
 // such a child, and true otherwise.
 func (node *Node) removeChild(subid uint32) bool {
 	if ind, ok := node.searchChild(subid); ok {
-		node.Children = append(node.Children[:ind], node.Children[ind+1:]...)
+		last := len(node.Children) - 1
+		copy(node.Children[ind:], node.Children[ind+1:])
+		node.Children[last] = nil // or it keeps the removed nodes in memory
+		node.Children = node.Children[:last]
 		return true
 	}
 	return false
-- 
2.43.0

