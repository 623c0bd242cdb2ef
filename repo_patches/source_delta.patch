From b20bd01d8c994f08d6b61df0a93f2e37c621675d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:37 +0000
Subject: [PATCH 1/8] fix: report overflowing varints and lengths past the end
 from Decode

binary.Uvarint returns a negative size for varints over 64 bits, and a huge
length could wrap around: Decode then panicked or looped forever.
---
 zeropb.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/zeropb.go b/zeropb.go
index ee03185..9952c07 100644
--- a/zeropb.go
+++ b/zeropb.go
@@ -427,7 +427,7 @@ func Decode(buf []byte, offsets Offsets, repeatedFields RepeatedFields) error {
 			return io.ErrUnexpectedEOF
 		}
 		tag, size := binary.Uvarint(buf[idx:])
-		if size == 0 {
+		if size <= 0 {
 			return io.ErrUnexpectedEOF
 		}
 		idx += size
@@ -459,7 +459,7 @@ func Decode(buf []byte, offsets Offsets, repeatedFields RepeatedFields) error {
 		}
 
 		s := fieldDataSize(typ, buf[idx:])
-		if s == 0 {
+		if s <= 0 {
 			return io.ErrUnexpectedEOF
 		}
 		idx += s
@@ -500,8 +500,9 @@ func fieldDataSize(typ uint64, buf []byte) int {
 	case proto.WireFixed64:
 		return 8
 	case proto.WireBytes:
+		remaining := uint64(len(buf))
 		len, lenSize := binary.Uvarint(buf)
-		if lenSize == 0 {
+		if lenSize <= 0 || len > remaining-uint64(lenSize) {
 			return 0
 		}
 		return lenSize + int(len)
-- 
2.43.0


From cf3901833e3cdf537d81fe66a46d0385c3e38f1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:38 +0000
Subject: [PATCH 2/8] fix: return an error from Decode for unsupported wire
 types

Groups and the reserved wire types made Decode panic.
---
 zeropb.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/zeropb.go b/zeropb.go
index 9952c07..9099119 100644
--- a/zeropb.go
+++ b/zeropb.go
@@ -458,6 +458,11 @@ func Decode(buf []byte, offsets Offsets, repeatedFields RepeatedFields) error {
 			// support so leave it unsupported for now.
 		}
 
+		switch typ {
+		case proto.WireVarint, proto.WireFixed32, proto.WireFixed64, proto.WireBytes:
+		default:
+			return errors.Errorf(`unsupported type: %d`, typ)
+		}
 		s := fieldDataSize(typ, buf[idx:])
 		if s <= 0 {
 			return io.ErrUnexpectedEOF
-- 
2.43.0


From d68320fbaa4cb2742c6537fde5568351deb40e80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:39 +0000
Subject: [PATCH 3/8] fix: skip unknown fields in Decode

A field number beyond the highest one of the schema made Decode panic.
---
 zeropb.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/zeropb.go b/zeropb.go
index 9099119..4cfd907 100644
--- a/zeropb.go
+++ b/zeropb.go
@@ -441,7 +441,9 @@ func Decode(buf []byte, offsets Offsets, repeatedFields RepeatedFields) error {
 
 		// TODO(dan): It's odd that we're passing in only the repeatedness of the
 		// field. Maybe pass in some sort of field descriptor instead?
-		if _, ok := repeatedFields[fieldID]; ok {
+		if fieldID >= len(offsets.a) {
+			// An unknown field: there is nowhere to record it. Skip over it.
+		} else if _, ok := repeatedFields[fieldID]; ok {
 			// For a repeated field, set the offset if this is the first one we've
 			// found but don't overwrite an earlier offset. The repeated field
 			// iterator will start from this offset and re-parse the rest of the
-- 
2.43.0


From 78b6c2589d32f7aa618b686c64aeb5cb388ff326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:41 +0000
Subject: [PATCH 4/8] fix: cap the slices handed out by GetBytes and
 FindNextField

With their spare capacity reaching into the parent, appending to them or
setting a field of an embedded message overwrote the rest of the parent.
---
 zeropb.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/zeropb.go b/zeropb.go
index 4cfd907..ce1237e 100644
--- a/zeropb.go
+++ b/zeropb.go
@@ -165,7 +165,7 @@ func GetBytes(buf []byte, offsets Offsets, fieldID int) []byte {
 	}
 	len, lenSize := binary.Uvarint(buf[offset:])
 	offset += uint64(lenSize)
-	return buf[offset : offset+len]
+	return buf[offset : offset+len : offset+len]
 }
 
 // SetBool set an encoded bool field with the given field id, overwriting an
@@ -483,7 +483,7 @@ func FindNextField(buf []byte, field int) ([]byte, []byte) {
 	// NB: FindNextField doesn't do the same bounds checking that Decode does
 	// because Decode has already validated the input.
 	msgLen, lenSize := binary.Uvarint(buf)
-	msg := buf[lenSize : lenSize+int(msgLen)]
+	msg := buf[lenSize : lenSize+int(msgLen) : lenSize+int(msgLen)]
 	for idx := lenSize + int(msgLen); idx < len(buf); {
 		tag, size := binary.Uvarint(buf[idx:])
 		idx += size
-- 
2.43.0


From 288d84c4bd1d44330945a622724accb243d23631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:42 +0000
Subject: [PATCH 5/8] fix: only overwrite an old value with the expected tag in
 setSingle

The length of the old encoding was computed from the new tag and wire type,
so a field decoded with another wire type or a non-minimal tag varint was cut
out wrongly, corrupting its neighbours.
---
 zeropb.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/zeropb.go b/zeropb.go
index ce1237e..b45507d 100644
--- a/zeropb.go
+++ b/zeropb.go
@@ -3,6 +3,7 @@
 package zeropb
 
 import (
+	"bytes"
 	"encoding/binary"
 	"io"
 	"math"
@@ -331,7 +332,10 @@ func setSingle(buf *[]byte, offsets Offsets, fieldID, typ int, valLen, val []byt
 	tag := uint64(fieldID<<3 | typ)
 	tagLen := binary.PutUvarint(scratch[:], tag)
 
-	if offset, ok := offsets.Get(fieldID); ok {
+	// If the old value has a different tag (another wire type or a non-minimal
+	// varint), leave it alone: the last occurrence of a field is the one that
+	// counts.
+	if offset, ok := offsets.Get(fieldID); ok && bytes.HasSuffix((*buf)[:offset], scratch[:tagLen]) {
 		var oldLen int
 		switch typ {
 		case proto.WireVarint:
@@ -356,7 +360,6 @@ func setSingle(buf *[]byte, offsets Offsets, fieldID, typ int, valLen, val []byt
 		}
 
 		fieldBegin, fieldEnd := offset-uint64(tagLen), offset+uint64(oldLen)
-		// TODO(dan): sanity check that we got the same tag bytes here?
 		copy((*buf)[fieldBegin:], (*buf)[fieldEnd:])
 		removedBytes := fieldEnd - fieldBegin
 		(*buf) = (*buf)[:uint64(len(*buf))-removedBytes]
-- 
2.43.0


From 3799a2ca867c1cc2f64cf010b0677ea9d2cd399b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:43 +0000
Subject: [PATCH 6/8] fix: allow setting a field to a slice of the message
 itself in setSingle

The old encoding was removed before the new value was copied out of it.
---
 zeropb.go | 29 +++++++++++++++++++----------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/zeropb.go b/zeropb.go
index b45507d..daa3e9b 100644
--- a/zeropb.go
+++ b/zeropb.go
@@ -332,6 +332,8 @@ func setSingle(buf *[]byte, offsets Offsets, fieldID, typ int, valLen, val []byt
 	tag := uint64(fieldID<<3 | typ)
 	tagLen := binary.PutUvarint(scratch[:], tag)
 
+	// The old value to remove, if any.
+	var fieldBegin, fieldEnd uint64
 	// If the old value has a different tag (another wire type or a non-minimal
 	// varint), leave it alone: the last occurrence of a field is the one that
 	// counts.
@@ -352,17 +354,29 @@ func setSingle(buf *[]byte, offsets Offsets, fieldID, typ int, valLen, val []byt
 		}
 
 		// Performance optimization: if the new value is exactly the same length as
-		// the old one, simply overwrite it.
+		// the old one, simply overwrite it. NB: val goes first, it might be a slice
+		// of the old one.
 		if int(oldLen) == len(valLen)+len(val) {
-			offset += uint64(copy((*buf)[offset:], valLen))
-			offset += uint64(copy((*buf)[offset:], val))
+			copy((*buf)[offset+uint64(len(valLen)):], val)
+			copy((*buf)[offset:], valLen)
 			return
 		}
 
-		fieldBegin, fieldEnd := offset-uint64(tagLen), offset+uint64(oldLen)
+		fieldBegin, fieldEnd = offset-uint64(tagLen), offset+uint64(oldLen)
+	}
+
+	// NB: This happens before the old value is removed because val might be a
+	// slice of it.
+	*buf = append(*buf, scratch[:tagLen]...)
+	newOffset := uint64(len(*buf))
+	*buf = append(*buf, valLen...)
+	*buf = append(*buf, val...)
+
+	if fieldEnd > 0 {
 		copy((*buf)[fieldBegin:], (*buf)[fieldEnd:])
 		removedBytes := fieldEnd - fieldBegin
 		(*buf) = (*buf)[:uint64(len(*buf))-removedBytes]
+		newOffset -= removedBytes
 
 		// Adjust every offset in the map that's larger than fieldEnd down by
 		// removedBytes.
@@ -383,12 +397,7 @@ func setSingle(buf *[]byte, offsets Offsets, fieldID, typ int, valLen, val []byt
 			}
 		}
 	}
-	*buf = append(*buf, scratch[:tagLen]...)
-
-	offset := len(*buf)
-	offsets.Set(fieldID, uint64(offset))
-	*buf = append(*buf, valLen...)
-	*buf = append(*buf, val...)
+	offsets.Set(fieldID, newOffset)
 }
 
 func appendSingle(buf *[]byte, offsets Offsets, fieldID, typ int, valLen, val []byte) {
-- 
2.43.0


From 6f4b8ad1df21439f59e573cb0651136d8c5e1d44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:57 +0000
Subject: [PATCH 7/8] fix: only replace the .proto suffix of the source file
 name

A .proto elsewhere in the path was replaced too.
---
 generate/generate.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/generate/generate.go b/generate/generate.go
index 865c09f..0642a17 100644
--- a/generate/generate.go
+++ b/generate/generate.go
@@ -49,7 +49,7 @@ func generateFile(req *FileDescriptorProto) (*CodeGeneratorResponse_File, error)
 		generateMessage(st, indent, *m)
 	}
 
-	name := strings.ReplaceAll(req.GetName(), `.proto`, `.zeropb.go`)
+	name := strings.TrimSuffix(req.GetName(), `.proto`) + `.zeropb.go`
 	content := buf.String()
 	res := &CodeGeneratorResponse_File{Name: &name, Content: &content}
 	return res, nil
-- 
2.43.0


From 4f69d617cdbb9093965684e5ea2608b2059a2993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:58 +0000
Subject: [PATCH 8/8] fix: exit with a failure status when a plugin fails

---
 cmd/protoc-gen-text/main.go   | 1 +
 cmd/protoc-gen-zeropb/main.go | 1 +
 2 files changed, 2 insertions(+)

diff --git a/cmd/protoc-gen-text/main.go b/cmd/protoc-gen-text/main.go
index 815ad11..369de75 100644
--- a/cmd/protoc-gen-text/main.go
+++ b/cmd/protoc-gen-text/main.go
@@ -29,5 +29,6 @@ func run() error {
 func main() {
 	if err := run(); err != nil {
 		fmt.Fprintf(os.Stderr, "%+v\n", err)
+		os.Exit(1)
 	}
 }
diff --git a/cmd/protoc-gen-zeropb/main.go b/cmd/protoc-gen-zeropb/main.go
index 2915585..97a5529 100644
--- a/cmd/protoc-gen-zeropb/main.go
+++ b/cmd/protoc-gen-zeropb/main.go
@@ -37,5 +37,6 @@ func run() error {
 func main() {
 	if err := run(); err != nil {
 		fmt.Fprintf(os.Stderr, "%+v\n", err)
+		os.Exit(1)
 	}
 }
-- 
2.43.0

