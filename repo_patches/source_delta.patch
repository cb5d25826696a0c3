From d60882b87a8de631e06c48e56337b063a8e1ea6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:20 +0000
Subject: [PATCH 01/29] fix: size the varint buffers for 64-bit values

WriteUVarInt and WriteVarInt used an 8-byte buffer, so values that need
nine or ten bytes (>= 2^56, or negative) panicked.
---
 encoder.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/encoder.go b/encoder.go
index 37a7775..a8ebcee 100644
--- a/encoder.go
+++ b/encoder.go
@@ -152,7 +152,7 @@ func (e *Encoder) WriteUVarInt(v int) (err error) {
 		zlog.Debug("encode: write uvarint", zap.Int("val", v))
 	}
 
-	buf := make([]byte, 8)
+	buf := make([]byte, binary.MaxVarintLen64)
 	l := binary.PutUvarint(buf, uint64(v))
 	return e.toWriter(buf[:l])
 }
@@ -162,7 +162,7 @@ func (e *Encoder) WriteVarInt(v int) (err error) {
 		zlog.Debug("encode: write varint", zap.Int("val", v))
 	}
 
-	buf := make([]byte, 8)
+	buf := make([]byte, binary.MaxVarintLen64)
 	l := binary.PutVarint(buf, int64(v))
 	return e.toWriter(buf[:l])
 }
-- 
2.43.0


From 04bbefc15fe752d1829ac66ddfb42f54c8ee0fe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:36 +0000
Subject: [PATCH 02/29] fix: report compact-u16 lengths that cannot be encoded

WriteCompactU16 and WriteLength dropped the range error, so a slice, map
or string longer than 65535 was silently written without its length.
---
 encoder.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/encoder.go b/encoder.go
index a8ebcee..06e6758 100644
--- a/encoder.go
+++ b/encoder.go
@@ -137,7 +137,9 @@ func (e *Encoder) WriteLength(length int) error {
 		}
 	case EncodingCompactU16:
 		var buf []byte
-		EncodeCompactU16Length(&buf, length)
+		if err := EncodeCompactU16Length(&buf, length); err != nil {
+			return err
+		}
 		if err := e.WriteBytes(buf, false); err != nil {
 			return err
 		}
@@ -353,7 +355,9 @@ func (e *Encoder) WriteCompactU16(ln int) (err error) {
 		zlog.Debug("encode: write compact-u16", zap.Int("val", ln))
 	}
 	buf := make([]byte, 0)
-	EncodeCompactU16Length(&buf, ln)
+	if err := EncodeCompactU16Length(&buf, ln); err != nil {
+		return err
+	}
 	return e.toWriter(buf)
 }
 
-- 
2.43.0


From f0d4ddeaa8f9a44ba35c6ca8a8862700ed64dbcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:55 +0000
Subject: [PATCH 03/29] fix: decode optional values that have a custom
 unmarshaler in place

An optional field whose (non-pointer) type implements BinaryUnmarshaler
made the decoder panic on an invalid reflect.Value.
---
 decoder.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/decoder.go b/decoder.go
index c843348..da3edc3 100644
--- a/decoder.go
+++ b/decoder.go
@@ -743,7 +743,9 @@ func indirect(v reflect.Value, decodingNull bool) (BinaryUnmarshaler, reflect.Va
 		if v.IsNil() {
 			v.Set(reflect.New(v.Type().Elem()))
 		}
-		if v.Type().NumMethod() > 0 && v.CanInterface() {
+		// When decoding an optional value stored in place, stop at the value
+		// itself so that it can be set to its zero value.
+		if v.Type().NumMethod() > 0 && v.CanInterface() && !(decodingNull && haveAddr) {
 			if u, ok := v.Interface().(BinaryUnmarshaler); ok {
 				return u, reflect.Value{}
 			}
-- 
2.43.0


From 6b8428698babc543526734f49acd965ac0ec42e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:57 +0000
Subject: [PATCH 04/29] fix: let Borsh fields with custom unmarshalers go
 through the field options

The special case in the Borsh struct decoder ignored the optional and
coption flags that the encoder writes, used the byte order of whatever
field came before, and never registered sizeof counts; the general path
handles custom unmarshalers already.
---
 decoder_borsh.go | 31 -------------------------------
 1 file changed, 31 deletions(-)

diff --git a/decoder_borsh.go b/decoder_borsh.go
index bcac383..957c6df 100644
--- a/decoder_borsh.go
+++ b/decoder_borsh.go
@@ -408,32 +408,6 @@ func (dec *Decoder) decodeStructBorsh(rt reflect.Type, rv reflect.Value) (err er
 			)
 		}
 
-		rt := v.Type()
-		ptrImplements := reflect.PtrTo(rt).Implements(unmarshalableType)
-		vImplements := rt.Implements(unmarshalableType)
-		if ptrImplements || vImplements {
-			switch {
-			case ptrImplements:
-				m := reflect.New(rt)
-				val := m.Interface()
-				err := val.(BinaryUnmarshaler).UnmarshalWithDecoder(dec)
-				if err != nil {
-					return err
-				}
-				v.Set(reflect.ValueOf(val).Elem())
-				continue
-			case vImplements:
-				m := reflect.New(rt.Elem())
-				val := m.Interface()
-				err := val.(BinaryUnmarshaler).UnmarshalWithDecoder(dec)
-				if err != nil {
-					return err
-				}
-				v.Set(reflect.ValueOf(val))
-				continue
-			}
-		}
-
 		if err = dec.decodeBorsh(v, option); err != nil {
 			return fmt.Errorf("error while decoding %q field: %w", structField.Name, err)
 		}
@@ -451,8 +425,3 @@ func (dec *Decoder) decodeStructBorsh(rt reflect.Type, rv reflect.Value) (err er
 	}
 	return
 }
-
-var (
-	marshalableType   = reflect.TypeOf((*BinaryMarshaler)(nil)).Elem()
-	unmarshalableType = reflect.TypeOf((*BinaryUnmarshaler)(nil)).Elem()
-)
-- 
2.43.0


From bfe8e9a43b195677a2a4d91058a84a6b417e9eb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:19 +0000
Subject: [PATCH 05/29] fix: encode every kind of Borsh enum payload

Only struct and primitive payloads were written: slices, arrays, maps and
nil pointers were silently dropped after the discriminant, and custom
marshalers were bypassed, so the decoder could not read the value back.
---
 encoder_borsh.go | 15 +--------------
 1 file changed, 1 insertion(+), 14 deletions(-)

diff --git a/encoder_borsh.go b/encoder_borsh.go
index c1cc611..e34d31f 100644
--- a/encoder_borsh.go
+++ b/encoder_borsh.go
@@ -257,20 +257,7 @@ func (enc *Encoder) encodeComplexEnumBorsh(rv reflect.Value) error {
 	if int(enum)+1 >= t.NumField() {
 		return errors.New("complex enum too large")
 	}
-	// Enum is empty
-	field := rv.Field(int(enum) + 1)
-	if field.Kind() == reflect.Ptr {
-		field = field.Elem()
-	}
-	if field.Kind() == reflect.Struct {
-		return enc.encodeStructBorsh(field.Type(), field)
-	}
-	// Encode the value if it's a primitive type
-	isPrimitive, err := enc.encodePrimitive(field, nil)
-	if isPrimitive {
-		return err
-	}
-	return nil
+	return enc.encodeBorsh(rv.Field(int(enum)+1), nil)
 }
 
 type BorshEnum uint8
-- 
2.43.0


From 097abe7281ba950d3beb87b949744831a0a2132e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:22 +0000
Subject: [PATCH 06/29] fix: encode Borsh maps keyed by named 64-bit integers

The key comparison asserted the dynamic type int64/uint64 and panicked
for any named type of those kinds.
---
 encoder_borsh.go | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/encoder_borsh.go b/encoder_borsh.go
index e34d31f..90f3cb2 100644
--- a/encoder_borsh.go
+++ b/encoder_borsh.go
@@ -364,14 +364,10 @@ func vComp(keys []reflect.Value) func(int, int) bool {
 			b = b.Elem()
 		}
 		switch a.Kind() {
-		case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32:
+		case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
 			return a.Int() < b.Int()
-		case reflect.Int64:
-			return a.Interface().(int64) < b.Interface().(int64)
-		case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32:
+		case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
 			return a.Uint() < b.Uint()
-		case reflect.Uint64:
-			return a.Interface().(uint64) < b.Interface().(uint64)
 		case reflect.Float32, reflect.Float64:
 			return a.Float() < b.Float()
 		case reflect.String:
-- 
2.43.0


From 42f1136554dfcb8f3dad135b7b873b12d86b5592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:24 +0000
Subject: [PATCH 07/29] fix: return InvalidDecoderError for a nil pointer
 target

Decode of a typed nil pointer panicked inside reflect.
---
 decoder_bin.go         | 2 +-
 decoder_borsh.go       | 2 +-
 decoder_compact-u16.go | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/decoder_bin.go b/decoder_bin.go
index ca58676..4e500ed 100644
--- a/decoder_bin.go
+++ b/decoder_bin.go
@@ -28,7 +28,7 @@ import (
 
 func (dec *Decoder) decodeWithOptionBin(v interface{}, option *option) (err error) {
 	rv := reflect.ValueOf(v)
-	if rv.Kind() != reflect.Ptr {
+	if rv.Kind() != reflect.Ptr || rv.IsNil() {
 		return &InvalidDecoderError{reflect.TypeOf(v)}
 	}
 
diff --git a/decoder_borsh.go b/decoder_borsh.go
index 957c6df..1fbfb66 100644
--- a/decoder_borsh.go
+++ b/decoder_borsh.go
@@ -28,7 +28,7 @@ import (
 
 func (dec *Decoder) decodeWithOptionBorsh(v interface{}, option *option) (err error) {
 	rv := reflect.ValueOf(v)
-	if rv.Kind() != reflect.Ptr {
+	if rv.Kind() != reflect.Ptr || rv.IsNil() {
 		return &InvalidDecoderError{reflect.TypeOf(v)}
 	}
 
diff --git a/decoder_compact-u16.go b/decoder_compact-u16.go
index 13396dd..7801bde 100644
--- a/decoder_compact-u16.go
+++ b/decoder_compact-u16.go
@@ -27,7 +27,7 @@ import (
 
 func (dec *Decoder) decodeWithOptionCompactU16(v interface{}, option *option) (err error) {
 	rv := reflect.ValueOf(v)
-	if rv.Kind() != reflect.Ptr {
+	if rv.Kind() != reflect.Ptr || rv.IsNil() {
 		return &InvalidDecoderError{reflect.TypeOf(v)}
 	}
 
-- 
2.43.0


From b7ffcaf3a159f2f1b1c7e0d3a1def7bf22bda3d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:27 +0000
Subject: [PATCH 08/29] fix: reject positions that overflow int in SetPosition

An index above MaxInt became a negative position and the next read
panicked.
---
 decoder.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/decoder.go b/decoder.go
index da3edc3..e9c226d 100644
--- a/decoder.go
+++ b/decoder.go
@@ -660,7 +660,7 @@ func (dec *Decoder) SkipBytes(count uint) error {
 }
 
 func (dec *Decoder) SetPosition(idx uint) error {
-	if int(idx) < len(dec.data) {
+	if idx < uint(len(dec.data)) {
 		dec.pos = int(idx)
 		return nil
 	}
-- 
2.43.0


From e6fd8ebe34a40fb5344815408e780c0d694b3fcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:06 +0000
Subject: [PATCH 09/29] fix: reject negative sizeof counts when decoding slices

A negative count read from a signed sizeof field panicked in make (or was
taken for an empty slice, depending on the element type).
---
 decoder_bin.go         | 2 +-
 decoder_borsh.go       | 2 +-
 decoder_compact-u16.go | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/decoder_bin.go b/decoder_bin.go
index 4e500ed..910a04e 100644
--- a/decoder_bin.go
+++ b/decoder_bin.go
@@ -189,7 +189,7 @@ func (dec *Decoder) decodeBin(rv reflect.Value, opt *option) (err error) {
 			zlog.Debug("reading slice", zap.Int("len", l), typeField("type", rv))
 		}
 
-		if l > dec.Remaining() {
+		if l < 0 || l > dec.Remaining() {
 			return io.ErrUnexpectedEOF
 		}
 
diff --git a/decoder_borsh.go b/decoder_borsh.go
index 1fbfb66..d586321 100644
--- a/decoder_borsh.go
+++ b/decoder_borsh.go
@@ -228,7 +228,7 @@ func (dec *Decoder) decodeBorsh(rv reflect.Value, opt *option) (err error) {
 			// Empty slices are left nil
 			return
 		}
-		if l > dec.Remaining() {
+		if l < 0 || l > dec.Remaining() {
 			return io.ErrUnexpectedEOF
 		}
 
diff --git a/decoder_compact-u16.go b/decoder_compact-u16.go
index 7801bde..9f6f67b 100644
--- a/decoder_compact-u16.go
+++ b/decoder_compact-u16.go
@@ -188,7 +188,7 @@ func (dec *Decoder) decodeCompactU16(rv reflect.Value, opt *option) (err error)
 			zlog.Debug("reading slice", zap.Int("len", l), typeField("type", rv))
 		}
 
-		if l > dec.Remaining() {
+		if l < 0 || l > dec.Remaining() {
 			return io.ErrUnexpectedEOF
 		}
 
-- 
2.43.0


From d326c0b71a1f4f917d9dea9b74c92c43a59a3357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:08 +0000
Subject: [PATCH 10/29] fix: clear the destination when an empty slice or map
 is decoded

Decoding an empty Borsh slice, or an empty map in any encoding, into a
variable that already had contents left the old contents in place.
---
 decoder_bin.go         | 3 ++-
 decoder_borsh.go       | 4 +++-
 decoder_compact-u16.go | 3 ++-
 3 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/decoder_bin.go b/decoder_bin.go
index 910a04e..3e2fa18 100644
--- a/decoder_bin.go
+++ b/decoder_bin.go
@@ -223,7 +223,8 @@ func (dec *Decoder) decodeBin(rv reflect.Value, opt *option) (err error) {
 			return err
 		}
 		if l == 0 {
-			// If the map has no content, keep it nil.
+			// If the map has no content, leave it nil.
+			rv.Set(reflect.Zero(rt))
 			return nil
 		}
 		rv.Set(reflect.MakeMap(rt))
diff --git a/decoder_borsh.go b/decoder_borsh.go
index d586321..6e9e598 100644
--- a/decoder_borsh.go
+++ b/decoder_borsh.go
@@ -226,6 +226,7 @@ func (dec *Decoder) decodeBorsh(rv reflect.Value, opt *option) (err error) {
 
 		if l == 0 {
 			// Empty slices are left nil
+			rv.Set(reflect.Zero(rt))
 			return
 		}
 		if l < 0 || l > dec.Remaining() {
@@ -262,7 +263,8 @@ func (dec *Decoder) decodeBorsh(rv reflect.Value, opt *option) (err error) {
 			return err
 		}
 		if l == 0 {
-			// If the map has no content, keep it nil.
+			// If the map has no content, leave it nil.
+			rv.Set(reflect.Zero(rt))
 			return nil
 		}
 		rv.Set(reflect.MakeMap(rt))
diff --git a/decoder_compact-u16.go b/decoder_compact-u16.go
index 9f6f67b..c1411c3 100644
--- a/decoder_compact-u16.go
+++ b/decoder_compact-u16.go
@@ -222,7 +222,8 @@ func (dec *Decoder) decodeCompactU16(rv reflect.Value, opt *option) (err error)
 			return err
 		}
 		if l == 0 {
-			// If the map has no content, keep it nil.
+			// If the map has no content, leave it nil.
+			rv.Set(reflect.Zero(rt))
 			return nil
 		}
 		rv.Set(reflect.MakeMap(rt))
-- 
2.43.0


From cddfff172791de919fa8e9cd644b7608307a35dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:10 +0000
Subject: [PATCH 11/29] fix: cap the byte slices handed out by the decoder

They kept the capacity of the rest of the input, so appending to one
decoded byte slice overwrote the bytes that follow it: other decoded
fields, or input not decoded yet.
---
 decoder.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/decoder.go b/decoder.go
index e9c226d..b3de6a7 100644
--- a/decoder.go
+++ b/decoder.go
@@ -238,7 +238,7 @@ func (dec *Decoder) ReadByteSlice() (out []byte, err error) {
 		return nil, fmt.Errorf("byte array: varlen=%d, missing %d bytes", length, dec.pos+length-len(dec.data))
 	}
 
-	out = dec.data[dec.pos : dec.pos+length]
+	out = dec.data[dec.pos : dec.pos+length : dec.pos+length]
 	dec.pos += length
 	if traceEnabled {
 		zlog.Debug("decode: read byte array", zap.Stringer("hex", HexBytes(out)))
@@ -288,7 +288,7 @@ func readNBytes(n int, reader *Decoder) ([]byte, error) {
 	if reader.pos+n > len(reader.data) {
 		return nil, fmt.Errorf("not enough data: %d bytes missing", reader.pos+n-len(reader.data))
 	}
-	out := reader.data[reader.pos : reader.pos+n]
+	out := reader.data[reader.pos : reader.pos+n : reader.pos+n]
 	reader.pos += n
 	return out, nil
 }
@@ -361,7 +361,7 @@ func (dec *Decoder) Peek(n int) (out []byte, err error) {
 		return
 	}
 
-	out = dec.data[dec.pos : dec.pos+n]
+	out = dec.data[dec.pos : dec.pos+n : dec.pos+n]
 	if traceEnabled {
 		zlog.Debug("decode: peek", zap.Int("n", n), zap.Binary("out", out))
 	}
-- 
2.43.0


From 562d6ab51f25fd446a11f081af23d852283964bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:12 +0000
Subject: [PATCH 12/29] fix: do not panic when tracing the encoding of a map

With tracing on, the bin and compact-u16 encoders called Elem on the map
value and panicked; use the map itself, as the Borsh encoder does.
---
 encoder_bin.go         | 2 +-
 encoder_compact-u16.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/encoder_bin.go b/encoder_bin.go
index 4ba95ec..938009d 100644
--- a/encoder_bin.go
+++ b/encoder_bin.go
@@ -167,7 +167,7 @@ func (e *Encoder) encodeBin(rv reflect.Value, opt *option) (err error) {
 			zlog.Debug("encode: map",
 				zap.Int("key_count", keyCount),
 				zap.String("key_type", rt.String()),
-				typeField("value_type", rv.Elem()),
+				typeField("value_type", rv),
 			)
 			defer func(prev *zap.Logger) { zlog = prev }(zlog)
 			zlog = zlog.Named("struct")
diff --git a/encoder_compact-u16.go b/encoder_compact-u16.go
index 2616177..1c7aa48 100644
--- a/encoder_compact-u16.go
+++ b/encoder_compact-u16.go
@@ -165,7 +165,7 @@ func (e *Encoder) encodeCompactU16(rv reflect.Value, opt *option) (err error) {
 			zlog.Debug("encode: map",
 				zap.Int("key_count", keyCount),
 				zap.String("key_type", rt.String()),
-				typeField("value_type", rv.Elem()),
+				typeField("value_type", rv),
 			)
 			defer func(prev *zap.Logger) { zlog = prev }(zlog)
 			zlog = zlog.Named("struct")
-- 
2.43.0


From 6ebea2edafe78e8e5212f578bcc075d290921aa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:14 +0000
Subject: [PATCH 13/29] fix: keep the sizeof count for Borsh pointers to slices

The encoder dropped the field options at the pointer and wrote a length
prefix that the decoder, which honours the count, does not read.
---
 encoder_borsh.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/encoder_borsh.go b/encoder_borsh.go
index 90f3cb2..456262c 100644
--- a/encoder_borsh.go
+++ b/encoder_borsh.go
@@ -131,9 +131,9 @@ func (e *Encoder) encodeBorsh(rv reflect.Value, opt *option) (err error) {
 	case reflect.Ptr:
 		if rv.IsNil() {
 			el := reflect.New(rv.Type().Elem()).Elem()
-			return e.encodeBorsh(el, nil)
+			return e.encodeBorsh(el, opt)
 		} else {
-			return e.encodeBorsh(rv.Elem(), nil)
+			return e.encodeBorsh(rv.Elem(), opt)
 		}
 	case reflect.Interface:
 		// skip
-- 
2.43.0


From 138e66e4aaaf94379d82a179f54c0db3020f16f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:16 +0000
Subject: [PATCH 14/29] fix: copy the bytes that WriteByWrite records

It retained the caller's slice, which io.Writer forbids: a caller that
reuses its buffer changed what had been recorded.
---
 tools.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tools.go b/tools.go
index 9c7c8b3..bea1800 100644
--- a/tools.go
+++ b/tools.go
@@ -50,7 +50,8 @@ func NewWriteByWrite(name string) *WriteByWrite {
 }
 
 func (rec *WriteByWrite) Write(b []byte) (int, error) {
-	rec.writes = append(rec.writes, b)
+	// A writer must not retain the slice it is given.
+	rec.writes = append(rec.writes, append([]byte(nil), b...))
 	return len(b), nil
 }
 
-- 
2.43.0


From 570368bf88a5a524396f9fc1703c00320aaa4a31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:18 +0000
Subject: [PATCH 15/29] fix: count only the bytes that the writer accepted

Written() included bytes that the underlying writer had refused.
---
 encoder.go | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/encoder.go b/encoder.go
index 06e6758..1da121a 100644
--- a/encoder.go
+++ b/encoder.go
@@ -86,11 +86,7 @@ func (e *Encoder) Encode(v interface{}) (err error) {
 }
 
 func (e *Encoder) toWriter(bytes []byte) (err error) {
-	e.count += len(bytes)
-	if traceEnabled {
-		zlog.Debug("	> encode: appending", zap.Stringer("hex", HexBytes(bytes)), zap.Int("pos", e.count))
-	}
-	_, err = e.output.Write(bytes)
+	_, err = e.Write(bytes)
 	return
 }
 
@@ -115,11 +111,12 @@ func (e *Encoder) WriteBytes(b []byte, writeLength bool) error {
 }
 
 func (e *Encoder) Write(b []byte) (n int, err error) {
-	e.count += len(b)
+	n, err = e.output.Write(b)
+	e.count += n
 	if traceEnabled {
 		zlog.Debug("	> encode: appending", zap.Stringer("hex", HexBytes(b)), zap.Int("pos", e.count))
 	}
-	return e.output.Write(b)
+	return n, err
 }
 
 func (e *Encoder) WriteLength(length int) error {
-- 
2.43.0


From 1548bbccb5323fe09a0d167330229b83fa6a1ea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:07:09 +0000
Subject: [PATCH 16/29] fix: let Int64, Uint64 and JSONFloat64 be (un)marshaled
 directly

Calling their MarshalWithEncoder or UnmarshalWithDecoder on a fresh coder
dereferenced the options of a field that does not exist.
---
 tags-options.go | 16 ++++++++++++++++
 types.go        | 12 ++++++------
 2 files changed, 22 insertions(+), 6 deletions(-)

diff --git a/tags-options.go b/tags-options.go
index e0da9e6..c940748 100644
--- a/tags-options.go
+++ b/tags-options.go
@@ -40,6 +40,22 @@ func newDefaultOption() *option {
 	}
 }
 
+// currentOrder is the byte order of the field being decoded, if any.
+func (dec *Decoder) currentOrder() binary.ByteOrder {
+	if dec.currentFieldOpt == nil {
+		return defaultByteOrder
+	}
+	return dec.currentFieldOpt.Order
+}
+
+// currentOrder is the byte order of the field being encoded, if any.
+func (e *Encoder) currentOrder() binary.ByteOrder {
+	if e.currentFieldOpt == nil {
+		return defaultByteOrder
+	}
+	return e.currentFieldOpt.Order
+}
+
 func (o *option) clone() *option {
 	out := &option{
 		is_OptionalField:  o.is_OptionalField,
diff --git a/types.go b/types.go
index db56ba3..2f73658 100644
--- a/types.go
+++ b/types.go
@@ -207,7 +207,7 @@ func (f *JSONFloat64) UnmarshalJSON(data []byte) error {
 }
 
 func (f *JSONFloat64) UnmarshalWithDecoder(dec *Decoder) error {
-	value, err := dec.ReadFloat64(dec.currentFieldOpt.Order)
+	value, err := dec.ReadFloat64(dec.currentOrder())
 	if err != nil {
 		return err
 	}
@@ -217,7 +217,7 @@ func (f *JSONFloat64) UnmarshalWithDecoder(dec *Decoder) error {
 }
 
 func (f JSONFloat64) MarshalWithEncoder(enc *Encoder) error {
-	return enc.WriteFloat64(float64(f), enc.currentFieldOpt.Order)
+	return enc.WriteFloat64(float64(f), enc.currentOrder())
 }
 
 type Int64 int64
@@ -267,7 +267,7 @@ func (i *Int64) UnmarshalJSON(data []byte) error {
 }
 
 func (i *Int64) UnmarshalWithDecoder(dec *Decoder) error {
-	value, err := dec.ReadInt64(dec.currentFieldOpt.Order)
+	value, err := dec.ReadInt64(dec.currentOrder())
 	if err != nil {
 		return err
 	}
@@ -277,7 +277,7 @@ func (i *Int64) UnmarshalWithDecoder(dec *Decoder) error {
 }
 
 func (i Int64) MarshalWithEncoder(enc *Encoder) error {
-	return enc.WriteInt64(int64(i), enc.currentFieldOpt.Order)
+	return enc.WriteInt64(int64(i), enc.currentOrder())
 }
 
 type Uint64 uint64
@@ -327,7 +327,7 @@ func (i *Uint64) UnmarshalJSON(data []byte) error {
 }
 
 func (i *Uint64) UnmarshalWithDecoder(dec *Decoder) error {
-	value, err := dec.ReadUint64(dec.currentFieldOpt.Order)
+	value, err := dec.ReadUint64(dec.currentOrder())
 	if err != nil {
 		return err
 	}
@@ -337,5 +337,5 @@ func (i *Uint64) UnmarshalWithDecoder(dec *Decoder) error {
 }
 
 func (i Uint64) MarshalWithEncoder(enc *Encoder) error {
-	return enc.WriteUint64(uint64(i), enc.currentFieldOpt.Order)
+	return enc.WriteUint64(uint64(i), enc.currentOrder())
 }
-- 
2.43.0


From d1491b577de9973b9c3e8b96b5643170b2124057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:07:11 +0000
Subject: [PATCH 17/29] fix: convert the case of names with multi-byte
 characters

The conversions index runes but sliced the string by bytes with those
indices, which cut characters apart and dropped the end of such names.
---
 heck.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/heck.go b/heck.go
index 5053c1e..f785713 100644
--- a/heck.go
+++ b/heck.go
@@ -66,7 +66,7 @@ func transform(
 					}
 					{
 						// with_word(&word[init..next_i], f)?;
-						with_word(word[init:next_i], builder)
+						with_word(string(char_indices.runes[init:next_i]), builder)
 					}
 
 					first_word = false
@@ -84,7 +84,7 @@ func transform(
 					}
 					{
 						// with_word(&word[init..i], f)?;
-						with_word(word[init:i], builder)
+						with_word(string(char_indices.runes[init:i]), builder)
 					}
 					init = i
 					mode = _Boundary
@@ -104,7 +104,7 @@ func transform(
 				}
 				{
 					// with_word(&word[init..], f)?;
-					with_word(word[init:], builder)
+					with_word(string(char_indices.runes[init:]), builder)
 				}
 				break
 			}
@@ -131,7 +131,7 @@ func capitalize(s string, f *strings.Builder) {
 	if i, c := char_indices.Next(); i != -1 {
 		f.WriteString(strings.ToUpper(string(c)))
 		if i, _ := char_indices.Next(); i != -1 {
-			lowercase(s[i:], f)
+			lowercase(string(char_indices.runes[i:]), f)
 		}
 	}
 }
@@ -299,7 +299,7 @@ func ToRustSnakeCase(s string) string {
 					}
 					{
 						// with_word(&word[init..next_i], f)?;
-						builder.WriteString(strings.ToLower(word[init:next_i]))
+						builder.WriteString(strings.ToLower(string(char_indices.runes[init:next_i])))
 					}
 
 					first_word = false
@@ -317,7 +317,7 @@ func ToRustSnakeCase(s string) string {
 					}
 					{
 						// with_word(&word[init..i], f)?;
-						builder.WriteString(strings.ToLower(word[init:i]))
+						builder.WriteString(strings.ToLower(string(char_indices.runes[init:i])))
 					}
 					init = i
 					mode = _Boundary
@@ -337,7 +337,7 @@ func ToRustSnakeCase(s string) string {
 				}
 				{
 					// with_word(&word[init..], f)?;
-					builder.WriteString(strings.ToLower(word[init:]))
+					builder.WriteString(strings.ToLower(string(char_indices.runes[init:])))
 				}
 				break
 			}
-- 
2.43.0


From 230507990f6cf46dcc9f4ba126301c2b8ac1f847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:07:13 +0000
Subject: [PATCH 18/29] fix: parse 128-bit JSON values of any size and byte
 order

Decimals above 128 bits panicked, negative ones lost their sign, values
with a big-endian byte order were read byte-swapped, and the hex form
demanded 16 digits and then panicked; it now reads what HexString writes.
---
 u128.go | 34 ++++++++++++++--------------------
 1 file changed, 14 insertions(+), 20 deletions(-)

diff --git a/u128.go b/u128.go
index 7ea82d9..0bafeb9 100644
--- a/u128.go
+++ b/u128.go
@@ -125,40 +125,34 @@ func (i *Uint128) unmarshalJSON_decimal(s string) error {
 	if !ok {
 		return fmt.Errorf("could not parse %q", s)
 	}
-	oo := parsed.FillBytes(make([]byte, 16))
-	ReverseBytes(oo)
-
-	dec := NewBinDecoder(oo)
+	return i.setBigInt(parsed)
+}
 
-	out, err := dec.ReadUint128(i.getByteOrder())
-	if err != nil {
-		return err
+// setBigInt sets the value of i, leaving its byte order as it is.
+func (i *Uint128) setBigInt(v *big.Int) error {
+	if v.Sign() < 0 || v.BitLen() > 128 {
+		return fmt.Errorf("value %s does not fit in 128 bits", v)
 	}
-	i.Lo = out.Lo
-	i.Hi = out.Hi
+	buf := v.FillBytes(make([]byte, 16))
+	i.Hi = binary.BigEndian.Uint64(buf[:8])
+	i.Lo = binary.BigEndian.Uint64(buf[8:])
 
 	return nil
 }
 
 func (i *Uint128) unmarshalJSON_hex(s string) error {
 	truncatedVal := s[2:]
-	if len(truncatedVal) != 16 {
-		return fmt.Errorf("uint128 expects 16 characters after 0x, had %v", len(truncatedVal))
+	if len(truncatedVal) != 32 {
+		return fmt.Errorf("uint128 expects 32 characters after 0x, had %v", len(truncatedVal))
 	}
 
+	// Same form as HexString: most significant byte first.
 	data, err := hex.DecodeString(truncatedVal)
 	if err != nil {
 		return err
 	}
-
-	order := i.getByteOrder()
-	if order == binary.LittleEndian {
-		i.Lo = order.Uint64(data[:8])
-		i.Hi = order.Uint64(data[8:])
-	} else {
-		i.Hi = order.Uint64(data[:8])
-		i.Lo = order.Uint64(data[8:])
-	}
+	i.Hi = binary.BigEndian.Uint64(data[:8])
+	i.Lo = binary.BigEndian.Uint64(data[8:])
 
 	return nil
 }
-- 
2.43.0


From bb97b31036810dd80803a2642efef9df692f8379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:01 +0000
Subject: [PATCH 19/29] fix: show and parse Int128 as a signed number

String and MarshalJSON wrote the two's complement of a negative Int128 as an
unsigned number (DecimalString and BigInt are signed), and UnmarshalJSON
refused a minus sign.
---
 u128.go | 29 ++++++++++++++++++++++-------
 1 file changed, 22 insertions(+), 7 deletions(-)

diff --git a/u128.go b/u128.go
index 0bafeb9..d3a1a36 100644
--- a/u128.go
+++ b/u128.go
@@ -202,7 +202,7 @@ func (i Int128) BigInt() *big.Int {
 }
 
 func (i Int128) String() string {
-	return Uint128(i).String()
+	return i.DecimalString()
 }
 
 func (i Int128) DecimalString() string {
@@ -210,21 +210,36 @@ func (i Int128) DecimalString() string {
 }
 
 func (i Int128) MarshalJSON() (data []byte, err error) {
-	return []byte(`"` + Uint128(i).String() + `"`), nil
+	return []byte(`"` + i.String() + `"`), nil
 }
 
 func (i *Int128) UnmarshalJSON(data []byte) error {
-	var el Uint128
-	if err := json.Unmarshal(data, &el); err != nil {
+	var s string
+	if err := json.Unmarshal(data, &s); err != nil {
 		return err
 	}
 
-	out := Int128(el)
-	*i = out
+	// The two's complement of a negative value is also accepted, as an
+	// unsigned number.
+	if !strings.HasPrefix(s, "-") {
+		return (*Uint128)(i).UnmarshalJSON(data)
+	}
 
-	return nil
+	parsed, ok := (&big.Int{}).SetString(s, 0)
+	if !ok {
+		return fmt.Errorf("could not parse %q", s)
+	}
+	if parsed.Cmp(minInt128) < 0 {
+		return fmt.Errorf("value %s does not fit in 128 bits", parsed)
+	}
+	if parsed.Sign() < 0 {
+		parsed.Add(parsed, (&big.Int{}).Lsh(big.NewInt(1), 128))
+	}
+	return (*Uint128)(i).setBigInt(parsed)
 }
 
+var minInt128 = (&big.Int{}).Neg((&big.Int{}).Lsh(big.NewInt(1), 127))
+
 func (i *Int128) UnmarshalWithDecoder(dec *Decoder) error {
 	var order binary.ByteOrder
 	if dec != nil && dec.currentFieldOpt != nil {
-- 
2.43.0


From 909dbfb9ca7827e20ea1552bca03877b4431775b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:41:02 +0000
Subject: [PATCH 20/29] fix: encode maps with NaN keys

Looking a NaN key up in its own map yields the zero reflect.Value, so
encoding such a map with the bin or compact-u16 encoding panicked.
---
 encoder_bin.go         | 7 ++++---
 encoder_compact-u16.go | 7 ++++---
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/encoder_bin.go b/encoder_bin.go
index 938009d..bbcd763 100644
--- a/encoder_bin.go
+++ b/encoder_bin.go
@@ -177,12 +177,13 @@ func (e *Encoder) encodeBin(rv reflect.Value, opt *option) (err error) {
 			return
 		}
 
-		for _, mapKey := range rv.MapKeys() {
-			if err = e.Encode(mapKey.Interface()); err != nil {
+		// A NaN key cannot be looked up: iterate over the entries.
+		for iter := rv.MapRange(); iter.Next(); {
+			if err = e.Encode(iter.Key().Interface()); err != nil {
 				return
 			}
 
-			if err = e.Encode(rv.MapIndex(mapKey).Interface()); err != nil {
+			if err = e.Encode(iter.Value().Interface()); err != nil {
 				return
 			}
 		}
diff --git a/encoder_compact-u16.go b/encoder_compact-u16.go
index 1c7aa48..c611d5a 100644
--- a/encoder_compact-u16.go
+++ b/encoder_compact-u16.go
@@ -175,12 +175,13 @@ func (e *Encoder) encodeCompactU16(rv reflect.Value, opt *option) (err error) {
 			return
 		}
 
-		for _, mapKey := range rv.MapKeys() {
-			if err = e.Encode(mapKey.Interface()); err != nil {
+		// A NaN key cannot be looked up: iterate over the entries.
+		for iter := rv.MapRange(); iter.Next(); {
+			if err = e.Encode(iter.Key().Interface()); err != nil {
 				return
 			}
 
-			if err = e.Encode(rv.MapIndex(mapKey).Interface()); err != nil {
+			if err = e.Encode(iter.Value().Interface()); err != nil {
 				return
 			}
 		}
-- 
2.43.0


From 800ac07333bf9939ddbf6553b203f400be37a3be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:34:21 +0000
Subject: [PATCH 21/29] fix: refuse sizeof counts that do not fit the slice
 when encoding

A count larger than the slice, or negative, panicked instead of being
reported as an error.
---
 encoder_bin.go         | 3 +++
 encoder_borsh.go       | 3 +++
 encoder_compact-u16.go | 3 +++
 3 files changed, 9 insertions(+)

diff --git a/encoder_bin.go b/encoder_bin.go
index bbcd763..ab09295 100644
--- a/encoder_bin.go
+++ b/encoder_bin.go
@@ -128,6 +128,9 @@ func (e *Encoder) encodeBin(rv reflect.Value, opt *option) (err error) {
 			if traceEnabled {
 				zlog.Debug("encode: slice with sizeof set", zap.Int("size_of", l))
 			}
+			if l < 0 || l > rv.Len() {
+				return fmt.Errorf("encode: sizeof count does not fit a slice of %d elements", rv.Len())
+			}
 		} else {
 			l = rv.Len()
 			if err = e.WriteUVarInt(l); err != nil {
diff --git a/encoder_borsh.go b/encoder_borsh.go
index 456262c..6b670f3 100644
--- a/encoder_borsh.go
+++ b/encoder_borsh.go
@@ -173,6 +173,9 @@ func (e *Encoder) encodeBorsh(rv reflect.Value, opt *option) (err error) {
 			if traceEnabled {
 				zlog.Debug("encode: slice with sizeof set", zap.Int("size_of", l))
 			}
+			if l < 0 || l > rv.Len() {
+				return fmt.Errorf("encode: sizeof count does not fit a slice of %d elements", rv.Len())
+			}
 		} else {
 			l = rv.Len()
 			if err = e.WriteUint32(uint32(l), LE); err != nil {
diff --git a/encoder_compact-u16.go b/encoder_compact-u16.go
index c611d5a..f161405 100644
--- a/encoder_compact-u16.go
+++ b/encoder_compact-u16.go
@@ -126,6 +126,9 @@ func (e *Encoder) encodeCompactU16(rv reflect.Value, opt *option) (err error) {
 			if traceEnabled {
 				zlog.Debug("encode: slice with sizeof set", zap.Int("size_of", l))
 			}
+			if l < 0 || l > rv.Len() {
+				return fmt.Errorf("encode: sizeof count does not fit a slice of %d elements", rv.Len())
+			}
 		} else {
 			l = rv.Len()
 			if err = e.WriteCompactU16Length(l); err != nil {
-- 
2.43.0


From 1e89d6b5916d32d0a9f7008506b57aa1b87300af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:34:24 +0000
Subject: [PATCH 22/29] fix: refuse sizeof counts of 2^63 and above

They were taken for an empty slice, so corrupt data decoded successfully.
---
 decoder.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/decoder.go b/decoder.go
index b3de6a7..782cd3e 100644
--- a/decoder.go
+++ b/decoder.go
@@ -145,8 +145,9 @@ func sizeof(t reflect.Type, v reflect.Value) int {
 		n := int(v.Uint())
 		// all the builtin array length types are native int
 		// so this guards against weird truncation
-		if n < 0 {
-			return 0
+		if n < 0 || uint64(n) != v.Uint() {
+			// No slice has that many elements: refused like a negative count.
+			return -1
 		}
 		return n
 	default:
-- 
2.43.0


From b68d97f6e98c9ed73add4d5e36c76b4ce7036461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:04 +0000
Subject: [PATCH 23/29] fix: refuse varints that do not fit their type

The 16- and 32-bit reads dropped the upper bits, so that, for one, the
variant id 2^32 was taken for variant 0.
---
 decoder.go | 20 ++++++++++++++++++++
 types.go   |  2 +-
 2 files changed, 21 insertions(+), 1 deletion(-)

diff --git a/decoder.go b/decoder.go
index 782cd3e..4bb768c 100644
--- a/decoder.go
+++ b/decoder.go
@@ -182,11 +182,16 @@ func (d *Decoder) ReadVarint64() (out int64, err error) {
 }
 
 func (dec *Decoder) ReadVarint32() (out int32, err error) {
+	start := dec.pos
 	n, err := dec.ReadVarint64()
 	if err != nil {
 		return out, err
 	}
 	out = int32(n)
+	if int64(out) != n {
+		dec.pos = start
+		return 0, fmt.Errorf("varint: value %d overflows int32", n)
+	}
 	if traceEnabled {
 		zlog.Debug("decode: read varint32", zap.Int32("val", out))
 	}
@@ -194,11 +199,16 @@ func (dec *Decoder) ReadVarint32() (out int32, err error) {
 }
 
 func (dec *Decoder) ReadUvarint32() (out uint32, err error) {
+	start := dec.pos
 	n, err := dec.ReadUvarint64()
 	if err != nil {
 		return out, err
 	}
 	out = uint32(n)
+	if uint64(out) != n {
+		dec.pos = start
+		return 0, fmt.Errorf("varint: value %d overflows uint32", n)
+	}
 	if traceEnabled {
 		zlog.Debug("decode: read uvarint32", zap.Uint32("val", out))
 	}
@@ -206,11 +216,16 @@ func (dec *Decoder) ReadUvarint32() (out uint32, err error) {
 }
 
 func (dec *Decoder) ReadVarint16() (out int16, err error) {
+	start := dec.pos
 	n, err := dec.ReadVarint64()
 	if err != nil {
 		return out, err
 	}
 	out = int16(n)
+	if int64(out) != n {
+		dec.pos = start
+		return 0, fmt.Errorf("varint: value %d overflows int16", n)
+	}
 	if traceEnabled {
 		zlog.Debug("decode: read varint16", zap.Int16("val", out))
 	}
@@ -218,11 +233,16 @@ func (dec *Decoder) ReadVarint16() (out int16, err error) {
 }
 
 func (dec *Decoder) ReadUvarint16() (out uint16, err error) {
+	start := dec.pos
 	n, err := dec.ReadUvarint64()
 	if err != nil {
 		return out, err
 	}
 	out = uint16(n)
+	if uint64(out) != n {
+		dec.pos = start
+		return 0, fmt.Errorf("varint: value %d overflows uint16", n)
+	}
 	if traceEnabled {
 		zlog.Debug("decode: read uvarint16", zap.Uint16("val", out))
 	}
diff --git a/types.go b/types.go
index 2f73658..8ecf9f9 100644
--- a/types.go
+++ b/types.go
@@ -144,7 +144,7 @@ func (o Varuint16) MarshalWithEncoder(encoder *Encoder) error {
 type Varuint32 uint32
 
 func (o *Varuint32) UnmarshalWithDecoder(decoder *Decoder) error {
-	value, err := decoder.ReadUvarint64()
+	value, err := decoder.ReadUvarint32()
 	if err != nil {
 		return fmt.Errorf("varuint32: %s", err)
 	}
-- 
2.43.0


From 2db9a91dbcbc417cddf3b5fa92ef62cf87c035b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:44:02 +0000
Subject: [PATCH 24/29] fix: do not format nested field errors at every level

Each level of nesting formatted, and kept, the whole text of the levels
below it: 60 kB of hostile input for a recursive type took 6 GB.
---
 decoder_bin.go         |  2 +-
 decoder_borsh.go       |  2 +-
 decoder_compact-u16.go |  2 +-
 encoder_bin.go         |  2 +-
 encoder_borsh.go       |  2 +-
 encoder_compact-u16.go |  2 +-
 error.go               | 31 ++++++++++++++++++++++++++++++-
 7 files changed, 36 insertions(+), 7 deletions(-)

diff --git a/decoder_bin.go b/decoder_bin.go
index 3e2fa18..ce2c82a 100644
--- a/decoder_bin.go
+++ b/decoder_bin.go
@@ -335,7 +335,7 @@ func (dec *Decoder) decodeStructBin(rt reflect.Type, rv reflect.Value) (err erro
 		}
 
 		if err = dec.decodeBin(v, option); err != nil {
-			return fmt.Errorf("error while decoding %q field: %w", structField.Name, err)
+			return &fieldError{doing: "decoding", field: structField.Name, err: err}
 		}
 
 		if fieldTag.SizeOf != "" {
diff --git a/decoder_borsh.go b/decoder_borsh.go
index 6e9e598..2d02b27 100644
--- a/decoder_borsh.go
+++ b/decoder_borsh.go
@@ -411,7 +411,7 @@ func (dec *Decoder) decodeStructBorsh(rt reflect.Type, rv reflect.Value) (err er
 		}
 
 		if err = dec.decodeBorsh(v, option); err != nil {
-			return fmt.Errorf("error while decoding %q field: %w", structField.Name, err)
+			return &fieldError{doing: "decoding", field: structField.Name, err: err}
 		}
 
 		if fieldTag.SizeOf != "" {
diff --git a/decoder_compact-u16.go b/decoder_compact-u16.go
index c1411c3..78392b2 100644
--- a/decoder_compact-u16.go
+++ b/decoder_compact-u16.go
@@ -334,7 +334,7 @@ func (dec *Decoder) decodeStructCompactU16(rt reflect.Type, rv reflect.Value) (e
 		}
 
 		if err = dec.decodeCompactU16(v, option); err != nil {
-			return fmt.Errorf("error while decoding %q field: %w", structField.Name, err)
+			return &fieldError{doing: "decoding", field: structField.Name, err: err}
 		}
 
 		if fieldTag.SizeOf != "" {
diff --git a/encoder_bin.go b/encoder_bin.go
index ab09295..e5c9b5a 100644
--- a/encoder_bin.go
+++ b/encoder_bin.go
@@ -262,7 +262,7 @@ func (e *Encoder) encodeStructBin(rt reflect.Type, rv reflect.Value) (err error)
 		}
 
 		if err := e.encodeBin(rv, option); err != nil {
-			return fmt.Errorf("error while encoding %q field: %w", structField.Name, err)
+			return &fieldError{doing: "encoding", field: structField.Name, err: err}
 		}
 	}
 	return nil
diff --git a/encoder_borsh.go b/encoder_borsh.go
index 6b670f3..cffc05f 100644
--- a/encoder_borsh.go
+++ b/encoder_borsh.go
@@ -353,7 +353,7 @@ func (e *Encoder) encodeStructBorsh(rt reflect.Type, rv reflect.Value) (err erro
 		}
 
 		if err := e.encodeBorsh(rv, option); err != nil {
-			return fmt.Errorf("error while encoding %q field: %w", structField.Name, err)
+			return &fieldError{doing: "encoding", field: structField.Name, err: err}
 		}
 	}
 	return nil
diff --git a/encoder_compact-u16.go b/encoder_compact-u16.go
index f161405..261ea03 100644
--- a/encoder_compact-u16.go
+++ b/encoder_compact-u16.go
@@ -260,7 +260,7 @@ func (e *Encoder) encodeStructCompactU16(rt reflect.Type, rv reflect.Value) (err
 		}
 
 		if err := e.encodeCompactU16(rv, option); err != nil {
-			return fmt.Errorf("error while encoding %q field: %w", structField.Name, err)
+			return &fieldError{doing: "encoding", field: structField.Name, err: err}
 		}
 	}
 	return nil
diff --git a/error.go b/error.go
index 40e448e..c56b888 100644
--- a/error.go
+++ b/error.go
@@ -14,7 +14,11 @@
 
 package bin
 
-import "reflect"
+import (
+	"reflect"
+	"strconv"
+	"strings"
+)
 
 // An InvalidDecoderError describes an invalid argument passed to Decoder.
 // (The argument to Decoder must be a non-nil pointer.)
@@ -32,3 +36,28 @@ func (e *InvalidDecoderError) Error() string {
 	}
 	return "decoder: Decode(nil " + e.Type.String() + ")"
 }
+
+// fieldError is an error in a field of a struct. The text is put together only
+// when asked for: a deeply nested value would otherwise keep one copy per level.
+type fieldError struct {
+	doing string
+	field string
+	err   error
+}
+
+func (e *fieldError) Error() string {
+	builder := new(strings.Builder)
+	for {
+		builder.WriteString("error while " + e.doing + " " + strconv.Quote(e.field) + " field: ")
+		inner, ok := e.err.(*fieldError)
+		if !ok {
+			builder.WriteString(e.err.Error())
+			return builder.String()
+		}
+		e = inner
+	}
+}
+
+func (e *fieldError) Unwrap() error {
+	return e.err
+}
-- 
2.43.0


From d212605ae556d7143a018d6d6eec82b3eb71cb8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:44:36 +0000
Subject: [PATCH 25/29] fix: limit the nesting depth when decoding recursive
 types

A few megabytes of hostile input overflowed the stack, which ends the
process and cannot be recovered.
---
 decoder.go             | 17 +++++++++++++++++
 decoder_bin.go         |  5 +++++
 decoder_borsh.go       |  5 +++++
 decoder_compact-u16.go |  5 +++++
 4 files changed, 32 insertions(+)

diff --git a/decoder.go b/decoder.go
index 4bb768c..c7a92d1 100644
--- a/decoder.go
+++ b/decoder.go
@@ -74,10 +74,27 @@ type Decoder struct {
 	pos  int
 
 	currentFieldOpt *option
+	depth           int
 
 	encoding Encoding
 }
 
+// maxNestingDepth bounds the recursion on recursive types, whose depth the
+// input decides: the stack must not overflow.
+const maxNestingDepth = 100000
+
+func (dec *Decoder) enter() error {
+	if dec.depth >= maxNestingDepth {
+		return errors.New("decode: value is nested too deeply")
+	}
+	dec.depth++
+	return nil
+}
+
+func (dec *Decoder) leave() {
+	dec.depth--
+}
+
 // Reset resets the decoder to decode a new message.
 func (dec *Decoder) Reset(data []byte) {
 	dec.data = data
diff --git a/decoder_bin.go b/decoder_bin.go
index ce2c82a..ab44fa1 100644
--- a/decoder_bin.go
+++ b/decoder_bin.go
@@ -42,6 +42,11 @@ func (dec *Decoder) decodeWithOptionBin(v interface{}, option *option) (err erro
 }
 
 func (dec *Decoder) decodeBin(rv reflect.Value, opt *option) (err error) {
+	if err := dec.enter(); err != nil {
+		return err
+	}
+	defer dec.leave()
+
 	if opt == nil {
 		opt = newDefaultOption()
 	}
diff --git a/decoder_borsh.go b/decoder_borsh.go
index 2d02b27..6d9fc42 100644
--- a/decoder_borsh.go
+++ b/decoder_borsh.go
@@ -42,6 +42,11 @@ func (dec *Decoder) decodeWithOptionBorsh(v interface{}, option *option) (err er
 }
 
 func (dec *Decoder) decodeBorsh(rv reflect.Value, opt *option) (err error) {
+	if err := dec.enter(); err != nil {
+		return err
+	}
+	defer dec.leave()
+
 	if opt == nil {
 		opt = newDefaultOption()
 	}
diff --git a/decoder_compact-u16.go b/decoder_compact-u16.go
index 78392b2..1f645eb 100644
--- a/decoder_compact-u16.go
+++ b/decoder_compact-u16.go
@@ -41,6 +41,11 @@ func (dec *Decoder) decodeWithOptionCompactU16(v interface{}, option *option) (e
 }
 
 func (dec *Decoder) decodeCompactU16(rv reflect.Value, opt *option) (err error) {
+	if err := dec.enter(); err != nil {
+		return err
+	}
+	defer dec.leave()
+
 	if opt == nil {
 		opt = newDefaultOption()
 	}
-- 
2.43.0


From 5ff46696dddbfd7954a28b233a88cd94546918ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:41 +0000
Subject: [PATCH 26/29] fix: report writes that the writer cuts short

---
 encoder.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/encoder.go b/encoder.go
index 1da121a..7b5424d 100644
--- a/encoder.go
+++ b/encoder.go
@@ -113,6 +113,9 @@ func (e *Encoder) WriteBytes(b []byte, writeLength bool) error {
 func (e *Encoder) Write(b []byte) (n int, err error) {
 	n, err = e.output.Write(b)
 	e.count += n
+	if err == nil && n < len(b) {
+		err = io.ErrShortWrite
+	}
 	if traceEnabled {
 		zlog.Debug("	> encode: appending", zap.Stringer("hex", HexBytes(b)), zap.Int("pos", e.count))
 	}
-- 
2.43.0


From 418f0fd05aecd413712f56f968c0c9d331ada7c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:51:29 +0000
Subject: [PATCH 27/29] fix: ignore sizeof tags of unexported fields when
 encoding

The decoder ignores them, so the slice was written without the length that
decoding reads.
---
 encoder_bin.go         | 2 +-
 encoder_borsh.go       | 2 +-
 encoder_compact-u16.go | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/encoder_bin.go b/encoder_bin.go
index e5c9b5a..2cfc62c 100644
--- a/encoder_bin.go
+++ b/encoder_bin.go
@@ -220,7 +220,7 @@ func (e *Encoder) encodeStructBin(rt reflect.Type, rv reflect.Value) (err error)
 
 		rv := rv.Field(i)
 
-		if fieldTag.SizeOf != "" {
+		if fieldTag.SizeOf != "" && rv.CanInterface() {
 			if traceEnabled {
 				zlog.Debug("encode: struct field has sizeof tag",
 					zap.String("sizeof_field_name", fieldTag.SizeOf),
diff --git a/encoder_borsh.go b/encoder_borsh.go
index cffc05f..e73d8aa 100644
--- a/encoder_borsh.go
+++ b/encoder_borsh.go
@@ -310,7 +310,7 @@ func (e *Encoder) encodeStructBorsh(rt reflect.Type, rv reflect.Value) (err erro
 
 		rv := rv.Field(i)
 
-		if fieldTag.SizeOf != "" {
+		if fieldTag.SizeOf != "" && rv.CanInterface() {
 			if traceEnabled {
 				zlog.Debug("encode: struct field has sizeof tag",
 					zap.String("sizeof_field_name", fieldTag.SizeOf),
diff --git a/encoder_compact-u16.go b/encoder_compact-u16.go
index 261ea03..45c56b6 100644
--- a/encoder_compact-u16.go
+++ b/encoder_compact-u16.go
@@ -218,7 +218,7 @@ func (e *Encoder) encodeStructCompactU16(rt reflect.Type, rv reflect.Value) (err
 
 		rv := rv.Field(i)
 
-		if fieldTag.SizeOf != "" {
+		if fieldTag.SizeOf != "" && rv.CanInterface() {
 			if traceEnabled {
 				zlog.Debug("encode: struct field has sizeof tag",
 					zap.String("sizeof_field_name", fieldTag.SizeOf),
-- 
2.43.0


From 115fe391809504816c0821c6d1224f9cfa24c65c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:51:32 +0000
Subject: [PATCH 28/29] fix: do not let the byte order of the last field
 outlive its value

Int64, Uint64, JSONFloat64 and the 128-bit types, (un)marshaled directly
after a value that ended with a big-endian field, took over its byte order.
---
 decoder.go | 2 ++
 encoder.go | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/decoder.go b/decoder.go
index c7a92d1..5cfbded 100644
--- a/decoder.go
+++ b/decoder.go
@@ -142,6 +142,8 @@ func NewCompactU16Decoder(data []byte) *Decoder {
 }
 
 func (dec *Decoder) Decode(v interface{}) (err error) {
+	// The options of the fields of v end with v.
+	defer func(prev *option) { dec.currentFieldOpt = prev }(dec.currentFieldOpt)
 	switch dec.encoding {
 	case EncodingBin:
 		return dec.decodeWithOptionBin(v, nil)
diff --git a/encoder.go b/encoder.go
index 7b5424d..e973528 100644
--- a/encoder.go
+++ b/encoder.go
@@ -73,6 +73,8 @@ func NewCompactU16Encoder(writer io.Writer) *Encoder {
 }
 
 func (e *Encoder) Encode(v interface{}) (err error) {
+	// The options of the fields of v end with v.
+	defer func(prev *option) { e.currentFieldOpt = prev }(e.currentFieldOpt)
 	switch e.encoding {
 	case EncodingBin:
 		return e.encodeBin(reflect.ValueOf(v), nil)
-- 
2.43.0


From 201ca977da35d530a38645ec8a8ba8455c2e6ae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:48:11 +0000
Subject: [PATCH 29/29] fix: sort Borsh map keys that are booleans or arrays,
 refuse others

Encoding a Borsh map with more than one entry panicked ("unsupported key
compare") unless its keys were numbers or strings. Booleans and arrays (public
keys, for instance) are now sorted as Rust does; keys that cannot be sorted are
reported with an error.
---
 encoder_borsh.go | 29 +++++++++++++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/encoder_borsh.go b/encoder_borsh.go
index e73d8aa..abcdadf 100644
--- a/encoder_borsh.go
+++ b/encoder_borsh.go
@@ -211,6 +211,9 @@ func (e *Encoder) encodeBorsh(rv reflect.Value, opt *option) (err error) {
 
 	case reflect.Map:
 		keys := rv.MapKeys()
+		if len(keys) > 1 && !canSort(rt.Key()) {
+			return fmt.Errorf("encode: unsupported map key type %q", rt.Key())
+		}
 		sort.Slice(keys, vComp(keys))
 
 		keyCount := rv.Len()
@@ -375,7 +378,33 @@ func vComp(keys []reflect.Value) func(int, int) bool {
 			return a.Float() < b.Float()
 		case reflect.String:
 			return a.String() < b.String()
+		case reflect.Bool:
+			return !a.Bool() && b.Bool()
+		case reflect.Array:
+			for k := 0; k < a.Len(); k++ {
+				less := vComp([]reflect.Value{a.Index(k), b.Index(k)})
+				if less(0, 1) {
+					return true
+				}
+				if less(1, 0) {
+					return false
+				}
+			}
+			return false
 		}
 		panic("unsupported key compare")
 	}
 }
+
+// canSort tells whether vComp can compare map keys of the type.
+func canSort(rt reflect.Type) bool {
+	switch rt.Kind() {
+	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64,
+		reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64,
+		reflect.Float32, reflect.Float64, reflect.String, reflect.Bool, reflect.Interface:
+		return true
+	case reflect.Array:
+		return canSort(rt.Elem())
+	}
+	return false
+}
-- 
2.43.0

