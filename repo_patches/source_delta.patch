From a56bca4da46e926f627901f4fcdb6af8642fcfa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:31 +0000
Subject: [PATCH 01/31] fix: SetPosition must reject indexes that overflow int

SetPosition(math.MaxUint64) converted the index to -1, accepted it, and
the next read panicked with an index out of range.
---
 decoder.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/decoder.go b/decoder.go
index c843348..5a974e0 100644
--- a/decoder.go
+++ b/decoder.go
@@ -660,7 +660,7 @@ func (dec *Decoder) SkipBytes(count uint) error {
 }
 
 func (dec *Decoder) SetPosition(idx uint) error {
-	if int(idx) < len(dec.data) {
+	if idx < uint(len(dec.data)) {
 		dec.pos = int(idx)
 		return nil
 	}
-- 
2.43.0


From e88d904d5b00506a72c3e2510ebb7b32d80717c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:33 +0000
Subject: [PATCH 02/31] fix: decoding into a nil pointer returns
 InvalidDecoderError

Decode((*T)(nil)) reached reflect.Value.Set on an unaddressable value
and panicked instead of returning the documented error.
---
 decoder_bin.go         | 2 +-
 decoder_borsh.go       | 2 +-
 decoder_compact-u16.go | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/decoder_bin.go b/decoder_bin.go
index ca58676..4e500ed 100644
--- a/decoder_bin.go
+++ b/decoder_bin.go
@@ -28,7 +28,7 @@ import (
 
 func (dec *Decoder) decodeWithOptionBin(v interface{}, option *option) (err error) {
 	rv := reflect.ValueOf(v)
-	if rv.Kind() != reflect.Ptr {
+	if rv.Kind() != reflect.Ptr || rv.IsNil() {
 		return &InvalidDecoderError{reflect.TypeOf(v)}
 	}
 
diff --git a/decoder_borsh.go b/decoder_borsh.go
index bcac383..e900bca 100644
--- a/decoder_borsh.go
+++ b/decoder_borsh.go
@@ -28,7 +28,7 @@ import (
 
 func (dec *Decoder) decodeWithOptionBorsh(v interface{}, option *option) (err error) {
 	rv := reflect.ValueOf(v)
-	if rv.Kind() != reflect.Ptr {
+	if rv.Kind() != reflect.Ptr || rv.IsNil() {
 		return &InvalidDecoderError{reflect.TypeOf(v)}
 	}
 
diff --git a/decoder_compact-u16.go b/decoder_compact-u16.go
index 13396dd..7801bde 100644
--- a/decoder_compact-u16.go
+++ b/decoder_compact-u16.go
@@ -27,7 +27,7 @@ import (
 
 func (dec *Decoder) decodeWithOptionCompactU16(v interface{}, option *option) (err error) {
 	rv := reflect.ValueOf(v)
-	if rv.Kind() != reflect.Ptr {
+	if rv.Kind() != reflect.Ptr || rv.IsNil() {
 		return &InvalidDecoderError{reflect.TypeOf(v)}
 	}
 
-- 
2.43.0


From 194fa2ac5b7e9ab396a72a16696db29bab035677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:54 +0000
Subject: [PATCH 03/31] fix: reject negative and overflowing sizeof counts when
 decoding

A negative signed sizeof field made the slice decoder call make with a
negative length (panic), and an unsigned one above the int range was
silently decoded as an empty slice.
---
 decoder.go             | 17 +++++++++++------
 decoder_bin.go         |  2 +-
 decoder_borsh.go       |  2 +-
 decoder_compact-u16.go |  2 +-
 4 files changed, 14 insertions(+), 9 deletions(-)

diff --git a/decoder.go b/decoder.go
index 5a974e0..0f8dbe4 100644
--- a/decoder.go
+++ b/decoder.go
@@ -140,15 +140,20 @@ func (dec *Decoder) Decode(v interface{}) (err error) {
 func sizeof(t reflect.Type, v reflect.Value) int {
 	switch t.Kind() {
 	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
-		return int(v.Int())
+		n := v.Int()
+		// a count that does not fit the native int is not valid
+		if int64(int(n)) != n {
+			return -1
+		}
+		return int(n)
 	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
-		n := int(v.Uint())
+		n := v.Uint()
 		// all the builtin array length types are native int
-		// so this guards against weird truncation
-		if n < 0 {
-			return 0
+		// so a count that does not fit is not valid
+		if int(n) < 0 || uint64(int(n)) != n {
+			return -1
 		}
-		return n
+		return int(n)
 	default:
 		panic(fmt.Sprintf("sizeof field not implemented for kind %s", t.Kind()))
 	}
diff --git a/decoder_bin.go b/decoder_bin.go
index 4e500ed..910a04e 100644
--- a/decoder_bin.go
+++ b/decoder_bin.go
@@ -189,7 +189,7 @@ func (dec *Decoder) decodeBin(rv reflect.Value, opt *option) (err error) {
 			zlog.Debug("reading slice", zap.Int("len", l), typeField("type", rv))
 		}
 
-		if l > dec.Remaining() {
+		if l < 0 || l > dec.Remaining() {
 			return io.ErrUnexpectedEOF
 		}
 
diff --git a/decoder_borsh.go b/decoder_borsh.go
index e900bca..d51a555 100644
--- a/decoder_borsh.go
+++ b/decoder_borsh.go
@@ -228,7 +228,7 @@ func (dec *Decoder) decodeBorsh(rv reflect.Value, opt *option) (err error) {
 			// Empty slices are left nil
 			return
 		}
-		if l > dec.Remaining() {
+		if l < 0 || l > dec.Remaining() {
 			return io.ErrUnexpectedEOF
 		}
 
diff --git a/decoder_compact-u16.go b/decoder_compact-u16.go
index 7801bde..9f6f67b 100644
--- a/decoder_compact-u16.go
+++ b/decoder_compact-u16.go
@@ -188,7 +188,7 @@ func (dec *Decoder) decodeCompactU16(rv reflect.Value, opt *option) (err error)
 			zlog.Debug("reading slice", zap.Int("len", l), typeField("type", rv))
 		}
 
-		if l > dec.Remaining() {
+		if l < 0 || l > dec.Remaining() {
 			return io.ErrUnexpectedEOF
 		}
 
-- 
2.43.0


From 94cb913455bd1fceb009a40e94d9e6a5a87d4a1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:56 +0000
Subject: [PATCH 04/31] fix: size varint buffers for 64-bit values

WriteUVarInt and WriteVarInt used an 8 byte buffer, so any value needing
9 or 10 bytes panicked with an index out of range.
---
 encoder.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/encoder.go b/encoder.go
index 37a7775..a8ebcee 100644
--- a/encoder.go
+++ b/encoder.go
@@ -152,7 +152,7 @@ func (e *Encoder) WriteUVarInt(v int) (err error) {
 		zlog.Debug("encode: write uvarint", zap.Int("val", v))
 	}
 
-	buf := make([]byte, 8)
+	buf := make([]byte, binary.MaxVarintLen64)
 	l := binary.PutUvarint(buf, uint64(v))
 	return e.toWriter(buf[:l])
 }
@@ -162,7 +162,7 @@ func (e *Encoder) WriteVarInt(v int) (err error) {
 		zlog.Debug("encode: write varint", zap.Int("val", v))
 	}
 
-	buf := make([]byte, 8)
+	buf := make([]byte, binary.MaxVarintLen64)
 	l := binary.PutVarint(buf, int64(v))
 	return e.toWriter(buf[:l])
 }
-- 
2.43.0


From 5f05221849feaa51f039b7650d23de05f8c7be02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:58 +0000
Subject: [PATCH 05/31] fix: report lengths that do not fit a compact-u16

The error of EncodeCompactU16Length was dropped, so collections longer
than 65535 elements were written without any length prefix and the
encoder reported success.
---
 encoder.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/encoder.go b/encoder.go
index a8ebcee..06e6758 100644
--- a/encoder.go
+++ b/encoder.go
@@ -137,7 +137,9 @@ func (e *Encoder) WriteLength(length int) error {
 		}
 	case EncodingCompactU16:
 		var buf []byte
-		EncodeCompactU16Length(&buf, length)
+		if err := EncodeCompactU16Length(&buf, length); err != nil {
+			return err
+		}
 		if err := e.WriteBytes(buf, false); err != nil {
 			return err
 		}
@@ -353,7 +355,9 @@ func (e *Encoder) WriteCompactU16(ln int) (err error) {
 		zlog.Debug("encode: write compact-u16", zap.Int("val", ln))
 	}
 	buf := make([]byte, 0)
-	EncodeCompactU16Length(&buf, ln)
+	if err := EncodeCompactU16Length(&buf, ln); err != nil {
+		return err
+	}
 	return e.toWriter(buf)
 }
 
-- 
2.43.0


From 116b76902ac3843a737d9005455f0eaeecc5d070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:00 +0000
Subject: [PATCH 06/31] fix: return an error when a sizeof count exceeds the
 slice

Encoding a struct whose sizeof field is negative or larger than the
slice it counts panicked inside reflect instead of returning an error.
---
 encoder_bin.go         | 3 +++
 encoder_borsh.go       | 3 +++
 encoder_compact-u16.go | 3 +++
 3 files changed, 9 insertions(+)

diff --git a/encoder_bin.go b/encoder_bin.go
index 4ba95ec..1ac4b91 100644
--- a/encoder_bin.go
+++ b/encoder_bin.go
@@ -128,6 +128,9 @@ func (e *Encoder) encodeBin(rv reflect.Value, opt *option) (err error) {
 			if traceEnabled {
 				zlog.Debug("encode: slice with sizeof set", zap.Int("size_of", l))
 			}
+			if l < 0 || l > rv.Len() {
+				return fmt.Errorf("encode: sizeof is %d but the slice has %d elements", l, rv.Len())
+			}
 		} else {
 			l = rv.Len()
 			if err = e.WriteUVarInt(l); err != nil {
diff --git a/encoder_borsh.go b/encoder_borsh.go
index c1cc611..742e988 100644
--- a/encoder_borsh.go
+++ b/encoder_borsh.go
@@ -173,6 +173,9 @@ func (e *Encoder) encodeBorsh(rv reflect.Value, opt *option) (err error) {
 			if traceEnabled {
 				zlog.Debug("encode: slice with sizeof set", zap.Int("size_of", l))
 			}
+			if l < 0 || l > rv.Len() {
+				return fmt.Errorf("encode: sizeof is %d but the slice has %d elements", l, rv.Len())
+			}
 		} else {
 			l = rv.Len()
 			if err = e.WriteUint32(uint32(l), LE); err != nil {
diff --git a/encoder_compact-u16.go b/encoder_compact-u16.go
index 2616177..6671e72 100644
--- a/encoder_compact-u16.go
+++ b/encoder_compact-u16.go
@@ -126,6 +126,9 @@ func (e *Encoder) encodeCompactU16(rv reflect.Value, opt *option) (err error) {
 			if traceEnabled {
 				zlog.Debug("encode: slice with sizeof set", zap.Int("size_of", l))
 			}
+			if l < 0 || l > rv.Len() {
+				return fmt.Errorf("encode: sizeof is %d but the slice has %d elements", l, rv.Len())
+			}
 		} else {
 			l = rv.Len()
 			if err = e.WriteCompactU16Length(l); err != nil {
-- 
2.43.0


From 79731bc2aee61e112b3675df6c416729ab85c9bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:16 +0000
Subject: [PATCH 07/31] fix: encode every kind of borsh enum variant payload

encodeComplexEnumBorsh wrote only structs and primitives: the payload of
a slice, array, map or nil pointer variant was dropped silently and a
variant with its own marshaler was bypassed, while the decoder reads all
of them. Variants in unexported fields, which made the decoder panic on
input that selects them, carry no payload on either side.
---
 decoder_borsh.go |  4 ++++
 encoder_borsh.go | 16 ++++------------
 2 files changed, 8 insertions(+), 12 deletions(-)

diff --git a/decoder_borsh.go b/decoder_borsh.go
index d51a555..6c7f8ab 100644
--- a/decoder_borsh.go
+++ b/decoder_borsh.go
@@ -303,6 +303,10 @@ func (dec *Decoder) deserializeComplexEnum(rv reflect.Value) error {
 		return errors.New("complex enum too large")
 	}
 	field := rv.Field(int(enum) + 1)
+	if !field.CanSet() {
+		// unexported variants carry no payload
+		return nil
+	}
 	return dec.decodeBorsh(field, nil)
 }
 
diff --git a/encoder_borsh.go b/encoder_borsh.go
index 742e988..24d74eb 100644
--- a/encoder_borsh.go
+++ b/encoder_borsh.go
@@ -260,20 +260,12 @@ func (enc *Encoder) encodeComplexEnumBorsh(rv reflect.Value) error {
 	if int(enum)+1 >= t.NumField() {
 		return errors.New("complex enum too large")
 	}
-	// Enum is empty
 	field := rv.Field(int(enum) + 1)
-	if field.Kind() == reflect.Ptr {
-		field = field.Elem()
-	}
-	if field.Kind() == reflect.Struct {
-		return enc.encodeStructBorsh(field.Type(), field)
-	}
-	// Encode the value if it's a primitive type
-	isPrimitive, err := enc.encodePrimitive(field, nil)
-	if isPrimitive {
-		return err
+	if !field.CanInterface() {
+		// unexported variants carry no payload
+		return nil
 	}
-	return nil
+	return enc.encodeBorsh(field, nil)
 }
 
 type BorshEnum uint8
-- 
2.43.0


From 7087f67b4bc664c713a1f50178659299d70ee85e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:36 +0000
Subject: [PATCH 08/31] fix: decode optional values of custom types

With the optional or coption tag on a non-pointer type that has its own
unmarshaler, indirect returned an invalid reflect.Value that was then
used to report a short read, to store the absent value or to walk the
present one: every input made the decoder panic. Read the presence flag
before looking for the unmarshaler.
---
 decoder_bin.go         | 21 +++++++++------------
 decoder_borsh.go       | 26 ++++++++++----------------
 decoder_compact-u16.go | 21 +++++++++------------
 3 files changed, 28 insertions(+), 40 deletions(-)

diff --git a/decoder_bin.go b/decoder_bin.go
index 910a04e..3db0516 100644
--- a/decoder_bin.go
+++ b/decoder_bin.go
@@ -47,16 +47,6 @@ func (dec *Decoder) decodeBin(rv reflect.Value, opt *option) (err error) {
 	}
 	dec.currentFieldOpt = opt
 
-	unmarshaler, rv := indirect(rv, opt.is_Optional())
-
-	if traceEnabled {
-		zlog.Debug("decode: type",
-			zap.Stringer("value_kind", rv.Kind()),
-			zap.Bool("has_unmarshaler", (unmarshaler != nil)),
-			zap.Reflect("options", opt),
-		)
-	}
-
 	if opt.is_Optional() {
 		isPresent, e := dec.ReadUint32(binary.LittleEndian)
 		if e != nil {
@@ -72,9 +62,16 @@ func (dec *Decoder) decodeBin(rv reflect.Value, opt *option) (err error) {
 			rv.Set(reflect.Zero(rv.Type()))
 			return
 		}
+	}
+
+	unmarshaler, rv := indirect(rv, false)
 
-		// we have ptr here we should not go get the element
-		unmarshaler, rv = indirect(rv, false)
+	if traceEnabled {
+		zlog.Debug("decode: type",
+			zap.Stringer("value_kind", rv.Kind()),
+			zap.Bool("has_unmarshaler", (unmarshaler != nil)),
+			zap.Reflect("options", opt),
+		)
 	}
 
 	if unmarshaler != nil {
diff --git a/decoder_borsh.go b/decoder_borsh.go
index 6c7f8ab..a50c57e 100644
--- a/decoder_borsh.go
+++ b/decoder_borsh.go
@@ -47,16 +47,6 @@ func (dec *Decoder) decodeBorsh(rv reflect.Value, opt *option) (err error) {
 	}
 	dec.currentFieldOpt = opt
 
-	unmarshaler, rv := indirect(rv, opt.is_Optional() || opt.is_COptional())
-
-	if traceEnabled {
-		zlog.Debug("decode: type",
-			zap.Stringer("value_kind", rv.Kind()),
-			zap.Bool("has_unmarshaler", (unmarshaler != nil)),
-			zap.Reflect("options", opt),
-		)
-	}
-
 	if opt.is_Optional() {
 		isPresent, e := dec.ReadOption()
 		if e != nil {
@@ -72,9 +62,6 @@ func (dec *Decoder) decodeBorsh(rv reflect.Value, opt *option) (err error) {
 			rv.Set(reflect.Zero(rv.Type()))
 			return
 		}
-
-		// we have ptr here we should not go get the element
-		unmarshaler, rv = indirect(rv, false)
 	}
 	if opt.is_COptional() {
 		isPresent, e := dec.ReadCOption()
@@ -91,13 +78,20 @@ func (dec *Decoder) decodeBorsh(rv reflect.Value, opt *option) (err error) {
 			rv.Set(reflect.Zero(rv.Type()))
 			return
 		}
-
-		// we have ptr here we should not go get the element
-		unmarshaler, rv = indirect(rv, false)
 	}
 	// Reset optionality so it won't propagate to child types:
 	opt = opt.clone().set_Optional(false).set_COptional(false)
 
+	unmarshaler, rv := indirect(rv, false)
+
+	if traceEnabled {
+		zlog.Debug("decode: type",
+			zap.Stringer("value_kind", rv.Kind()),
+			zap.Bool("has_unmarshaler", (unmarshaler != nil)),
+			zap.Reflect("options", opt),
+		)
+	}
+
 	if unmarshaler != nil {
 		if traceEnabled {
 			zlog.Debug("decode: using UnmarshalWithDecoder method to decode type")
diff --git a/decoder_compact-u16.go b/decoder_compact-u16.go
index 9f6f67b..ea9ed9a 100644
--- a/decoder_compact-u16.go
+++ b/decoder_compact-u16.go
@@ -46,16 +46,6 @@ func (dec *Decoder) decodeCompactU16(rv reflect.Value, opt *option) (err error)
 	}
 	dec.currentFieldOpt = opt
 
-	unmarshaler, rv := indirect(rv, opt.is_Optional())
-
-	if traceEnabled {
-		zlog.Debug("decode: type",
-			zap.Stringer("value_kind", rv.Kind()),
-			zap.Bool("has_unmarshaler", (unmarshaler != nil)),
-			zap.Reflect("options", opt),
-		)
-	}
-
 	if opt.is_Optional() {
 		isPresent, e := dec.ReadByte()
 		if e != nil {
@@ -71,9 +61,16 @@ func (dec *Decoder) decodeCompactU16(rv reflect.Value, opt *option) (err error)
 			rv.Set(reflect.Zero(rv.Type()))
 			return
 		}
+	}
+
+	unmarshaler, rv := indirect(rv, false)
 
-		// we have ptr here we should not go get the element
-		unmarshaler, rv = indirect(rv, false)
+	if traceEnabled {
+		zlog.Debug("decode: type",
+			zap.Stringer("value_kind", rv.Kind()),
+			zap.Bool("has_unmarshaler", (unmarshaler != nil)),
+			zap.Reflect("options", opt),
+		)
 	}
 
 	if unmarshaler != nil {
-- 
2.43.0


From bb9d10dd7e37d16fe3c3dafa7d56c4a008e9ba5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:56 +0000
Subject: [PATCH 09/31] fix: apply field tags to custom types in borsh structs

decodeStructBorsh called the unmarshaler of a field directly, so for
such fields the optional and coption flags the encoder writes were never
read, a stale byte order of the previous field was used, sizeof counts
were not recorded, errors lacked the field name, and a field whose type
is an interface with the unmarshal method panicked. decodeBorsh already
finds the unmarshaler; let it do so for fields too.
---
 decoder_borsh.go | 31 -------------------------------
 1 file changed, 31 deletions(-)

diff --git a/decoder_borsh.go b/decoder_borsh.go
index a50c57e..890547a 100644
--- a/decoder_borsh.go
+++ b/decoder_borsh.go
@@ -406,32 +406,6 @@ func (dec *Decoder) decodeStructBorsh(rt reflect.Type, rv reflect.Value) (err er
 			)
 		}
 
-		rt := v.Type()
-		ptrImplements := reflect.PtrTo(rt).Implements(unmarshalableType)
-		vImplements := rt.Implements(unmarshalableType)
-		if ptrImplements || vImplements {
-			switch {
-			case ptrImplements:
-				m := reflect.New(rt)
-				val := m.Interface()
-				err := val.(BinaryUnmarshaler).UnmarshalWithDecoder(dec)
-				if err != nil {
-					return err
-				}
-				v.Set(reflect.ValueOf(val).Elem())
-				continue
-			case vImplements:
-				m := reflect.New(rt.Elem())
-				val := m.Interface()
-				err := val.(BinaryUnmarshaler).UnmarshalWithDecoder(dec)
-				if err != nil {
-					return err
-				}
-				v.Set(reflect.ValueOf(val))
-				continue
-			}
-		}
-
 		if err = dec.decodeBorsh(v, option); err != nil {
 			return fmt.Errorf("error while decoding %q field: %w", structField.Name, err)
 		}
@@ -449,8 +423,3 @@ func (dec *Decoder) decodeStructBorsh(rt reflect.Type, rv reflect.Value) (err er
 	}
 	return
 }
-
-var (
-	marshalableType   = reflect.TypeOf((*BinaryMarshaler)(nil)).Elem()
-	unmarshalableType = reflect.TypeOf((*BinaryUnmarshaler)(nil)).Elem()
-)
-- 
2.43.0


From c1811209ec88158b5aea0108ff8a8961c763750e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:21 +0000
Subject: [PATCH 10/31] fix: decoding an empty slice or map must not keep stale
 elements

Decoding a zero length into a target that already held elements left
those elements in place, so the result did not match the input.
---
 decoder_bin.go         | 3 ++-
 decoder_borsh.go       | 6 ++++--
 decoder_compact-u16.go | 3 ++-
 3 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/decoder_bin.go b/decoder_bin.go
index 3db0516..e83d0d3 100644
--- a/decoder_bin.go
+++ b/decoder_bin.go
@@ -220,7 +220,8 @@ func (dec *Decoder) decodeBin(rv reflect.Value, opt *option) (err error) {
 			return err
 		}
 		if l == 0 {
-			// If the map has no content, keep it nil.
+			// If the map has no content, make it nil.
+			rv.Set(reflect.Zero(rt))
 			return nil
 		}
 		rv.Set(reflect.MakeMap(rt))
diff --git a/decoder_borsh.go b/decoder_borsh.go
index 890547a..c149c56 100644
--- a/decoder_borsh.go
+++ b/decoder_borsh.go
@@ -219,7 +219,8 @@ func (dec *Decoder) decodeBorsh(rv reflect.Value, opt *option) (err error) {
 		}
 
 		if l == 0 {
-			// Empty slices are left nil
+			// Empty slices are decoded as nil
+			rv.Set(reflect.Zero(rt))
 			return
 		}
 		if l < 0 || l > dec.Remaining() {
@@ -256,7 +257,8 @@ func (dec *Decoder) decodeBorsh(rv reflect.Value, opt *option) (err error) {
 			return err
 		}
 		if l == 0 {
-			// If the map has no content, keep it nil.
+			// If the map has no content, make it nil.
+			rv.Set(reflect.Zero(rt))
 			return nil
 		}
 		rv.Set(reflect.MakeMap(rt))
diff --git a/decoder_compact-u16.go b/decoder_compact-u16.go
index ea9ed9a..cc8d52f 100644
--- a/decoder_compact-u16.go
+++ b/decoder_compact-u16.go
@@ -219,7 +219,8 @@ func (dec *Decoder) decodeCompactU16(rv reflect.Value, opt *option) (err error)
 			return err
 		}
 		if l == 0 {
-			// If the map has no content, keep it nil.
+			// If the map has no content, make it nil.
+			rv.Set(reflect.Zero(rt))
 			return nil
 		}
 		rv.Set(reflect.MakeMap(rt))
-- 
2.43.0


From 74cf820127870902fb1fd7688da584a217e20843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:23 +0000
Subject: [PATCH 11/31] fix: bound the map length by the remaining input

Slices already refuse lengths above the number of remaining bytes; maps
did not, so four bytes of input could keep the decoder looping for up to
2^32 entries of a type without content, and on 32-bit platforms a length
above the int range was decoded as an empty map.
---
 decoder_bin.go         | 3 +++
 decoder_borsh.go       | 3 +++
 decoder_compact-u16.go | 3 +++
 3 files changed, 9 insertions(+)

diff --git a/decoder_bin.go b/decoder_bin.go
index e83d0d3..cf4b3ee 100644
--- a/decoder_bin.go
+++ b/decoder_bin.go
@@ -224,6 +224,9 @@ func (dec *Decoder) decodeBin(rv reflect.Value, opt *option) (err error) {
 			rv.Set(reflect.Zero(rt))
 			return nil
 		}
+		if l > dec.Remaining() {
+			return io.ErrUnexpectedEOF
+		}
 		rv.Set(reflect.MakeMap(rt))
 		for i := 0; i < int(l); i++ {
 			key := reflect.New(rt.Key())
diff --git a/decoder_borsh.go b/decoder_borsh.go
index c149c56..380ff13 100644
--- a/decoder_borsh.go
+++ b/decoder_borsh.go
@@ -261,6 +261,9 @@ func (dec *Decoder) decodeBorsh(rv reflect.Value, opt *option) (err error) {
 			rv.Set(reflect.Zero(rt))
 			return nil
 		}
+		if uint64(l) > uint64(dec.Remaining()) {
+			return io.ErrUnexpectedEOF
+		}
 		rv.Set(reflect.MakeMap(rt))
 		for i := 0; i < int(l); i++ {
 			key := reflect.New(rt.Key())
diff --git a/decoder_compact-u16.go b/decoder_compact-u16.go
index cc8d52f..c17e1ea 100644
--- a/decoder_compact-u16.go
+++ b/decoder_compact-u16.go
@@ -223,6 +223,9 @@ func (dec *Decoder) decodeCompactU16(rv reflect.Value, opt *option) (err error)
 			rv.Set(reflect.Zero(rt))
 			return nil
 		}
+		if l > dec.Remaining() {
+			return io.ErrUnexpectedEOF
+		}
 		rv.Set(reflect.MakeMap(rt))
 		for i := 0; i < int(l); i++ {
 			key := reflect.New(rt.Key())
-- 
2.43.0


From a11902b92c2b15a805b15b724ed73688aa4f144d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:25 +0000
Subject: [PATCH 12/31] fix: bounds checks must not overflow on 32-bit
 platforms

A length close to 2^31 made pos+length wrap around there, pass the check
and panic when slicing. Compare with the remaining bytes instead.
---
 decoder.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/decoder.go b/decoder.go
index 0f8dbe4..f8c6ad3 100644
--- a/decoder.go
+++ b/decoder.go
@@ -239,8 +239,8 @@ func (dec *Decoder) ReadByteSlice() (out []byte, err error) {
 		return nil, err
 	}
 
-	if len(dec.data) < dec.pos+length {
-		return nil, fmt.Errorf("byte array: varlen=%d, missing %d bytes", length, dec.pos+length-len(dec.data))
+	if length > dec.Remaining() {
+		return nil, fmt.Errorf("byte array: varlen=%d, missing %d bytes", length, length-dec.Remaining())
 	}
 
 	out = dec.data[dec.pos : dec.pos+length]
@@ -290,8 +290,8 @@ func readNBytes(n int, reader *Decoder) ([]byte, error) {
 	if n < 0 || n > 0x7FFF_FFFF {
 		return nil, fmt.Errorf("invalid length n: %v", n)
 	}
-	if reader.pos+n > len(reader.data) {
-		return nil, fmt.Errorf("not enough data: %d bytes missing", reader.pos+n-len(reader.data))
+	if n > reader.Remaining() {
+		return nil, fmt.Errorf("not enough data: %d bytes missing", n-reader.Remaining())
 	}
 	out := reader.data[reader.pos : reader.pos+n]
 	reader.pos += n
@@ -309,7 +309,7 @@ func discardNBytes(n int, reader *Decoder) error {
 }
 
 func (d *Decoder) Read(buf []byte) (int, error) {
-	if d.pos+len(buf) > len(d.data) {
+	if len(buf) > d.Remaining() {
 		return 0, io.ErrShortBuffer
 	}
 	numCopied := copy(buf, d.data[d.pos:])
-- 
2.43.0


From 0bec8ef028505362e11aec52aeaf352539beb860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:27 +0000
Subject: [PATCH 13/31] fix: limit the capacity of byte slices handed out by
 the decoder

Decoded byte slices share the input buffer and kept its capacity, so
appending to one overwrote the bytes that follow it: the caller's input
and the other byte slices decoded from it.
---
 decoder.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/decoder.go b/decoder.go
index f8c6ad3..aad8aaf 100644
--- a/decoder.go
+++ b/decoder.go
@@ -243,7 +243,7 @@ func (dec *Decoder) ReadByteSlice() (out []byte, err error) {
 		return nil, fmt.Errorf("byte array: varlen=%d, missing %d bytes", length, length-dec.Remaining())
 	}
 
-	out = dec.data[dec.pos : dec.pos+length]
+	out = dec.data[dec.pos : dec.pos+length : dec.pos+length]
 	dec.pos += length
 	if traceEnabled {
 		zlog.Debug("decode: read byte array", zap.Stringer("hex", HexBytes(out)))
@@ -293,7 +293,7 @@ func readNBytes(n int, reader *Decoder) ([]byte, error) {
 	if n > reader.Remaining() {
 		return nil, fmt.Errorf("not enough data: %d bytes missing", n-reader.Remaining())
 	}
-	out := reader.data[reader.pos : reader.pos+n]
+	out := reader.data[reader.pos : reader.pos+n : reader.pos+n]
 	reader.pos += n
 	return out, nil
 }
@@ -366,7 +366,7 @@ func (dec *Decoder) Peek(n int) (out []byte, err error) {
 		return
 	}
 
-	out = dec.data[dec.pos : dec.pos+n]
+	out = dec.data[dec.pos : dec.pos+n : dec.pos+n]
 	if traceEnabled {
 		zlog.Debug("decode: peek", zap.Int("n", n), zap.Binary("out", out))
 	}
-- 
2.43.0


From 39c79d215e3e3c403943dded207de6f748ab4fc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:47 +0000
Subject: [PATCH 14/31] fix: size checks of integer arrays must not overflow

l*2, l*4 and l*8 wrap around on 32-bit platforms for long arrays, which
let the check pass and the buffer be allocated. Divide instead.
---
 decoder.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/decoder.go b/decoder.go
index aad8aaf..1c33744 100644
--- a/decoder.go
+++ b/decoder.go
@@ -945,17 +945,17 @@ func reflect_readArrayOfUint_(d *Decoder, l int, k reflect.Kind, rv reflect.Valu
 		}
 		return reflect_readArrayOfBytes(d, l, rv)
 	case reflect.Uint16:
-		if l*2 > d.Remaining() {
+		if l > d.Remaining()/2 {
 			return io.ErrUnexpectedEOF
 		}
 		return reflect_readArrayOfUint16(d, l, rv, order)
 	case reflect.Uint32:
-		if l*4 > d.Remaining() {
+		if l > d.Remaining()/4 {
 			return io.ErrUnexpectedEOF
 		}
 		return reflect_readArrayOfUint32(d, l, rv, order)
 	case reflect.Uint64:
-		if l*8 > d.Remaining() {
+		if l > d.Remaining()/8 {
 			return io.ErrUnexpectedEOF
 		}
 		return reflect_readArrayOfUint64(d, l, rv, order)
-- 
2.43.0


From dbc7bd0ebb76cc863cb32e7e78056ebff559f9e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:49 +0000
Subject: [PATCH 15/31] fix: sort borsh map keys of named 64-bit integer types

vComp asserted the key to be exactly int64 or uint64 and panicked for a
map keyed by any other type of those kinds.
---
 encoder_borsh.go | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/encoder_borsh.go b/encoder_borsh.go
index 24d74eb..ae59476 100644
--- a/encoder_borsh.go
+++ b/encoder_borsh.go
@@ -372,14 +372,10 @@ func vComp(keys []reflect.Value) func(int, int) bool {
 			b = b.Elem()
 		}
 		switch a.Kind() {
-		case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32:
+		case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
 			return a.Int() < b.Int()
-		case reflect.Int64:
-			return a.Interface().(int64) < b.Interface().(int64)
-		case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32:
+		case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
 			return a.Uint() < b.Uint()
-		case reflect.Uint64:
-			return a.Interface().(uint64) < b.Interface().(uint64)
 		case reflect.Float32, reflect.Float64:
 			return a.Float() < b.Float()
 		case reflect.String:
-- 
2.43.0


From 04fb7f84ca545b368de366b3a1853d9b40fd9d6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:51 +0000
Subject: [PATCH 16/31] fix: return an error for borsh map keys that cannot be
 ordered

A map with two or more keys of a kind vComp does not know (bool, array,
struct, mixed interfaces) made Encode panic; report it as an unsupported
type like every other kind.
---
 encoder_borsh.go | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/encoder_borsh.go b/encoder_borsh.go
index ae59476..5f5af0c 100644
--- a/encoder_borsh.go
+++ b/encoder_borsh.go
@@ -211,7 +211,14 @@ func (e *Encoder) encodeBorsh(rv reflect.Value, opt *option) (err error) {
 
 	case reflect.Map:
 		keys := rv.MapKeys()
-		sort.Slice(keys, vComp(keys))
+		if len(keys) > 1 {
+			for _, key := range keys {
+				if !isComparableKey(keys[0], key) {
+					return fmt.Errorf("encode: unsupported map key type %q", rt.Key())
+				}
+			}
+			sort.Slice(keys, vComp(keys))
+		}
 
 		keyCount := rv.Len()
 		if traceEnabled {
@@ -364,6 +371,22 @@ func (e *Encoder) encodeStructBorsh(rt reflect.Type, rv reflect.Value) (err erro
 	return nil
 }
 
+// isComparableKey returns true if vComp can order the two keys.
+func isComparableKey(a reflect.Value, b reflect.Value) bool {
+	if a.Kind() == reflect.Interface {
+		a = a.Elem()
+		b = b.Elem()
+	}
+	switch a.Kind() {
+	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64,
+		reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64,
+		reflect.Float32, reflect.Float64,
+		reflect.String:
+		return a.Kind() == b.Kind()
+	}
+	return false
+}
+
 func vComp(keys []reflect.Value) func(int, int) bool {
 	return func(i int, j int) bool {
 		a, b := keys[i], keys[j]
-- 
2.43.0


From 61f0b41a3a7efb8cac96065ec5c76a3471c13c07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:14 +0000
Subject: [PATCH 17/31] fix: Written must count only the bytes the writer
 accepted

The count was advanced before the write, so it included bytes of writes
that failed.
---
 encoder.go | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/encoder.go b/encoder.go
index 06e6758..1da121a 100644
--- a/encoder.go
+++ b/encoder.go
@@ -86,11 +86,7 @@ func (e *Encoder) Encode(v interface{}) (err error) {
 }
 
 func (e *Encoder) toWriter(bytes []byte) (err error) {
-	e.count += len(bytes)
-	if traceEnabled {
-		zlog.Debug("	> encode: appending", zap.Stringer("hex", HexBytes(bytes)), zap.Int("pos", e.count))
-	}
-	_, err = e.output.Write(bytes)
+	_, err = e.Write(bytes)
 	return
 }
 
@@ -115,11 +111,12 @@ func (e *Encoder) WriteBytes(b []byte, writeLength bool) error {
 }
 
 func (e *Encoder) Write(b []byte) (n int, err error) {
-	e.count += len(b)
+	n, err = e.output.Write(b)
+	e.count += n
 	if traceEnabled {
 		zlog.Debug("	> encode: appending", zap.Stringer("hex", HexBytes(b)), zap.Int("pos", e.count))
 	}
-	return e.output.Write(b)
+	return n, err
 }
 
 func (e *Encoder) WriteLength(length int) error {
-- 
2.43.0


From 7e03b7a9a509de0db14f392ffe671f485ffc205f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:16 +0000
Subject: [PATCH 18/31] fix: Int64, Uint64 and JSONFloat64 work outside of a
 field

Calling their MarshalWithEncoder or UnmarshalWithDecoder directly on a
new encoder or decoder dereferenced a nil field option and panicked; the
128-bit types already fall back to the default byte order.
---
 decoder.go |  9 +++++++++
 encoder.go |  9 +++++++++
 types.go   | 12 ++++++------
 3 files changed, 24 insertions(+), 6 deletions(-)

diff --git a/decoder.go b/decoder.go
index 1c33744..68b2a9b 100644
--- a/decoder.go
+++ b/decoder.go
@@ -85,6 +85,15 @@ func (dec *Decoder) Reset(data []byte) {
 	dec.currentFieldOpt = nil
 }
 
+// currentOrder returns the byte order of the field being decoded,
+// or the default one outside of a field.
+func (dec *Decoder) currentOrder() binary.ByteOrder {
+	if dec.currentFieldOpt == nil {
+		return defaultByteOrder
+	}
+	return dec.currentFieldOpt.Order
+}
+
 func (dec *Decoder) IsBorsh() bool {
 	return dec.encoding.IsBorsh()
 }
diff --git a/encoder.go b/encoder.go
index 1da121a..aae8b1c 100644
--- a/encoder.go
+++ b/encoder.go
@@ -37,6 +37,15 @@ type Encoder struct {
 	output io.Writer
 }
 
+// currentOrder returns the byte order of the field being encoded,
+// or the default one outside of a field.
+func (enc *Encoder) currentOrder() binary.ByteOrder {
+	if enc.currentFieldOpt == nil {
+		return defaultByteOrder
+	}
+	return enc.currentFieldOpt.Order
+}
+
 func (enc *Encoder) IsBorsh() bool {
 	return enc.encoding.IsBorsh()
 }
diff --git a/types.go b/types.go
index db56ba3..2f73658 100644
--- a/types.go
+++ b/types.go
@@ -207,7 +207,7 @@ func (f *JSONFloat64) UnmarshalJSON(data []byte) error {
 }
 
 func (f *JSONFloat64) UnmarshalWithDecoder(dec *Decoder) error {
-	value, err := dec.ReadFloat64(dec.currentFieldOpt.Order)
+	value, err := dec.ReadFloat64(dec.currentOrder())
 	if err != nil {
 		return err
 	}
@@ -217,7 +217,7 @@ func (f *JSONFloat64) UnmarshalWithDecoder(dec *Decoder) error {
 }
 
 func (f JSONFloat64) MarshalWithEncoder(enc *Encoder) error {
-	return enc.WriteFloat64(float64(f), enc.currentFieldOpt.Order)
+	return enc.WriteFloat64(float64(f), enc.currentOrder())
 }
 
 type Int64 int64
@@ -267,7 +267,7 @@ func (i *Int64) UnmarshalJSON(data []byte) error {
 }
 
 func (i *Int64) UnmarshalWithDecoder(dec *Decoder) error {
-	value, err := dec.ReadInt64(dec.currentFieldOpt.Order)
+	value, err := dec.ReadInt64(dec.currentOrder())
 	if err != nil {
 		return err
 	}
@@ -277,7 +277,7 @@ func (i *Int64) UnmarshalWithDecoder(dec *Decoder) error {
 }
 
 func (i Int64) MarshalWithEncoder(enc *Encoder) error {
-	return enc.WriteInt64(int64(i), enc.currentFieldOpt.Order)
+	return enc.WriteInt64(int64(i), enc.currentOrder())
 }
 
 type Uint64 uint64
@@ -327,7 +327,7 @@ func (i *Uint64) UnmarshalJSON(data []byte) error {
 }
 
 func (i *Uint64) UnmarshalWithDecoder(dec *Decoder) error {
-	value, err := dec.ReadUint64(dec.currentFieldOpt.Order)
+	value, err := dec.ReadUint64(dec.currentOrder())
 	if err != nil {
 		return err
 	}
@@ -337,5 +337,5 @@ func (i *Uint64) UnmarshalWithDecoder(dec *Decoder) error {
 }
 
 func (i Uint64) MarshalWithEncoder(enc *Encoder) error {
-	return enc.WriteUint64(uint64(i), enc.currentFieldOpt.Order)
+	return enc.WriteUint64(uint64(i), enc.currentOrder())
 }
-- 
2.43.0


From d8c6cb54f1936ecb7621a5063649f0f401a9641f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:10 +0000
Subject: [PATCH 19/31] fix: report varints that do not fit the requested type

The 16 and 32 bit varint reads truncated larger values silently, so
distinct encodings decoded to the same value and, for uvarint32 type
ids, selected the wrong variant.
---
 decoder.go | 17 ++++++++++++++++-
 types.go   |  2 +-
 2 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/decoder.go b/decoder.go
index 68b2a9b..cd97c08 100644
--- a/decoder.go
+++ b/decoder.go
@@ -168,7 +168,10 @@ func sizeof(t reflect.Type, v reflect.Value) int {
 	}
 }
 
-var ErrVarIntBufferSize = errors.New("varint: invalid buffer size")
+var (
+	ErrVarIntBufferSize = errors.New("varint: invalid buffer size")
+	ErrVarIntOverflow   = errors.New("varint: value out of range")
+)
 
 func (dec *Decoder) ReadUvarint64() (uint64, error) {
 	l, read := binary.Uvarint(dec.data[dec.pos:])
@@ -199,6 +202,9 @@ func (dec *Decoder) ReadVarint32() (out int32, err error) {
 	if err != nil {
 		return out, err
 	}
+	if n < math.MinInt32 || n > math.MaxInt32 {
+		return out, ErrVarIntOverflow
+	}
 	out = int32(n)
 	if traceEnabled {
 		zlog.Debug("decode: read varint32", zap.Int32("val", out))
@@ -211,6 +217,9 @@ func (dec *Decoder) ReadUvarint32() (out uint32, err error) {
 	if err != nil {
 		return out, err
 	}
+	if n > math.MaxUint32 {
+		return out, ErrVarIntOverflow
+	}
 	out = uint32(n)
 	if traceEnabled {
 		zlog.Debug("decode: read uvarint32", zap.Uint32("val", out))
@@ -223,6 +232,9 @@ func (dec *Decoder) ReadVarint16() (out int16, err error) {
 	if err != nil {
 		return out, err
 	}
+	if n < math.MinInt16 || n > math.MaxInt16 {
+		return out, ErrVarIntOverflow
+	}
 	out = int16(n)
 	if traceEnabled {
 		zlog.Debug("decode: read varint16", zap.Int16("val", out))
@@ -235,6 +247,9 @@ func (dec *Decoder) ReadUvarint16() (out uint16, err error) {
 	if err != nil {
 		return out, err
 	}
+	if n > math.MaxUint16 {
+		return out, ErrVarIntOverflow
+	}
 	out = uint16(n)
 	if traceEnabled {
 		zlog.Debug("decode: read uvarint16", zap.Uint16("val", out))
diff --git a/types.go b/types.go
index 2f73658..8ecf9f9 100644
--- a/types.go
+++ b/types.go
@@ -144,7 +144,7 @@ func (o Varuint16) MarshalWithEncoder(encoder *Encoder) error {
 type Varuint32 uint32
 
 func (o *Varuint32) UnmarshalWithDecoder(decoder *Decoder) error {
-	value, err := decoder.ReadUvarint64()
+	value, err := decoder.ReadUvarint32()
 	if err != nil {
 		return fmt.Errorf("varuint32: %s", err)
 	}
-- 
2.43.0


From ca1468703f45a8f0859aee53d50cc88b44339a2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:12 +0000
Subject: [PATCH 20/31] fix: parse 128-bit integers from JSON without panicking

A decimal above 2^128-1 and every hex string of the accepted length
panicked, a negative decimal was stored as its absolute value, and the
big-endian variant got its bytes reversed. Reject what does not fit and
read the text as the number that String and HexString print.
---
 u128.go | 33 ++++++++++++---------------------
 1 file changed, 12 insertions(+), 21 deletions(-)

diff --git a/u128.go b/u128.go
index 7ea82d9..ba16a51 100644
--- a/u128.go
+++ b/u128.go
@@ -125,40 +125,31 @@ func (i *Uint128) unmarshalJSON_decimal(s string) error {
 	if !ok {
 		return fmt.Errorf("could not parse %q", s)
 	}
-	oo := parsed.FillBytes(make([]byte, 16))
-	ReverseBytes(oo)
-
-	dec := NewBinDecoder(oo)
-
-	out, err := dec.ReadUint128(i.getByteOrder())
-	if err != nil {
-		return err
+	if parsed.Sign() < 0 || parsed.BitLen() > 128 {
+		return fmt.Errorf("%q does not fit in a uint128", s)
 	}
-	i.Lo = out.Lo
-	i.Hi = out.Hi
+	i.setBytes(parsed.FillBytes(make([]byte, 16)))
 
 	return nil
 }
 
+// setBytes sets the value from its 16 big-endian bytes, as returned by Bytes.
+func (i *Uint128) setBytes(data []byte) {
+	i.Hi = binary.BigEndian.Uint64(data[:8])
+	i.Lo = binary.BigEndian.Uint64(data[8:])
+}
+
 func (i *Uint128) unmarshalJSON_hex(s string) error {
 	truncatedVal := s[2:]
-	if len(truncatedVal) != 16 {
-		return fmt.Errorf("uint128 expects 16 characters after 0x, had %v", len(truncatedVal))
+	if len(truncatedVal) != 32 {
+		return fmt.Errorf("uint128 expects 32 characters after 0x, had %v", len(truncatedVal))
 	}
 
 	data, err := hex.DecodeString(truncatedVal)
 	if err != nil {
 		return err
 	}
-
-	order := i.getByteOrder()
-	if order == binary.LittleEndian {
-		i.Lo = order.Uint64(data[:8])
-		i.Hi = order.Uint64(data[8:])
-	} else {
-		i.Hi = order.Uint64(data[:8])
-		i.Lo = order.Uint64(data[8:])
-	}
+	i.setBytes(data)
 
 	return nil
 }
-- 
2.43.0


From a0ec7c08ab91e149a9daeeac8186ece6ee9af44e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:09 +0000
Subject: [PATCH 21/31] fix: WriteByWrite must not retain the caller's buffer

---
 tools.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tools.go b/tools.go
index 9c7c8b3..748892d 100644
--- a/tools.go
+++ b/tools.go
@@ -50,7 +50,8 @@ func NewWriteByWrite(name string) *WriteByWrite {
 }
 
 func (rec *WriteByWrite) Write(b []byte) (int, error) {
-	rec.writes = append(rec.writes, b)
+	// the caller may reuse b after Write returns
+	rec.writes = append(rec.writes, append([]byte(nil), b...))
 	return len(b), nil
 }
 
-- 
2.43.0


From e0c6fb98341d768727ccd969d414351127ba7896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:11 +0000
Subject: [PATCH 22/31] fix: encoding a nil pointer to a custom type must not
 panic

---
 encoder_bin.go         | 3 +++
 encoder_compact-u16.go | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/encoder_bin.go b/encoder_bin.go
index 1ac4b91..c1ad19e 100644
--- a/encoder_bin.go
+++ b/encoder_bin.go
@@ -58,6 +58,9 @@ func (e *Encoder) encodeBin(rv reflect.Value, opt *option) (err error) {
 	}
 
 	if marshaler, ok := rv.Interface().(BinaryMarshaler); ok {
+		if rv.Kind() == reflect.Ptr && rv.IsZero() {
+			return nil
+		}
 		if traceEnabled {
 			zlog.Debug("encode: using MarshalerBinary method to encode type")
 		}
diff --git a/encoder_compact-u16.go b/encoder_compact-u16.go
index 6671e72..e7d2cf9 100644
--- a/encoder_compact-u16.go
+++ b/encoder_compact-u16.go
@@ -57,6 +57,9 @@ func (e *Encoder) encodeCompactU16(rv reflect.Value, opt *option) (err error) {
 	}
 
 	if marshaler, ok := rv.Interface().(BinaryMarshaler); ok {
+		if rv.Kind() == reflect.Ptr && rv.IsZero() {
+			return nil
+		}
 		if traceEnabled {
 			zlog.Debug("encode: using MarshalerBinary method to encode type")
 		}
-- 
2.43.0


From 257d45594d3496e57d6526405947fb11f905ed66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:13 +0000
Subject: [PATCH 23/31] fix: borsh pointers must keep the options of their
 field

---
 encoder_borsh.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/encoder_borsh.go b/encoder_borsh.go
index 5f5af0c..87f4f9a 100644
--- a/encoder_borsh.go
+++ b/encoder_borsh.go
@@ -131,9 +131,9 @@ func (e *Encoder) encodeBorsh(rv reflect.Value, opt *option) (err error) {
 	case reflect.Ptr:
 		if rv.IsNil() {
 			el := reflect.New(rv.Type().Elem()).Elem()
-			return e.encodeBorsh(el, nil)
+			return e.encodeBorsh(el, opt)
 		} else {
-			return e.encodeBorsh(rv.Elem(), nil)
+			return e.encodeBorsh(rv.Elem(), opt)
 		}
 	case reflect.Interface:
 		// skip
-- 
2.43.0


From 217e4186381925bcdbe3c36c1ebb562386098a30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:38 +0000
Subject: [PATCH 24/31] fix: tracing must not modify the package logger while
 encoding

---
 encoder_bin.go         | 10 ++--------
 encoder_borsh.go       | 10 ++--------
 encoder_compact-u16.go | 10 ++--------
 3 files changed, 6 insertions(+), 24 deletions(-)

diff --git a/encoder_bin.go b/encoder_bin.go
index c1ad19e..010cbcb 100644
--- a/encoder_bin.go
+++ b/encoder_bin.go
@@ -105,9 +105,7 @@ func (e *Encoder) encodeBin(rv reflect.Value, opt *option) (err error) {
 	case reflect.Array:
 		l := rt.Len()
 		if traceEnabled {
-			defer func(prev *zap.Logger) { zlog = prev }(zlog)
-			zlog = zlog.Named("array")
-			zlog.Debug("encode: array", zap.Int("length", l), zap.Stringer("type", rv.Kind()))
+			zlog.Named("array").Debug("encode: array", zap.Int("length", l), zap.Stringer("type", rv.Kind()))
 		}
 
 		switch k := rv.Type().Elem().Kind(); k {
@@ -141,9 +139,7 @@ func (e *Encoder) encodeBin(rv reflect.Value, opt *option) (err error) {
 			}
 		}
 		if traceEnabled {
-			defer func(prev *zap.Logger) { zlog = prev }(zlog)
-			zlog = zlog.Named("slice")
-			zlog.Debug("encode: slice", zap.Int("length", l), zap.Stringer("type", rv.Kind()))
+			zlog.Named("slice").Debug("encode: slice", zap.Int("length", l), zap.Stringer("type", rv.Kind()))
 		}
 
 		// we would want to skip to the correct head_offset
@@ -175,8 +171,6 @@ func (e *Encoder) encodeBin(rv reflect.Value, opt *option) (err error) {
 				zap.String("key_type", rt.String()),
 				typeField("value_type", rv.Elem()),
 			)
-			defer func(prev *zap.Logger) { zlog = prev }(zlog)
-			zlog = zlog.Named("struct")
 		}
 
 		if err = e.WriteUVarInt(keyCount); err != nil {
diff --git a/encoder_borsh.go b/encoder_borsh.go
index 87f4f9a..fd926ff 100644
--- a/encoder_borsh.go
+++ b/encoder_borsh.go
@@ -148,9 +148,7 @@ func (e *Encoder) encodeBorsh(rv reflect.Value, opt *option) (err error) {
 	case reflect.Array:
 		l := rt.Len()
 		if traceEnabled {
-			defer func(prev *zap.Logger) { zlog = prev }(zlog)
-			zlog = zlog.Named("array")
-			zlog.Debug("encode: array", zap.Int("length", l), zap.Stringer("type", rv.Kind()))
+			zlog.Named("array").Debug("encode: array", zap.Int("length", l), zap.Stringer("type", rv.Kind()))
 		}
 
 		switch k := rv.Type().Elem().Kind(); k {
@@ -183,9 +181,7 @@ func (e *Encoder) encodeBorsh(rv reflect.Value, opt *option) (err error) {
 			}
 		}
 		if traceEnabled {
-			defer func(prev *zap.Logger) { zlog = prev }(zlog)
-			zlog = zlog.Named("slice")
-			zlog.Debug("encode: slice", zap.Int("length", l), zap.Stringer("type", rv.Kind()))
+			zlog.Named("slice").Debug("encode: slice", zap.Int("length", l), zap.Stringer("type", rv.Kind()))
 		}
 
 		// we would want to skip to the correct head_offset
@@ -227,8 +223,6 @@ func (e *Encoder) encodeBorsh(rv reflect.Value, opt *option) (err error) {
 				zap.String("key_type", rt.String()),
 				typeField("value_type", rv),
 			)
-			defer func(prev *zap.Logger) { zlog = prev }(zlog)
-			zlog = zlog.Named("struct")
 		}
 
 		if err = e.WriteUint32(uint32(keyCount), LE); err != nil {
diff --git a/encoder_compact-u16.go b/encoder_compact-u16.go
index e7d2cf9..f60ffe3 100644
--- a/encoder_compact-u16.go
+++ b/encoder_compact-u16.go
@@ -104,9 +104,7 @@ func (e *Encoder) encodeCompactU16(rv reflect.Value, opt *option) (err error) {
 	case reflect.Array:
 		l := rt.Len()
 		if traceEnabled {
-			defer func(prev *zap.Logger) { zlog = prev }(zlog)
-			zlog = zlog.Named("array")
-			zlog.Debug("encode: array", zap.Int("length", l), zap.Stringer("type", rv.Kind()))
+			zlog.Named("array").Debug("encode: array", zap.Int("length", l), zap.Stringer("type", rv.Kind()))
 		}
 
 		switch k := rv.Type().Elem().Kind(); k {
@@ -139,9 +137,7 @@ func (e *Encoder) encodeCompactU16(rv reflect.Value, opt *option) (err error) {
 			}
 		}
 		if traceEnabled {
-			defer func(prev *zap.Logger) { zlog = prev }(zlog)
-			zlog = zlog.Named("slice")
-			zlog.Debug("encode: slice", zap.Int("length", l), zap.Stringer("type", rv.Kind()))
+			zlog.Named("slice").Debug("encode: slice", zap.Int("length", l), zap.Stringer("type", rv.Kind()))
 		}
 
 		// we would want to skip to the correct head_offset
@@ -173,8 +169,6 @@ func (e *Encoder) encodeCompactU16(rv reflect.Value, opt *option) (err error) {
 				zap.String("key_type", rt.String()),
 				typeField("value_type", rv.Elem()),
 			)
-			defer func(prev *zap.Logger) { zlog = prev }(zlog)
-			zlog = zlog.Named("struct")
 		}
 
 		if err = e.WriteCompactU16Length(keyCount); err != nil {
-- 
2.43.0


From ee3a84dc809ce8033ad8fc43317e3b2380c32b8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:40 +0000
Subject: [PATCH 25/31] fix: tracing the encoding of a map must not panic

---
 encoder_bin.go         | 2 +-
 encoder_compact-u16.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/encoder_bin.go b/encoder_bin.go
index 010cbcb..0c7ec96 100644
--- a/encoder_bin.go
+++ b/encoder_bin.go
@@ -169,7 +169,7 @@ func (e *Encoder) encodeBin(rv reflect.Value, opt *option) (err error) {
 			zlog.Debug("encode: map",
 				zap.Int("key_count", keyCount),
 				zap.String("key_type", rt.String()),
-				typeField("value_type", rv.Elem()),
+				typeField("value_type", rv),
 			)
 		}
 
diff --git a/encoder_compact-u16.go b/encoder_compact-u16.go
index f60ffe3..7b1308a 100644
--- a/encoder_compact-u16.go
+++ b/encoder_compact-u16.go
@@ -167,7 +167,7 @@ func (e *Encoder) encodeCompactU16(rv reflect.Value, opt *option) (err error) {
 			zlog.Debug("encode: map",
 				zap.Int("key_count", keyCount),
 				zap.String("key_type", rt.String()),
-				typeField("value_type", rv.Elem()),
+				typeField("value_type", rv),
 			)
 		}
 
-- 
2.43.0


From f6096c341ad044c40b679bc1956d6f483bdd21ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:07:07 +0000
Subject: [PATCH 26/31] fix: reject variant definitions with more types than
 uint8 IDs

---
 variant.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/variant.go b/variant.go
index 2d359db..cb41fa5 100644
--- a/variant.go
+++ b/variant.go
@@ -192,6 +192,9 @@ func NewVariantDefinition(typeIDEncoding TypeIDEncoding, types []VariantType) (o
 			out.typeNameToID[typeDef.Name] = typeID
 		}
 	case Uint8TypeIDEncoding:
+		if len(types) > 256 {
+			panic(fmt.Sprintf("Uint8TypeIDEncoding can only have 256 variant type definitions, got %v", len(types)))
+		}
 		for i, typeDef := range types {
 			typeID := TypeIDFromUint8(uint8(i))
 
-- 
2.43.0


From 3325f8794af4432521b896607fafff34d72b0f59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:07:08 +0000
Subject: [PATCH 27/31] fix: case conversion must not split multi-byte
 characters

---
 heck.go | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/heck.go b/heck.go
index 5053c1e..a139d52 100644
--- a/heck.go
+++ b/heck.go
@@ -166,8 +166,9 @@ func ToSnakeForSighash(s string) string {
 }
 
 type reader struct {
-	runes []rune
-	index int
+	runes   []rune
+	offsets []int // byte offset of each rune
+	index   int
 }
 
 func splitStringByRune(s string) []rune {
@@ -189,14 +190,19 @@ func iterateStringAsRunes(s string, callback func(r rune) bool) {
 }
 
 func newReader(s string) *reader {
+	offsets := make([]int, 0, len(s))
+	for offset := range s {
+		offsets = append(offsets, offset)
+	}
 	return &reader{
-		runes: splitStringByRune(s),
-		index: -1,
+		runes:   splitStringByRune(s),
+		offsets: offsets,
+		index:   -1,
 	}
 }
 
 func (r reader) This() (int, rune) {
-	return r.index, r.runes[r.index]
+	return r.offsets[r.index], r.runes[r.index]
 }
 
 func (r reader) HasNext() bool {
@@ -206,14 +212,14 @@ func (r reader) HasNext() bool {
 func (r *reader) Next() (int, rune) {
 	if r.HasNext() {
 		r.index++
-		return r.index, r.runes[r.index]
+		return r.offsets[r.index], r.runes[r.index]
 	}
 	return -1, rune(0)
 }
 
 func (r reader) Peek() (int, rune) {
 	if r.HasNext() {
-		return r.index + 1, r.runes[r.index+1]
+		return r.offsets[r.index+1], r.runes[r.index+1]
 	}
 	return -1, rune(0)
 }
-- 
2.43.0


From aaa97c61780d2434bd82c19c1fdd9fb231337aee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:33:46 +0000
Subject: [PATCH 28/31] fix: refuse borsh lengths that do not fit the 32-bit
 prefix

---
 encoder.go       | 3 +++
 encoder_borsh.go | 4 ++--
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/encoder.go b/encoder.go
index aae8b1c..8c530e1 100644
--- a/encoder.go
+++ b/encoder.go
@@ -138,6 +138,9 @@ func (e *Encoder) WriteLength(length int) error {
 			return err
 		}
 	case EncodingBorsh:
+		if length < 0 || uint64(length) > math.MaxUint32 {
+			return fmt.Errorf("encode: length %d does not fit in 32 bits", length)
+		}
 		if err := e.WriteUint32(uint32(length), LE); err != nil {
 			return err
 		}
diff --git a/encoder_borsh.go b/encoder_borsh.go
index fd926ff..450ed17 100644
--- a/encoder_borsh.go
+++ b/encoder_borsh.go
@@ -176,7 +176,7 @@ func (e *Encoder) encodeBorsh(rv reflect.Value, opt *option) (err error) {
 			}
 		} else {
 			l = rv.Len()
-			if err = e.WriteUint32(uint32(l), LE); err != nil {
+			if err = e.WriteLength(l); err != nil {
 				return
 			}
 		}
@@ -225,7 +225,7 @@ func (e *Encoder) encodeBorsh(rv reflect.Value, opt *option) (err error) {
 			)
 		}
 
-		if err = e.WriteUint32(uint32(keyCount), LE); err != nil {
+		if err = e.WriteLength(keyCount); err != nil {
 			return
 		}
 
-- 
2.43.0


From fc88287dec2b105bf3aad91bfc66b9a7e1e32111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:34:52 +0000
Subject: [PATCH 29/31] fix: HexBytes keeps its value when the JSON text is not
 valid hex

---
 types.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/types.go b/types.go
index 8ecf9f9..bf3b85e 100644
--- a/types.go
+++ b/types.go
@@ -87,8 +87,12 @@ func (t *HexBytes) UnmarshalJSON(data []byte) (err error) {
 		return
 	}
 
-	*t, err = hex.DecodeString(s)
-	return
+	value, err := hex.DecodeString(s)
+	if err != nil {
+		return err
+	}
+	*t = value
+	return nil
 }
 
 func (t HexBytes) String() string {
-- 
2.43.0


From 0b3113c3a525fa7751d5170a59cd1e42adf6004f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:27:38 +0000
Subject: [PATCH 30/31] fix: use the custom methods of array and slice elements
 of unsigned integer kinds

---
 decoder.go             | 11 +++++++++++
 decoder_bin.go         |  4 ++--
 decoder_borsh.go       |  4 ++--
 decoder_compact-u16.go |  4 ++--
 encoder.go             | 11 +++++++++++
 encoder_bin.go         |  4 ++--
 encoder_borsh.go       |  4 ++--
 encoder_compact-u16.go |  4 ++--
 8 files changed, 34 insertions(+), 12 deletions(-)

diff --git a/decoder.go b/decoder.go
index cd97c08..b2a05c9 100644
--- a/decoder.go
+++ b/decoder.go
@@ -788,6 +788,17 @@ func indirect(v reflect.Value, decodingNull bool) (BinaryUnmarshaler, reflect.Va
 	return nil, v
 }
 
+var typeOfBinaryUnmarshaler = reflect.TypeOf((*BinaryUnmarshaler)(nil)).Elem()
+
+// decodedElemKind returns the kind that decides how the elements of an array
+// or slice are decoded; it is reflect.Invalid for elements that decode themselves.
+func decodedElemKind(t reflect.Type) reflect.Kind {
+	if reflect.PtrTo(t).Implements(typeOfBinaryUnmarshaler) {
+		return reflect.Invalid
+	}
+	return t.Kind()
+}
+
 func reflect_readArrayOfBytes(d *Decoder, l int, rv reflect.Value) error {
 	buf, err := d.ReadNBytes(l)
 	if err != nil {
diff --git a/decoder_bin.go b/decoder_bin.go
index cf4b3ee..fe6fd73 100644
--- a/decoder_bin.go
+++ b/decoder_bin.go
@@ -157,7 +157,7 @@ func (dec *Decoder) decodeBin(rv reflect.Value, opt *option) (err error) {
 			zlog.Debug("decoding: reading array", zap.Int("length", l))
 		}
 
-		switch k := rv.Type().Elem().Kind(); k {
+		switch k := decodedElemKind(rv.Type().Elem()); k {
 		case reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
 			if err := reflect_readArrayOfUint_(dec, l, k, rv, LE); err != nil {
 				return err
@@ -190,7 +190,7 @@ func (dec *Decoder) decodeBin(rv reflect.Value, opt *option) (err error) {
 			return io.ErrUnexpectedEOF
 		}
 
-		switch k := rv.Type().Elem().Kind(); k {
+		switch k := decodedElemKind(rv.Type().Elem()); k {
 		case reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
 			if err := reflect_readArrayOfUint_(dec, l, k, rv, LE); err != nil {
 				return err
diff --git a/decoder_borsh.go b/decoder_borsh.go
index 380ff13..95ca461 100644
--- a/decoder_borsh.go
+++ b/decoder_borsh.go
@@ -189,7 +189,7 @@ func (dec *Decoder) decodeBorsh(rv reflect.Value, opt *option) (err error) {
 			zlog.Debug("decoding: reading array", zap.Int("length", l))
 		}
 
-		switch k := rv.Type().Elem().Kind(); k {
+		switch k := decodedElemKind(rv.Type().Elem()); k {
 		case reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
 			if err := reflect_readArrayOfUint_(dec, l, k, rv, LE); err != nil {
 				return err
@@ -227,7 +227,7 @@ func (dec *Decoder) decodeBorsh(rv reflect.Value, opt *option) (err error) {
 			return io.ErrUnexpectedEOF
 		}
 
-		switch k := rv.Type().Elem().Kind(); k {
+		switch k := decodedElemKind(rv.Type().Elem()); k {
 		case reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
 			if err := reflect_readArrayOfUint_(dec, l, k, rv, LE); err != nil {
 				return err
diff --git a/decoder_compact-u16.go b/decoder_compact-u16.go
index c17e1ea..d1ecb1d 100644
--- a/decoder_compact-u16.go
+++ b/decoder_compact-u16.go
@@ -156,7 +156,7 @@ func (dec *Decoder) decodeCompactU16(rv reflect.Value, opt *option) (err error)
 			zlog.Debug("decoding: reading array", zap.Int("length", l))
 		}
 
-		switch k := rv.Type().Elem().Kind(); k {
+		switch k := decodedElemKind(rv.Type().Elem()); k {
 		case reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
 			if err := reflect_readArrayOfUint_(dec, l, k, rv, LE); err != nil {
 				return err
@@ -189,7 +189,7 @@ func (dec *Decoder) decodeCompactU16(rv reflect.Value, opt *option) (err error)
 			return io.ErrUnexpectedEOF
 		}
 
-		switch k := rv.Type().Elem().Kind(); k {
+		switch k := decodedElemKind(rv.Type().Elem()); k {
 		case reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
 			if err := reflect_readArrayOfUint_(dec, l, k, rv, LE); err != nil {
 				return err
diff --git a/encoder.go b/encoder.go
index 8c530e1..b08c9a6 100644
--- a/encoder.go
+++ b/encoder.go
@@ -374,6 +374,17 @@ func (e *Encoder) WriteCompactU16Length(ln int) (err error) {
 	return e.WriteCompactU16(ln)
 }
 
+var typeOfBinaryMarshaler = reflect.TypeOf((*BinaryMarshaler)(nil)).Elem()
+
+// encodedElemKind returns the kind that decides how the elements of an array
+// or slice are encoded; it is reflect.Invalid for elements that encode themselves.
+func encodedElemKind(t reflect.Type) reflect.Kind {
+	if t.Implements(typeOfBinaryMarshaler) {
+		return reflect.Invalid
+	}
+	return t.Kind()
+}
+
 func reflect_writeArrayOfBytes(e *Encoder, l int, rv reflect.Value) error {
 	arr := make([]byte, l)
 	for i := 0; i < l; i++ {
diff --git a/encoder_bin.go b/encoder_bin.go
index 0c7ec96..10e55ca 100644
--- a/encoder_bin.go
+++ b/encoder_bin.go
@@ -108,7 +108,7 @@ func (e *Encoder) encodeBin(rv reflect.Value, opt *option) (err error) {
 			zlog.Named("array").Debug("encode: array", zap.Int("length", l), zap.Stringer("type", rv.Kind()))
 		}
 
-		switch k := rv.Type().Elem().Kind(); k {
+		switch k := encodedElemKind(rv.Type().Elem()); k {
 		case reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
 			// if it's a [n]byte, accumulate and write in one command:
 			if err := reflect_writeArrayOfUint_(e, l, k, rv, LE); err != nil {
@@ -144,7 +144,7 @@ func (e *Encoder) encodeBin(rv reflect.Value, opt *option) (err error) {
 
 		// we would want to skip to the correct head_offset
 
-		switch k := rv.Type().Elem().Kind(); k {
+		switch k := encodedElemKind(rv.Type().Elem()); k {
 		case reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
 			// if it's a [n]byte, accumulate and write in one command:
 			if err := reflect_writeArrayOfUint_(e, l, k, rv, LE); err != nil {
diff --git a/encoder_borsh.go b/encoder_borsh.go
index 450ed17..c82500b 100644
--- a/encoder_borsh.go
+++ b/encoder_borsh.go
@@ -151,7 +151,7 @@ func (e *Encoder) encodeBorsh(rv reflect.Value, opt *option) (err error) {
 			zlog.Named("array").Debug("encode: array", zap.Int("length", l), zap.Stringer("type", rv.Kind()))
 		}
 
-		switch k := rv.Type().Elem().Kind(); k {
+		switch k := encodedElemKind(rv.Type().Elem()); k {
 		case reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
 			// if it's a [n]byte, accumulate and write in one command:
 			if err := reflect_writeArrayOfUint_(e, l, k, rv, LE); err != nil {
@@ -186,7 +186,7 @@ func (e *Encoder) encodeBorsh(rv reflect.Value, opt *option) (err error) {
 
 		// we would want to skip to the correct head_offset
 
-		switch k := rv.Type().Elem().Kind(); k {
+		switch k := encodedElemKind(rv.Type().Elem()); k {
 		case reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
 			// if it's a [n]byte, accumulate and write in one command:
 			if err := reflect_writeArrayOfUint_(e, l, k, rv, LE); err != nil {
diff --git a/encoder_compact-u16.go b/encoder_compact-u16.go
index 7b1308a..e0190ff 100644
--- a/encoder_compact-u16.go
+++ b/encoder_compact-u16.go
@@ -107,7 +107,7 @@ func (e *Encoder) encodeCompactU16(rv reflect.Value, opt *option) (err error) {
 			zlog.Named("array").Debug("encode: array", zap.Int("length", l), zap.Stringer("type", rv.Kind()))
 		}
 
-		switch k := rv.Type().Elem().Kind(); k {
+		switch k := encodedElemKind(rv.Type().Elem()); k {
 		case reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
 			// if it's a [n]byte, accumulate and write in one command:
 			if err := reflect_writeArrayOfUint_(e, l, k, rv, LE); err != nil {
@@ -142,7 +142,7 @@ func (e *Encoder) encodeCompactU16(rv reflect.Value, opt *option) (err error) {
 
 		// we would want to skip to the correct head_offset
 
-		switch k := rv.Type().Elem().Kind(); k {
+		switch k := encodedElemKind(rv.Type().Elem()); k {
 		case reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
 			// if it's a [n]byte, accumulate and write in one command:
 			if err := reflect_writeArrayOfUint_(e, l, k, rv, LE); err != nil {
-- 
2.43.0


From 6d97f45c07d7933ad19bdbe2f1e7661e6e9189f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:58:43 +0000
Subject: [PATCH 31/31] fix: encoding a map with a NaN key must not panic

---
 encoder_bin.go         | 6 +++---
 encoder_compact-u16.go | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/encoder_bin.go b/encoder_bin.go
index 10e55ca..5d52dfe 100644
--- a/encoder_bin.go
+++ b/encoder_bin.go
@@ -177,12 +177,12 @@ func (e *Encoder) encodeBin(rv reflect.Value, opt *option) (err error) {
 			return
 		}
 
-		for _, mapKey := range rv.MapKeys() {
-			if err = e.Encode(mapKey.Interface()); err != nil {
+		for iter := rv.MapRange(); iter.Next(); {
+			if err = e.Encode(iter.Key().Interface()); err != nil {
 				return
 			}
 
-			if err = e.Encode(rv.MapIndex(mapKey).Interface()); err != nil {
+			if err = e.Encode(iter.Value().Interface()); err != nil {
 				return
 			}
 		}
diff --git a/encoder_compact-u16.go b/encoder_compact-u16.go
index e0190ff..575ebdb 100644
--- a/encoder_compact-u16.go
+++ b/encoder_compact-u16.go
@@ -175,12 +175,12 @@ func (e *Encoder) encodeCompactU16(rv reflect.Value, opt *option) (err error) {
 			return
 		}
 
-		for _, mapKey := range rv.MapKeys() {
-			if err = e.Encode(mapKey.Interface()); err != nil {
+		for iter := rv.MapRange(); iter.Next(); {
+			if err = e.Encode(iter.Key().Interface()); err != nil {
 				return
 			}
 
-			if err = e.Encode(rv.MapIndex(mapKey).Interface()); err != nil {
+			if err = e.Encode(iter.Value().Interface()); err != nil {
 				return
 			}
 		}
-- 
2.43.0

