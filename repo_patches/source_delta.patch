From 792217da0e0fb6f00315596be2da3fa9b81bf237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:36:13 +0000
Subject: [PATCH 01/29] fix: keep decoded slice backing arrays visible to the
 garbage collector

The slice header used while decoding held its data as an uintptr, so the
backing array was only referenced by an integer and could be freed (and its
memory reused) by a collection happening before the slice was stored in the
destination. Use a header with an unsafe.Pointer instead.
---
 eface.go                    | 7 ++-----
 link_reflect.go             | 4 ++--
 val_decoder_native_slice.go | 2 +-
 val_encoder_native_slice.go | 9 ++++-----
 4 files changed, 9 insertions(+), 13 deletions(-)

diff --git a/eface.go b/eface.go
index 14ec593..acacf21 100644
--- a/eface.go
+++ b/eface.go
@@ -25,10 +25,8 @@ func rtypeOfType(typ reflect.Type) rtype {
 	return rtype(ef.data)
 }
 
-type stringHeader = reflect.StringHeader
-type sliceHeader = reflect.SliceHeader
-
-/*
+// reflect.StringHeader and reflect.SliceHeader are not used here, their Data
+// is an uintptr which does not keep the referenced data alive
 type stringHeader struct {
 	Data unsafe.Pointer
 	Len  int
@@ -39,4 +37,3 @@ type sliceHeader struct {
 	Len  int
 	Cap  int
 }
-*/
diff --git a/link_reflect.go b/link_reflect.go
index c55e2ca..8f9e47d 100644
--- a/link_reflect.go
+++ b/link_reflect.go
@@ -65,7 +65,7 @@ func mapiternext(it *hiter)
 
 func unsafeMakeSlice(elemRType rtype, length, cap int) unsafe.Pointer {
 	return unsafe.Pointer(&sliceHeader{
-		Data: uintptr(unsafe_NewArray(elemRType, cap)),
+		Data: unsafe_NewArray(elemRType, cap),
 		Len:  length,
 		Cap:  cap,
 	})
@@ -107,7 +107,7 @@ func unsafeGrowSlice(elemRType rtype, ptr unsafe.Pointer, newLength int) unsafe.
 
 func unsafeSliceChildPtr(ptr unsafe.Pointer, elemSize uintptr, index int) unsafe.Pointer {
 	sh := (*sliceHeader)(ptr)
-	return add(unsafe.Pointer(sh.Data), uintptr(index)*elemSize, "index < len")
+	return add(sh.Data, uintptr(index)*elemSize, "index < len")
 }
 
 //go:nosplit
diff --git a/val_decoder_native_slice.go b/val_decoder_native_slice.go
index d282a79..b9c9e40 100644
--- a/val_decoder_native_slice.go
+++ b/val_decoder_native_slice.go
@@ -47,7 +47,7 @@ func (dec *sliceDecoder) Decode(ptr unsafe.Pointer, it *Iterator, _ *DecOpts) er
 		sh := (*sliceHeader)(ptr)
 		sh.Len = 0
 		sh.Cap = 0
-		sh.Data = 0
+		sh.Data = nil
 		return nil
 	}
 	if c == '"' {
diff --git a/val_encoder_native_slice.go b/val_encoder_native_slice.go
index 44ec341..dd66834 100644
--- a/val_encoder_native_slice.go
+++ b/val_encoder_native_slice.go
@@ -27,7 +27,7 @@ type sliceEncoder struct {
 
 func (*sliceEncoder) IsEmpty(ptr unsafe.Pointer) bool {
 	sh := (*sliceHeader)(ptr)
-	return sh.Data == 0 || sh.Len == 0
+	return sh.Data == nil || sh.Len == 0
 }
 
 // Disable new -d=checkptr behaviour for Go 1.14
@@ -41,7 +41,7 @@ func (enc *sliceEncoder) Encode(ptr unsafe.Pointer, s *Streamer, _ *EncOpts) {
 		return
 	}
 	sh := (*sliceHeader)(ptr)
-	if sh.Data == 0 {
+	if sh.Data == nil {
 		s.Null()
 		return
 	}
@@ -50,13 +50,12 @@ func (enc *sliceEncoder) Encode(ptr unsafe.Pointer, s *Streamer, _ *EncOpts) {
 		return
 	}
 	s.ArrayStart()
-	curPtr := sh.Data
 	for i := 0; i < sh.Len; i++ {
-		enc.elemEncoder.Encode(unsafe.Pointer(curPtr), s, nil)
+		curPtr := add(sh.Data, uintptr(i)*enc.elemSize, "i < sh.Len")
+		enc.elemEncoder.Encode(curPtr, s, nil)
 		if s.Error != nil {
 			return
 		}
-		curPtr += enc.elemSize
 	}
 	s.ArrayEnd()
 }
-- 
2.43.0


From ac4904b7363e6006a641003354bfa578e1b441c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:38:22 +0000
Subject: [PATCH 02/29] fix: unescape base64 strings before decoding them into
 []byte

An escape sequence such as \/ is legal inside of a base64 string, it was
passed as is to the base64 decoder and rejected. Reading the string in the
usual way also avoids leaving the iterator in capture mode on error.
---
 val_decoder_native_slice.go | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/val_decoder_native_slice.go b/val_decoder_native_slice.go
index b9c9e40..2604462 100644
--- a/val_decoder_native_slice.go
+++ b/val_decoder_native_slice.go
@@ -56,14 +56,10 @@ func (dec *sliceDecoder) Decode(ptr unsafe.Pointer, it *Iterator, _ *DecOpts) er
 		}
 		it.head++
 		// TODO: improve by checking only base64 characters
-		begin := it.head
-		oldCapture := it.capture
-		it.capture = true
-		if err := skipString(it, c); err != nil {
+		buf, err := it.readStringAsSlice()
+		if err != nil {
 			return err
 		}
-		it.capture = oldCapture
-		buf := it.buffer[begin : it.head-1]
 		data, err := base64.StdEncoding.DecodeString(localByteToString(buf))
 		if err != nil {
 			return err
-- 
2.43.0


From 198ad8d9e11e5d23e252908c3aba1fdfd6f8b9e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:38:31 +0000
Subject: [PATCH 03/29] fix: fold the key of one field structs in the right
 direction

The folding function is specialized for the field name, which must be
its first argument. With the arguments swapped the keys which contain
a kelvin sign or a long s did not match.
---
 val_decoder_native_struct_one_field.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/val_decoder_native_struct_one_field.go b/val_decoder_native_struct_one_field.go
index 0f75482..26bf30e 100644
--- a/val_decoder_native_struct_one_field.go
+++ b/val_decoder_native_struct_one_field.go
@@ -64,7 +64,7 @@ func (dec *oneFieldStructDecoder) Decode(ptr unsafe.Pointer, it *Iterator, _ *De
 		if err != nil {
 			return err
 		}
-		if dec.equalFold(field, dec.nameBytes) {
+		if dec.equalFold(dec.nameBytes, field) {
 			curPtr := add(ptr, dec.offsets[0].val, "struct field")
 			for _, offset := range dec.offsets[1:] {
 				subPtr := *(*unsafe.Pointer)(curPtr)
-- 
2.43.0


From c2a7dfb26518812b7e54a8d696d5b072136935be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:38:38 +0000
Subject: [PATCH 04/29] fix: reject null as a map key

The key decoders are shared with the value decoders which accept null, so
{null:1} was accepted when decoding into a map.
---
 val_decoder_native_map.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/val_decoder_native_map.go b/val_decoder_native_map.go
index 03eb9b9..3898daa 100644
--- a/val_decoder_native_map.go
+++ b/val_decoder_native_map.go
@@ -90,6 +90,10 @@ func (dec *mapDecoder) Decode(ptr unsafe.Pointer, it *Iterator, _ *DecOpts) erro
 		typedmemmove(dec.rtype, ptr, unsafeMakeMap(dec.rtype, 0))
 	}
 	for {
+		// the key decoders accept null
+		if c != '"' {
+			return UnexpectedByteError{got: c, exp: '"'}
+		}
 		key := unsafe_New(dec.keyRType)
 		opt := DecOpts{
 			MapKey: true,
@@ -120,6 +124,10 @@ func (dec *mapDecoder) Decode(ptr unsafe.Pointer, it *Iterator, _ *DecOpts) erro
 			return nil
 		case ',':
 			it.head++
+			c, err = it.nextToken()
+			if err != nil {
+				return err
+			}
 		default:
 			return UnexpectedByteError{got: c, exp: '}', exp2: ','}
 		}
-- 
2.43.0


From 5facdd1f89118d3a537d96c52cb2a4f23d35fb5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:39:12 +0000
Subject: [PATCH 05/29] fix: encode a nil json.RawMessage as null

Nothing was written for it, which led to an invalid output.
---
 val_encoder_json_rawmessage.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/val_encoder_json_rawmessage.go b/val_encoder_json_rawmessage.go
index 96b17eb..e771403 100644
--- a/val_encoder_json_rawmessage.go
+++ b/val_encoder_json_rawmessage.go
@@ -16,6 +16,10 @@ func (*jsonRawMessageEncoder) Encode(ptr unsafe.Pointer, s *Streamer, opts *EncO
 		return
 	}
 	data := *(*[]byte)(ptr)
+	if data == nil {
+		s.Null()
+		return
+	}
 	// TODO: raw message validation?
 	s.Raw(data)
 }
-- 
2.43.0


From a5daaaa150bfc4e852f405c14af4d7d5275e6e4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:39:21 +0000
Subject: [PATCH 06/29] fix: encode a nil *encoding.TextMarshaler as null
 instead of panicking

---
 val_encoder_text_marshaler.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/val_encoder_text_marshaler.go b/val_encoder_text_marshaler.go
index 606de08..4af878b 100644
--- a/val_encoder_text_marshaler.go
+++ b/val_encoder_text_marshaler.go
@@ -103,6 +103,10 @@ func (*dynamicTextMarshalerEncoder) Encode(ptr unsafe.Pointer, s *Streamer, opts
 	if s.Error != nil {
 		return
 	}
+	if ptr == nil {
+		s.Null()
+		return
+	}
 	marshaler := *(*encoding.TextMarshaler)(ptr)
 	if marshaler == nil {
 		s.Null()
-- 
2.43.0


From 19617f9ee03c9047b06c7a2c703e86a19ee4c744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:39:30 +0000
Subject: [PATCH 07/29] fix: apply the html escaping of the streamer to quoted
 strings

The html escaping can be changed at runtime, quoted strings were always
escaped as in the config.
---
 val_encoder_native.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/val_encoder_native.go b/val_encoder_native.go
index ec4ceab..2eaf0ee 100644
--- a/val_encoder_native.go
+++ b/val_encoder_native.go
@@ -47,6 +47,7 @@ func (*stringEncoder) Encode(ptr unsafe.Pointer, s *Streamer, opts *EncOpts) {
 	}
 	subStream := s.cfg.NewStreamer()
 	defer subStream.Release()
+	subStream.EscapeHTML(s.escapeHTML)
 	subStream.String(*(*string)(ptr))
 	if subStream.Error != nil {
 		s.Error = subStream.Error
-- 
2.43.0


From 3d8879c339f17ffd70d370be0d9d1d39477daa99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:39:39 +0000
Subject: [PATCH 08/29] fix: pass a pointer to the value to custom encoders of
 pointer-shaped types

When such a value (a map for example) was encoded at top level, the custom
encoder received the value itself instead of a pointer to it.
---
 encoder_config.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/encoder_config.go b/encoder_config.go
index 71a32ef..135841e 100644
--- a/encoder_config.go
+++ b/encoder_config.go
@@ -67,7 +67,11 @@ func NewEncoderConfig(opt *EncoderOption) *EncoderConfig {
 	if opt != nil {
 		for typ, valEnc := range opt.ValEncoders {
 			rtype := rtypeOfType(typ)
-			cache[rtype] = valEnc
+			if ifaceIndir(rtype) {
+				cache[rtype] = valEnc
+			} else {
+				cache[rtype] = &directEncoder{valEnc}
+			}
 			internalCache[rtype] = valEnc
 		}
 		encCfg.escapeHTML = opt.EscapeHTML
-- 
2.43.0


From ddd71edda735cde85164a363b0f647bc576062f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:46 +0000
Subject: [PATCH 09/29] fix: support interfaces which embed json.Marshaler or
 encoding.TextMarshaler

The value was packed with the interface type as its dynamic type, which
panics. Only the two exact interfaces were correctly handled.
---
 encoder_config.go             | 12 ++++++++++++
 val_encoder_json_marshaler.go | 28 ++++++++++++++++++++++++++++
 val_encoder_text_marshaler.go | 28 ++++++++++++++++++++++++++++
 3 files changed, 68 insertions(+)

diff --git a/encoder_config.go b/encoder_config.go
index 135841e..8d52119 100644
--- a/encoder_config.go
+++ b/encoder_config.go
@@ -153,6 +153,12 @@ func (encCfg *EncoderConfig) createEncoderInternal(cache, internalCache encoderC
 
 		// check json.Marshaler interface
 		if typ.Implements(jsonMarshalerType) {
+			if kind == reflect.Interface {
+				v := (*ifaceJSONMarshalerEncoder)(nil)
+				internalCache[rType] = v
+				cache[rType] = v
+				continue
+			}
 			if ifaceIndir(rType) {
 				v := &jsonMarshalerEncoder{
 					isEmpty: isEmptyFunctions[kind],
@@ -188,6 +194,12 @@ func (encCfg *EncoderConfig) createEncoderInternal(cache, internalCache encoderC
 
 		// check encoding.TextMarshaler interface
 		if typ.Implements(textMarshalerType) {
+			if kind == reflect.Interface {
+				v := (*ifaceTextMarshalerEncoder)(nil)
+				internalCache[rType] = v
+				cache[rType] = v
+				continue
+			}
 			if ifaceIndir(rType) {
 				v := &textMarshalerEncoder{
 					isEmpty: isEmptyFunctions[kind],
diff --git a/val_encoder_json_marshaler.go b/val_encoder_json_marshaler.go
index b03465b..a37de12 100644
--- a/val_encoder_json_marshaler.go
+++ b/val_encoder_json_marshaler.go
@@ -119,3 +119,31 @@ func (*dynamicJSONMarshalerEncoder) Encode(ptr unsafe.Pointer, s *Streamer, opts
 	}
 	s.Raw(b)
 }
+
+// for the interfaces which embed json.Marshaler
+type ifaceJSONMarshalerEncoder struct{}
+
+func (*ifaceJSONMarshalerEncoder) IsEmpty(ptr unsafe.Pointer) bool {
+	return packIFace(ptr) == nil
+}
+
+func (*ifaceJSONMarshalerEncoder) Encode(ptr unsafe.Pointer, s *Streamer, opts *EncOpts) {
+	if s.Error != nil {
+		return
+	}
+	if ptr == nil {
+		s.Null()
+		return
+	}
+	obj := packIFace(ptr)
+	if obj == nil {
+		s.Null()
+		return
+	}
+	b, err := obj.(json.Marshaler).MarshalJSON()
+	if err != nil {
+		s.Error = err
+		return
+	}
+	s.Raw(b)
+}
diff --git a/val_encoder_text_marshaler.go b/val_encoder_text_marshaler.go
index 4af878b..87f0e9e 100644
--- a/val_encoder_text_marshaler.go
+++ b/val_encoder_text_marshaler.go
@@ -119,3 +119,31 @@ func (*dynamicTextMarshalerEncoder) Encode(ptr unsafe.Pointer, s *Streamer, opts
 	}
 	s.String(localByteToString(b))
 }
+
+// for the interfaces which embed encoding.TextMarshaler
+type ifaceTextMarshalerEncoder struct{}
+
+func (*ifaceTextMarshalerEncoder) IsEmpty(ptr unsafe.Pointer) bool {
+	return packIFace(ptr) == nil
+}
+
+func (*ifaceTextMarshalerEncoder) Encode(ptr unsafe.Pointer, s *Streamer, opts *EncOpts) {
+	if s.Error != nil {
+		return
+	}
+	if ptr == nil {
+		s.Null()
+		return
+	}
+	obj := packIFace(ptr)
+	if obj == nil {
+		s.Null()
+		return
+	}
+	b, err := obj.(encoding.TextMarshaler).MarshalText()
+	if err != nil {
+		s.Error = err
+		return
+	}
+	s.String(localByteToString(b))
+}
-- 
2.43.0


From 633b26701ced4b4ac634b7cb564fc6f9454a8933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:41:39 +0000
Subject: [PATCH 10/29] fix: do not panic on omitempty fields of marshaler
 types of some kinds

There was no function to tell if a value of string (or func, chan, complex
and so on) kind is empty, a nil function was called for an omitempty field
whose type has one of these kinds and implements a marshaler interface.
---
 is_empty.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/is_empty.go b/is_empty.go
index d630cbc..4a42385 100644
--- a/is_empty.go
+++ b/is_empty.go
@@ -12,7 +12,14 @@ var (
 	isEmptyFunctions = [numKinds]isEmptyFunc{}
 )
 
+func neverEmpty(ptr unsafe.Pointer) bool {
+	return false
+}
+
 func init() {
+	for i := range isEmptyFunctions {
+		isEmptyFunctions[i] = neverEmpty
+	}
 	isEmptyFunctions[reflect.Bool] = (*boolEncoder)(nil).IsEmpty
 	if strconv.IntSize == 32 {
 		isEmptyFunctions[reflect.Int] = (*int32Encoder)(nil).IsEmpty
@@ -36,6 +43,7 @@ func init() {
 	}
 	isEmptyFunctions[reflect.Float32] = (*float32Encoder)(nil).IsEmpty
 	isEmptyFunctions[reflect.Float64] = (*float64Encoder)(nil).IsEmpty
+	isEmptyFunctions[reflect.String] = (*stringEncoder)(nil).IsEmpty
 	isEmptyFunctions[reflect.Array] = (*arrayEncoder)(nil).IsEmpty
 	isEmptyFunctions[reflect.Map] = (*directMapEncoder)(nil).IsEmpty
 	isEmptyFunctions[reflect.Slice] = (*sliceEncoder)(nil).IsEmpty
-- 
2.43.0


From 7bb8ac31d2974db7c4df0e012e440fc92e932873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:42:29 +0000
Subject: [PATCH 11/29] fix: a struct without fields is not an empty value

As in the standard library, a struct is never omitted by omitempty.
---
 val_encoder_native_struct.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/val_encoder_native_struct.go b/val_encoder_native_struct.go
index f222a0e..856fe26 100644
--- a/val_encoder_native_struct.go
+++ b/val_encoder_native_struct.go
@@ -112,7 +112,7 @@ OuterLoop:
 type emptyStructEncoder struct{}
 
 func (*emptyStructEncoder) IsEmpty(ptr unsafe.Pointer) bool {
-	return true
+	return false
 }
 
 func (*emptyStructEncoder) Encode(ptr unsafe.Pointer, s *Streamer, opts *EncOpts) {
-- 
2.43.0


From 85fed96a47b50ccb1412d8033a627ad63e18bb99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:43:11 +0000
Subject: [PATCH 12/29] fix: omit the empty values of types with a marshaler on
 pointer receiver

omitempty had no effect on a field whose pointer type implements json.Marshaler
or encoding.TextMarshaler: the address of the field was tested instead of its
value.
---
 encoder_config.go     | 15 +++++++++++----
 is_empty.go           |  7 +++++++
 val_encoder_direct.go | 11 +++++++++++
 3 files changed, 29 insertions(+), 4 deletions(-)

diff --git a/encoder_config.go b/encoder_config.go
index 8d52119..836e470 100644
--- a/encoder_config.go
+++ b/encoder_config.go
@@ -37,6 +37,13 @@ func (cache encoderCache) preferPtrEncoder(typ reflect.Type) ValEncoder {
 		return pe.encoder
 	}
 	// the element has a special pointer encoder
+	switch ptrEncoder.(type) {
+	case pointerJSONMarshalerEncoder, pointerTextMarshalerEncoder:
+		return &addressedEncoder{
+			directEncoder: directEncoder{ptrEncoder},
+			isEmpty:       isEmptyFuncOf(typ),
+		}
+	}
 	return &directEncoder{ptrEncoder}
 }
 
@@ -161,7 +168,7 @@ func (encCfg *EncoderConfig) createEncoderInternal(cache, internalCache encoderC
 			}
 			if ifaceIndir(rType) {
 				v := &jsonMarshalerEncoder{
-					isEmpty: isEmptyFunctions[kind],
+					isEmpty: isEmptyFuncOf(typ),
 					rtype:   rType,
 				}
 				internalCache[rType] = v
@@ -184,7 +191,7 @@ func (encCfg *EncoderConfig) createEncoderInternal(cache, internalCache encoderC
 				continue
 			}
 			v := &directJSONMarshalerEncoder{
-				isEmpty: isEmptyFunctions[kind],
+				isEmpty: isEmptyFuncOf(typ),
 				rtype:   rType,
 			}
 			internalCache[rType] = v
@@ -202,7 +209,7 @@ func (encCfg *EncoderConfig) createEncoderInternal(cache, internalCache encoderC
 			}
 			if ifaceIndir(rType) {
 				v := &textMarshalerEncoder{
-					isEmpty: isEmptyFunctions[kind],
+					isEmpty: isEmptyFuncOf(typ),
 					rtype:   rType,
 				}
 				internalCache[rType] = v
@@ -225,7 +232,7 @@ func (encCfg *EncoderConfig) createEncoderInternal(cache, internalCache encoderC
 				continue
 			}
 			v := &directTextMarshalerEncoder{
-				isEmpty: isEmptyFunctions[kind],
+				isEmpty: isEmptyFuncOf(typ),
 				rtype:   rType,
 			}
 			internalCache[rType] = v
diff --git a/is_empty.go b/is_empty.go
index 4a42385..57a38b8 100644
--- a/is_empty.go
+++ b/is_empty.go
@@ -51,3 +51,10 @@ func init() {
 	// Interface
 	// Ptr
 }
+
+func isEmptyFuncOf(typ reflect.Type) isEmptyFunc {
+	if typ.Kind() == reflect.Array && typ.Len() == 0 {
+		return (*emptyArrayEncoder)(nil).IsEmpty
+	}
+	return isEmptyFunctions[typ.Kind()]
+}
diff --git a/val_encoder_direct.go b/val_encoder_direct.go
index 64fb277..99f844f 100644
--- a/val_encoder_direct.go
+++ b/val_encoder_direct.go
@@ -15,3 +15,14 @@ func (enc *directEncoder) IsEmpty(ptr unsafe.Pointer) bool {
 func (enc *directEncoder) Encode(ptr unsafe.Pointer, s *Streamer, opts *EncOpts) {
 	enc.encoder.Encode(unsafe.Pointer(&ptr), s, opts)
 }
+
+// addressedEncoder encodes a value with the encoder of its pointer type,
+// the emptiness is the one of the value instead of the one of the pointer
+type addressedEncoder struct {
+	directEncoder
+	isEmpty isEmptyFunc
+}
+
+func (enc *addressedEncoder) IsEmpty(ptr unsafe.Pointer) bool {
+	return enc.isEmpty(ptr)
+}
-- 
2.43.0


From c8d6ed2ce2f6d9ec8934ca1b81bd8dc91b0fdcb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:44:33 +0000
Subject: [PATCH 13/29] fix: honour the string tag option when encoding floats
 and json.Number

These fields were written without quotes.
---
 streamer_float.go           | 24 ++++++++++++++++++++++++
 val_encoder_json_number.go  |  6 +++++-
 val_encoder_native_float.go | 12 ++++++++++--
 3 files changed, 39 insertions(+), 3 deletions(-)

diff --git a/streamer_float.go b/streamer_float.go
index fcecf45..7814026 100644
--- a/streamer_float.go
+++ b/streamer_float.go
@@ -5,6 +5,18 @@ import (
 	"strconv"
 )
 
+func (s *Streamer) quotedFloat32(f float32) *Streamer {
+	if s.Error != nil {
+		return s
+	}
+	s.onVal()
+	s.buffer = append(s.buffer, '"')
+	s.poped = false
+	s.Float32(f)
+	s.buffer = append(s.buffer, '"')
+	return s
+}
+
 // Float32 writes a float32 value
 func (s *Streamer) Float32(f float32) *Streamer {
 	if s.Error != nil {
@@ -46,6 +58,18 @@ func (s *Streamer) Float32(f float32) *Streamer {
 	return s
 }
 
+func (s *Streamer) quotedFloat64(f float64) *Streamer {
+	if s.Error != nil {
+		return s
+	}
+	s.onVal()
+	s.buffer = append(s.buffer, '"')
+	s.poped = false
+	s.Float64(f)
+	s.buffer = append(s.buffer, '"')
+	return s
+}
+
 // Float64 writes a float64 value
 func (s *Streamer) Float64(f float64) *Streamer {
 	if s.Error != nil {
diff --git a/val_encoder_json_number.go b/val_encoder_json_number.go
index 3e8d2e4..300216e 100644
--- a/val_encoder_json_number.go
+++ b/val_encoder_json_number.go
@@ -21,5 +21,9 @@ func (*jsonNumberEncoder) Encode(ptr unsafe.Pointer, s *Streamer, opts *EncOpts)
 		str = "0"
 	}
 	// TODO: the standard library will check the validity in future
-	s.RawString(str)
+	if opts == nil || !opts.Quoted {
+		s.RawString(str)
+	} else {
+		s.RawString(`"` + str + `"`)
+	}
 }
diff --git a/val_encoder_native_float.go b/val_encoder_native_float.go
index 11d8cb6..6736a08 100644
--- a/val_encoder_native_float.go
+++ b/val_encoder_native_float.go
@@ -16,7 +16,11 @@ func (*float32Encoder) Encode(ptr unsafe.Pointer, s *Streamer, opts *EncOpts) {
 		s.Null()
 		return
 	}
-	s.Float32(*(*float32)(ptr))
+	if opts == nil || !opts.Quoted {
+		s.Float32(*(*float32)(ptr))
+	} else {
+		s.quotedFloat32(*(*float32)(ptr))
+	}
 }
 
 // float64 encoder
@@ -31,5 +35,9 @@ func (*float64Encoder) Encode(ptr unsafe.Pointer, s *Streamer, opts *EncOpts) {
 		s.Null()
 		return
 	}
-	s.Float64(*(*float64)(ptr))
+	if opts == nil || !opts.Quoted {
+		s.Float64(*(*float64)(ptr))
+	} else {
+		s.quotedFloat64(*(*float64)(ptr))
+	}
 }
-- 
2.43.0


From 9a4f1d4cdfad4a015552143b8732f952ffe84184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:45:12 +0000
Subject: [PATCH 14/29] fix: align the decoding of quoted fields with the
 standard library

- a quoted null leaves numbers untouched and sets pointers to nil
- an unquoted boolean, or spaces inside of the quotes, are rejected
---
 val_decoder.go             | 13 +++++++++++++
 val_decoder_native.go      | 13 +++++++++----
 val_decoder_native_int.go  | 12 ++++++++++++
 val_decoder_native_ptr.go  |  4 +++-
 val_decoder_native_uint.go | 12 ++++++++++++
 5 files changed, 49 insertions(+), 5 deletions(-)

diff --git a/val_decoder.go b/val_decoder.go
index b051d0e..d95cc9d 100644
--- a/val_decoder.go
+++ b/val_decoder.go
@@ -91,6 +91,9 @@ func init() {
 type DecOpts struct {
 	MapKey bool
 	Quoted bool
+
+	// the quoted value is null, set by the decoder
+	quotedNull bool
 }
 
 func (opts *DecOpts) noescape() *DecOpts {
@@ -107,3 +110,13 @@ type notSupportedDecoder string
 func (dec notSupportedDecoder) Decode(ptr unsafe.Pointer, it *Iterator, _ *DecOpts) error {
 	return TypeNotSupportedError(dec)
 }
+
+// called when the next byte is the first one of a quoted null, and
+// the leading quote is already consumed
+func (it *Iterator) readQuotedNull(opts *DecOpts) error {
+	if err := it.expectBytes(`null"`); err != nil {
+		return err
+	}
+	opts.quotedNull = true
+	return nil
+}
diff --git a/val_decoder_native.go b/val_decoder_native.go
index b2f15b0..3decb4a 100644
--- a/val_decoder_native.go
+++ b/val_decoder_native.go
@@ -13,6 +13,10 @@ func (*boolDecoder) Decode(ptr unsafe.Pointer, it *Iterator, opts *DecOpts) erro
 	if err != nil {
 		return err
 	}
+	quoted := (opts != nil) && opts.Quoted
+	if quoted && c != '"' && c != 'n' {
+		return UnexpectedByteError{got: c, exp: '"', exp2: 'n'}
+	}
 	switch c {
 	case 'n':
 		it.head++
@@ -32,15 +36,17 @@ func (*boolDecoder) Decode(ptr unsafe.Pointer, it *Iterator, opts *DecOpts) erro
 		*(*bool)(ptr) = false
 		return nil
 	case '"':
-		quoted := (opts != nil) && opts.Quoted
 		if !quoted {
 			return UnexpectedByteError{got: c}
 		}
 		it.head++
-		c, err := it.nextToken()
+		c, err := it.nextByte()
 		if err != nil {
 			return err
 		}
+		if c == 'n' {
+			return it.readQuotedNull(opts)
+		}
 		it.head++
 		switch c {
 		case 't':
@@ -55,8 +61,6 @@ func (*boolDecoder) Decode(ptr unsafe.Pointer, it *Iterator, opts *DecOpts) erro
 			}
 			*(*bool)(ptr) = false
 			return nil
-		case 'n':
-			return it.expectBytes(`ull"`)
 		default:
 			return UnexpectedByteError{got: c}
 		}
@@ -94,6 +98,7 @@ func (*stringDecoder) Decode(ptr unsafe.Pointer, it *Iterator, opts *DecOpts) er
 			if s != "null" {
 				return BadQuotedStringError(s)
 			}
+			opts.quotedNull = true
 			return nil
 		case '"':
 			if s[l-1] != '"' {
diff --git a/val_decoder_native_int.go b/val_decoder_native_int.go
index 3a2d32f..fd6104e 100644
--- a/val_decoder_native_int.go
+++ b/val_decoder_native_int.go
@@ -27,6 +27,9 @@ func (*int8Decoder) Decode(ptr unsafe.Pointer, it *Iterator, opts *DecOpts) erro
 		if err != nil {
 			return err
 		}
+		if c == 'n' && opts.Quoted {
+			return it.readQuotedNull(opts)
+		}
 	}
 	it.head++
 	i, err := it.readInt8(c)
@@ -70,6 +73,9 @@ func (*int16Decoder) Decode(ptr unsafe.Pointer, it *Iterator, opts *DecOpts) err
 		if err != nil {
 			return err
 		}
+		if c == 'n' && opts.Quoted {
+			return it.readQuotedNull(opts)
+		}
 	}
 	it.head++
 	i, err := it.readInt16(c)
@@ -113,6 +119,9 @@ func (*int32Decoder) Decode(ptr unsafe.Pointer, it *Iterator, opts *DecOpts) err
 		if err != nil {
 			return err
 		}
+		if c == 'n' && opts.Quoted {
+			return it.readQuotedNull(opts)
+		}
 	}
 	it.head++
 	i, err := it.readInt32(c)
@@ -156,6 +165,9 @@ func (*int64Decoder) Decode(ptr unsafe.Pointer, it *Iterator, opts *DecOpts) err
 		if err != nil {
 			return err
 		}
+		if c == 'n' && opts.Quoted {
+			return it.readQuotedNull(opts)
+		}
 	}
 	it.head++
 	i, err := it.readInt64(c)
diff --git a/val_decoder_native_ptr.go b/val_decoder_native_ptr.go
index 16bb6ef..5239912 100644
--- a/val_decoder_native_ptr.go
+++ b/val_decoder_native_ptr.go
@@ -51,7 +51,9 @@ func (dec *pointerDecoder) Decode(ptr unsafe.Pointer, it *Iterator, opts *DecOpt
 		if err = dec.elemDec.Decode(tgtPtr, it, opts); err != nil {
 			return err
 		}
-		if elemPtr == nil {
+		if opts != nil && opts.quotedNull {
+			*(*unsafe.Pointer)(ptr) = nil
+		} else if elemPtr == nil {
 			*(*unsafe.Pointer)(ptr) = tgtPtr
 		}
 	}
diff --git a/val_decoder_native_uint.go b/val_decoder_native_uint.go
index 4641b1f..0bd40b5 100644
--- a/val_decoder_native_uint.go
+++ b/val_decoder_native_uint.go
@@ -27,6 +27,9 @@ func (*uint8Decoder) Decode(ptr unsafe.Pointer, it *Iterator, opts *DecOpts) err
 		if err != nil {
 			return err
 		}
+		if c == 'n' && opts.Quoted {
+			return it.readQuotedNull(opts)
+		}
 	}
 	it.head++
 	i, err := it.readUint8(c)
@@ -70,6 +73,9 @@ func (*uint16Decoder) Decode(ptr unsafe.Pointer, it *Iterator, opts *DecOpts) er
 		if err != nil {
 			return err
 		}
+		if c == 'n' && opts.Quoted {
+			return it.readQuotedNull(opts)
+		}
 	}
 	it.head++
 	i, err := it.readUint16(c)
@@ -113,6 +119,9 @@ func (*uint32Decoder) Decode(ptr unsafe.Pointer, it *Iterator, opts *DecOpts) er
 		if err != nil {
 			return err
 		}
+		if c == 'n' && opts.Quoted {
+			return it.readQuotedNull(opts)
+		}
 	}
 	it.head++
 	i, err := it.readUint32(c)
@@ -156,6 +165,9 @@ func (*uint64Decoder) Decode(ptr unsafe.Pointer, it *Iterator, opts *DecOpts) er
 		if err != nil {
 			return err
 		}
+		if c == 'n' && opts.Quoted {
+			return it.readQuotedNull(opts)
+		}
 	}
 	it.head++
 	i, err := it.readUint64(c)
-- 
2.43.0


From e5df41478b9598290ea16d600600be9f9615a510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:45:13 +0000
Subject: [PATCH 15/29] fix: honour the string tag option when decoding floats
 and json.Number

The quoted floats were rejected, and the unquoted values accepted.
---
 val_decoder_json_number.go  |  8 ++++-
 val_decoder_native_float.go | 58 +++++++++++++++++++++++++++++++++++--
 2 files changed, 63 insertions(+), 3 deletions(-)

diff --git a/val_decoder_json_number.go b/val_decoder_json_number.go
index 94016ec..51e223e 100644
--- a/val_decoder_json_number.go
+++ b/val_decoder_json_number.go
@@ -6,7 +6,7 @@ import (
 
 type jsonNumberDecoder struct{}
 
-func (*jsonNumberDecoder) Decode(ptr unsafe.Pointer, it *Iterator, _ *DecOpts) error {
+func (*jsonNumberDecoder) Decode(ptr unsafe.Pointer, it *Iterator, opts *DecOpts) error {
 	c, err := it.nextToken()
 	if err != nil {
 		return err
@@ -19,6 +19,9 @@ func (*jsonNumberDecoder) Decode(ptr unsafe.Pointer, it *Iterator, _ *DecOpts) e
 		if err != nil {
 			return err
 		}
+		if c == 'n' && opts != nil && opts.Quoted {
+			return it.readQuotedNull(opts)
+		}
 		if valueTypeMap[c] != NumberValue {
 			return InvalidDigitError{c}
 		}
@@ -42,6 +45,9 @@ func (*jsonNumberDecoder) Decode(ptr unsafe.Pointer, it *Iterator, _ *DecOpts) e
 		it.head++
 		return it.expectBytes("ull")
 	case NumberValue:
+		if opts != nil && opts.Quoted {
+			return UnexpectedByteError{got: c, exp: '"', exp2: 'n'}
+		}
 		it.head++
 		s, err = it.readNumberAsString(c)
 		if err != nil {
diff --git a/val_decoder_native_float.go b/val_decoder_native_float.go
index 3cb4035..9117e53 100644
--- a/val_decoder_native_float.go
+++ b/val_decoder_native_float.go
@@ -8,7 +8,7 @@ import (
 type float32Decoder struct {
 }
 
-func (*float32Decoder) Decode(ptr unsafe.Pointer, it *Iterator, _ *DecOpts) error {
+func (*float32Decoder) Decode(ptr unsafe.Pointer, it *Iterator, opts *DecOpts) error {
 	c, err := it.nextToken()
 	if err != nil {
 		return err
@@ -17,10 +17,37 @@ func (*float32Decoder) Decode(ptr unsafe.Pointer, it *Iterator, _ *DecOpts) erro
 		it.head++
 		return it.expectBytes("ull")
 	}
+	quoted := (opts != nil) && opts.Quoted
+	if quoted {
+		if c != '"' {
+			return UnexpectedByteError{got: c, exp: '"'}
+		}
+		it.head++
+		c, err = it.nextByte()
+		if err != nil {
+			return err
+		}
+		if c == 'n' {
+			return it.readQuotedNull(opts)
+		}
+		if valueTypeMap[c] != NumberValue {
+			return InvalidFloatError{c: c}
+		}
+	}
 	f, err := it.ReadFloat32()
 	if err != nil {
 		return err
 	}
+	if quoted {
+		c, err = it.nextByte()
+		if err != nil {
+			return err
+		}
+		if c != '"' {
+			return UnexpectedByteError{got: c, exp: '"'}
+		}
+		it.head++
+	}
 	*(*float32)(ptr) = f
 	return nil
 }
@@ -29,7 +56,7 @@ func (*float32Decoder) Decode(ptr unsafe.Pointer, it *Iterator, _ *DecOpts) erro
 type float64Decoder struct {
 }
 
-func (*float64Decoder) Decode(ptr unsafe.Pointer, it *Iterator, _ *DecOpts) error {
+func (*float64Decoder) Decode(ptr unsafe.Pointer, it *Iterator, opts *DecOpts) error {
 	c, err := it.nextToken()
 	if err != nil {
 		return err
@@ -38,10 +65,37 @@ func (*float64Decoder) Decode(ptr unsafe.Pointer, it *Iterator, _ *DecOpts) erro
 		it.head++
 		return it.expectBytes("ull")
 	}
+	quoted := (opts != nil) && opts.Quoted
+	if quoted {
+		if c != '"' {
+			return UnexpectedByteError{got: c, exp: '"'}
+		}
+		it.head++
+		c, err = it.nextByte()
+		if err != nil {
+			return err
+		}
+		if c == 'n' {
+			return it.readQuotedNull(opts)
+		}
+		if valueTypeMap[c] != NumberValue {
+			return InvalidFloatError{c: c}
+		}
+	}
 	f, err := it.ReadFloat64()
 	if err != nil {
 		return err
 	}
+	if quoted {
+		c, err = it.nextByte()
+		if err != nil {
+			return err
+		}
+		if c != '"' {
+			return UnexpectedByteError{got: c, exp: '"'}
+		}
+		it.head++
+	}
 	*(*float64)(ptr) = f
 	return nil
 }
-- 
2.43.0


From f2f601998dda5134d8670b33c1228d9fdbc9ab77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:46:03 +0000
Subject: [PATCH 16/29] fix: set the pointer to nil when decoding null in an
 interface holding its address

The interface was replaced by a new pointer, the pointer of the user was
left untouched.
---
 val_decoder_native_interface.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/val_decoder_native_interface.go b/val_decoder_native_interface.go
index 4f7fe3f..b0f1045 100644
--- a/val_decoder_native_interface.go
+++ b/val_decoder_native_interface.go
@@ -98,7 +98,7 @@ func (dec *efaceDecoder) Decode(ptr unsafe.Pointer, it *Iterator, _ *DecOpts) er
 		 *   var o interface{} = &pi
 		 *   Unmarshal(`null`, &o)
 		 */
-		*pObj = reflect.New(ptrElemType).Interface()
+		reflect.ValueOf(obj).Elem().Set(reflect.Zero(ptrElemType))
 		return nil
 	}
 	// when we arrive here, we have:
-- 
2.43.0


From 3bbac91a99eb974f9be9386a2aa20d699a35580b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:46:12 +0000
Subject: [PATCH 17/29] fix: there is no more element when the next byte closes
 an array or an object

Decoder.More returned true where the standard library returns false.
---
 decoder.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/decoder.go b/decoder.go
index 7075f35..7e3e2ec 100644
--- a/decoder.go
+++ b/decoder.go
@@ -57,8 +57,8 @@ func (dec *Decoder) More() bool {
 	if dec.err != nil {
 		return false
 	}
-	_, err := dec.it.nextToken()
-	return err == nil
+	c, err := dec.it.nextToken()
+	return err == nil && c != ']' && c != '}'
 }
 
 // InputOffset returns the input stream byte offset of the current decoder position.
-- 
2.43.0


From b2868643569aeb39993307a4c84e636a921fa17e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:46:20 +0000
Subject: [PATCH 18/29] fix: detect the eface loops which do not include the
 first interface

  var a, b interface{}
  b = &b
  a = &b
  Unmarshal([]byte(`1`), &a)

Only the first pointer was recorded, so that the decoder entered an
infinite recursion when the loop starts after it.
---
 iterator.go                     |  1 +
 val_decoder_native_interface.go | 14 ++++++++++++--
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/iterator.go b/iterator.go
index a2db9de..d9d6126 100644
--- a/iterator.go
+++ b/iterator.go
@@ -23,6 +23,7 @@ type iteratorEmbedded struct {
 	// eface checkpoint
 	lastEfaceOffset int
 	lastEfacePtr    uintptr
+	efaceSteps      int
 
 	// TODO: 1. type of context?
 	// TODO: 2. should context be reset as well?
diff --git a/val_decoder_native_interface.go b/val_decoder_native_interface.go
index b0f1045..5c1f0b6 100644
--- a/val_decoder_native_interface.go
+++ b/val_decoder_native_interface.go
@@ -21,11 +21,21 @@ func (dec *efaceDecoder) checkLoop(ptr unsafe.Pointer, it *Iterator) bool {
 		// - the iterator moved
 		it.lastEfacePtr = uptr
 		it.lastEfaceOffset = curOffset
+		it.efaceSteps = 0
 		return true
 	}
-	// the iterator didn't move, check the pointer we first met
+	// the iterator didn't move, check the last pointer recorded
 	// at this location
-	return uptr != it.lastEfacePtr
+	if uptr == it.lastEfacePtr {
+		return false
+	}
+	// the loop may not include the recorded pointer, record the current one
+	// each time when the number of steps is a power of 2 (see Brent's algorithm)
+	it.efaceSteps++
+	if it.efaceSteps&(it.efaceSteps-1) == 0 {
+		it.lastEfacePtr = uptr
+	}
+	return true
 }
 
 func (dec *efaceDecoder) Decode(ptr unsafe.Pointer, it *Iterator, _ *DecOpts) error {
-- 
2.43.0


From 2811960d855ea62625898f3122abc35b9116d47b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:47:19 +0000
Subject: [PATCH 19/29] fix: process the data returned by a reader together
 with an error

As required by io.Reader, the data must be processed before considering
the error. A complete value was dropped when its last bytes were returned
with an error other than EOF.
---
 iterator.go | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/iterator.go b/iterator.go
index d9d6126..ca4aee9 100644
--- a/iterator.go
+++ b/iterator.go
@@ -20,6 +20,9 @@ type iteratorEmbedded struct {
 	// the current index position
 	head int
 
+	// the error returned by the reader together with some data
+	readErr error
+
 	// eface checkpoint
 	lastEfaceOffset int
 	lastEfacePtr    uintptr
@@ -148,6 +151,9 @@ func (it *Iterator) readMore() error {
 		n   int
 		err error
 	)
+	if it.readErr != nil {
+		return it.readErr
+	}
 	for {
 		if it.capture {
 			var buf [bufferSize]byte
@@ -167,15 +173,15 @@ func (it *Iterator) readMore() error {
 			it.head = 0
 			it.tail = n
 		}
-		if err != nil {
-			if err == io.EOF && n > 0 {
-				return nil
-			}
-			return err
-		}
 		if n > 0 {
+			// see comment of io.Reader, the data should be processed
+			// before considering the error
+			it.readErr = err
 			return nil
 		}
+		if err != nil {
+			return err
+		}
 		// n == 0 && err == nil
 		// the implementation of the reader is wrong
 		runtime.Gosched()
-- 
2.43.0


From 2bbb08424073ca2dbf2ac08451bef9eb76434aa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:56:04 +0000
Subject: [PATCH 20/29] fix: report the overflow of 8 bits integers with more
 than 3 digits

The reading stopped after the third digit, the remaining digits were left
in the input: decoding the stream '1234' in an uint8 produced 123 and 4.
---
 iterator_int8.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/iterator_int8.go b/iterator_int8.go
index 5cd6d3a..202a2e2 100644
--- a/iterator_int8.go
+++ b/iterator_int8.go
@@ -63,6 +63,17 @@ func (it *Iterator) readUint8(c byte) (ret uint8, err error) {
 		return
 	}
 	ret = (ret << 3) + (ret << 1) + uint8(u)
+	if it.head == it.tail {
+		if err = it.readMore(); err != nil {
+			if err == io.EOF {
+				err = nil
+			}
+			return
+		}
+	}
+	if intDigits[it.buffer[it.head]] != invalidDigit { // fourth digit
+		err = IntOverflowError{}
+	}
 	return
 }
 
-- 
2.43.0


From 30c1036f0d4c374b48cfa2f92d44c0503bf0b3ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:56:31 +0000
Subject: [PATCH 21/29] fix: do not read the integer part of a float as an
 integer

The fraction and exponent were left in the input: decoding the stream '1.5'
in an int produced 1 without error.
---
 iterator_int.go   | 17 +++++++++++++++++
 iterator_int16.go |  4 ++--
 iterator_int32.go |  4 ++--
 iterator_int64.go |  4 ++--
 iterator_int8.go  |  9 +++++----
 5 files changed, 28 insertions(+), 10 deletions(-)

diff --git a/iterator_int.go b/iterator_int.go
index f7c6d15..3dfbb50 100644
--- a/iterator_int.go
+++ b/iterator_int.go
@@ -1,6 +1,7 @@
 package jzon
 
 import (
+	"io"
 	"strconv"
 )
 
@@ -21,6 +22,22 @@ func init() {
 	}
 }
 
+// an integer must not be followed by a fraction or an exponent part,
+// the next byte is not consumed
+func (it *Iterator) expectIntEnd() error {
+	c, err := it.nextByte()
+	if err != nil {
+		if err == io.EOF {
+			return nil
+		}
+		return err
+	}
+	if c == '.' || c == 'e' || c == 'E' {
+		return InvalidDigitError{c: c}
+	}
+	return nil
+}
+
 // ReadInt reads an int value
 func (it *Iterator) ReadInt() (int, error) {
 	if strconv.IntSize == 32 {
diff --git a/iterator_int16.go b/iterator_int16.go
index 391fbf0..e348053 100644
--- a/iterator_int16.go
+++ b/iterator_int16.go
@@ -25,7 +25,7 @@ func (it *Iterator) ReadUint16() (uint16, error) {
 func (it *Iterator) readUint16(c byte) (ret uint16, err error) {
 	u := intDigits[c]
 	if u == 0 {
-		return 0, nil
+		return 0, it.expectIntEnd()
 	}
 	if u == invalidDigit {
 		return 0, InvalidDigitError{c: c}
@@ -38,7 +38,7 @@ func (it *Iterator) readUint16(c byte) (ret uint16, err error) {
 			digit := intDigits[it.buffer[i]]
 			if digit == invalidDigit {
 				it.head = i
-				return ret, nil
+				return ret, it.expectIntEnd()
 			}
 			if numDigit >= maxUint16Div10NumDigits {
 				if ret > maxUint16Div10 ||
diff --git a/iterator_int32.go b/iterator_int32.go
index dbd0135..a333b23 100644
--- a/iterator_int32.go
+++ b/iterator_int32.go
@@ -25,7 +25,7 @@ func (it *Iterator) ReadUint32() (uint32, error) {
 func (it *Iterator) readUint32(c byte) (ret uint32, err error) {
 	u := intDigits[c]
 	if u == 0 {
-		return 0, nil
+		return 0, it.expectIntEnd()
 	}
 	if u == invalidDigit {
 		return 0, InvalidDigitError{c: c}
@@ -38,7 +38,7 @@ func (it *Iterator) readUint32(c byte) (ret uint32, err error) {
 			digit := intDigits[it.buffer[i]]
 			if digit == invalidDigit {
 				it.head = i
-				return
+				return ret, it.expectIntEnd()
 			}
 			if numDigit >= maxUint32Div10NumDigits {
 				if ret > maxUint32Div10 ||
diff --git a/iterator_int64.go b/iterator_int64.go
index 62f9faf..424d63d 100644
--- a/iterator_int64.go
+++ b/iterator_int64.go
@@ -25,7 +25,7 @@ func (it *Iterator) ReadUint64() (uint64, error) {
 func (it *Iterator) readUint64(c byte) (ret uint64, err error) {
 	u := intDigits[c]
 	if u == 0 {
-		return 0, nil
+		return 0, it.expectIntEnd()
 	}
 	if u == invalidDigit {
 		return 0, InvalidDigitError{c: c}
@@ -39,7 +39,7 @@ func (it *Iterator) readUint64(c byte) (ret uint64, err error) {
 			digit := intDigits[it.buffer[i]]
 			if digit == invalidDigit {
 				it.head = i
-				return ret, nil
+				return ret, it.expectIntEnd()
 			}
 			if numDigit >= maxUint64Div10NumDigits {
 				if ret > maxUint64Div10 ||
diff --git a/iterator_int8.go b/iterator_int8.go
index 202a2e2..2c92946 100644
--- a/iterator_int8.go
+++ b/iterator_int8.go
@@ -24,7 +24,7 @@ func (it *Iterator) ReadUint8() (uint8, error) {
 func (it *Iterator) readUint8(c byte) (ret uint8, err error) {
 	u := intDigits[c]
 	if u == 0 {
-		return 0, nil
+		return 0, it.expectIntEnd()
 	}
 	if u == invalidDigit {
 		return 0, InvalidDigitError{c: c}
@@ -40,7 +40,7 @@ func (it *Iterator) readUint8(c byte) (ret uint8, err error) {
 	}
 	u = intDigits[it.buffer[it.head]] // second digit
 	if u == invalidDigit {
-		return
+		return ret, it.expectIntEnd()
 	}
 	ret = (ret << 3) + (ret << 1) + uint8(u)
 	it.head++
@@ -54,7 +54,7 @@ func (it *Iterator) readUint8(c byte) (ret uint8, err error) {
 	}
 	u = intDigits[it.buffer[it.head]] // third digit
 	if u == invalidDigit {
-		return
+		return ret, it.expectIntEnd()
 	}
 	it.head++
 	if ret > maxUint8Div10 ||
@@ -73,8 +73,9 @@ func (it *Iterator) readUint8(c byte) (ret uint8, err error) {
 	}
 	if intDigits[it.buffer[it.head]] != invalidDigit { // fourth digit
 		err = IntOverflowError{}
+		return
 	}
-	return
+	return ret, it.expectIntEnd()
 }
 
 func (it *Iterator) readInt8(c byte) (int8, error) {
-- 
2.43.0


From 5793411e99254ee3a8329f05e4a410b6209943ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:07:14 +0000
Subject: [PATCH 22/29] fix: report a truncated value in a stream as
 io.ErrUnexpectedEOF

Decoder.Decode returned io.EOF for a value cut by the end of the stream, so
that it could not be told apart from the regular end of the stream.
---
 decoder.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/decoder.go b/decoder.go
index 7e3e2ec..7a7d666 100644
--- a/decoder.go
+++ b/decoder.go
@@ -36,11 +36,23 @@ func (dec *Decoder) DisallowUnknownFields() {
 // input and stores it in the value pointed to by v.
 func (dec *Decoder) Decode(v interface{}) error {
 	if dec.err == nil {
-		dec.err = dec.it.ReadVal(v)
+		dec.err = dec.decode(v)
 	}
 	return dec.err
 }
 
+func (dec *Decoder) decode(v interface{}) error {
+	// io.EOF is only returned when there is no more value
+	if _, err := dec.it.nextToken(); err != nil {
+		return err
+	}
+	err := dec.it.ReadVal(v)
+	if err == io.EOF {
+		err = io.ErrUnexpectedEOF
+	}
+	return err
+}
+
 // Buffered returns a reader of the data remaining in the Decoder's
 // buffer. The reader is valid until the next call to Decode.
 func (dec *Decoder) Buffered() io.Reader {
-- 
2.43.0


From 2308974732fec267034a14fb8dca2a78fd151852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:35:33 +0000
Subject: [PATCH 23/29] fix: encode a nil pointer-shaped struct without fields
 as an object

---
 encoder_config.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/encoder_config.go b/encoder_config.go
index 836e470..33145f4 100644
--- a/encoder_config.go
+++ b/encoder_config.go
@@ -308,7 +308,11 @@ func (encCfg *EncoderConfig) createEncoderInternal(cache, internalCache encoderC
 				// no fields to marshal
 				v := (*emptyStructEncoder)(nil)
 				internalCache[rType] = v
-				cache[rType] = v
+				if ifaceIndir(rType) {
+					cache[rType] = v
+				} else {
+					cache[rType] = &directEncoder{v}
+				}
 			} else {
 				for i := range w.fields {
 					fi := &w.fields[i]
-- 
2.43.0


From adf79f0ba6500db9ea29d000a3ba4e1eda8b7469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:43:42 +0000
Subject: [PATCH 24/29] fix: accept the semicolon in tag names

---
 struct_tag.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/struct_tag.go b/struct_tag.go
index 92dea79..b4e30d7 100644
--- a/struct_tag.go
+++ b/struct_tag.go
@@ -51,7 +51,7 @@ func isValidTag(s string) bool {
 	}
 	for _, c := range s {
 		switch {
-		case strings.ContainsRune("!#$%&()*+-./:<=>?@[]^_{|}~ ", c):
+		case strings.ContainsRune("!#$%&()*+-./:;<=>?@[]^_{|}~ ", c):
 			// Backslash and quote chars are reserved, but
 			// otherwise any punctuation chars are allowed
 			// in a tag name.
-- 
2.43.0


From 74cc2934b5eb1bf6875d6d5a9424ba1a736a2594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:36:29 +0000
Subject: [PATCH 25/29] fix: call the text marshaler of nil pointer-shaped map
 keys which are not pointers

---
 val_encoder_native_map.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/val_encoder_native_map.go b/val_encoder_native_map.go
index b74a0bd..99f9f67 100644
--- a/val_encoder_native_map.go
+++ b/val_encoder_native_map.go
@@ -86,10 +86,10 @@ func (enc directTextMarshalerKeyEncoder) Encode(ptr unsafe.Pointer, s *Streamer)
 	// go1.14 ignore the error silently
 	// check `func (w *reflectWithString) resolve()` in encoding/json
 	ptr = *(*unsafe.Pointer)(ptr)
-	if ptr == nil {
+	obj := packEFace(rtype, ptr)
+	if ptr == nil && reflect.TypeOf(obj).Kind() == reflect.Ptr {
 		s.String("")
 	} else {
-		obj := packEFace(rtype, ptr)
 		marshaler := obj.(encoding.TextMarshaler)
 		b, err := marshaler.MarshalText()
 		if err != nil {
-- 
2.43.0


From 4952be1efc3a369f9e8b48d4c458edaefd40862c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:36:29 +0000
Subject: [PATCH 26/29] fix: encode maps whose key type is an interface with a
 text marshaler

---
 val_encoder_native_map.go | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/val_encoder_native_map.go b/val_encoder_native_map.go
index 99f9f67..a0aa358 100644
--- a/val_encoder_native_map.go
+++ b/val_encoder_native_map.go
@@ -22,7 +22,9 @@ func newMapEncoder(mapType reflect.Type) *mapEncoderBuilder {
 	case keyKind == reflect.String:
 		keyEncoder = keyEncoders[keyKind]
 	case keyType.Implements(textMarshalerType):
-		if ifaceIndir(keyRType) {
+		if keyKind == reflect.Interface {
+			keyEncoder = (*ifaceTextMarshalerKeyEncoder)(nil)
+		} else if ifaceIndir(keyRType) {
 			keyEncoder = textMarshalerKeyEncoder(keyRType)
 		} else {
 			keyEncoder = directTextMarshalerKeyEncoder(keyRType)
@@ -102,6 +104,28 @@ func (enc directTextMarshalerKeyEncoder) Encode(ptr unsafe.Pointer, s *Streamer)
 	s.poped = false
 }
 
+// for the interfaces which embed encoding.TextMarshaler
+type ifaceTextMarshalerKeyEncoder struct{}
+
+func (*ifaceTextMarshalerKeyEncoder) Encode(ptr unsafe.Pointer, s *Streamer) {
+	if s.Error != nil {
+		return
+	}
+	obj := packIFace(ptr)
+	if obj == nil {
+		s.String("")
+	} else {
+		b, err := obj.(encoding.TextMarshaler).MarshalText()
+		if err != nil {
+			s.Error = err
+			return
+		}
+		s.String(localByteToString(b))
+	}
+	s.buffer = append(s.buffer, ':')
+	s.poped = false
+}
+
 // key encoders
 type stringKeyEncoder struct{}
 
-- 
2.43.0


From efa2b196b29c75dd48ee124d80841962ea9e2ba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:40:14 +0000
Subject: [PATCH 27/29] fix: set maps and slices with a text unmarshaler to nil
 on null

---
 val_decoder_text_unmarshaler.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/val_decoder_text_unmarshaler.go b/val_decoder_text_unmarshaler.go
index 904614f..f0092b2 100644
--- a/val_decoder_text_unmarshaler.go
+++ b/val_decoder_text_unmarshaler.go
@@ -29,7 +29,14 @@ func (dec textUnmarshalerDecoder) Decode(ptr unsafe.Pointer, it *Iterator, _ *De
 		return unmarshaler.UnmarshalText(b)
 	case 'n':
 		it.head++
-		return it.expectBytes("ull")
+		if err := it.expectBytes("ull"); err != nil {
+			return err
+		}
+		switch v := reflect.ValueOf(obj).Elem(); v.Kind() {
+		case reflect.Map, reflect.Slice:
+			v.Set(reflect.Zero(v.Type()))
+		}
+		return nil
 	default:
 		return UnexpectedByteError{got: c, exp: '"', exp2: 'n'}
 	}
-- 
2.43.0


From a781725757ca3bb61942940312e6644dfc58c1b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:45 +0000
Subject: [PATCH 28/29] fix: count the input offset of streams over 2 GiB on
 32-bit platforms

The offset is an int: InputOffset turned negative when more than 2^31-1
bytes had been read where an int has 32 bits.
---
 decoder.go  |  2 +-
 iterator.go | 12 ++++++++++++
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/decoder.go b/decoder.go
index 7a7d666..8e1cd2b 100644
--- a/decoder.go
+++ b/decoder.go
@@ -78,5 +78,5 @@ func (dec *Decoder) More() bool {
 // and the beginning of the next token.
 // Whitespace may present at the position of offset
 func (dec *Decoder) InputOffset() int64 {
-	return int64(dec.it.offset + dec.it.head)
+	return dec.it.offsetBase + int64(dec.it.offset) + int64(dec.it.head)
 }
diff --git a/iterator.go b/iterator.go
index ca4aee9..b75ba65 100644
--- a/iterator.go
+++ b/iterator.go
@@ -9,6 +9,10 @@ import (
 
 const bufferSize = 512
 
+// the offset is moved into offsetBase from here on, so that it is in the
+// range of an int on all platforms
+const maxOffset = 1 << 30
+
 // for fast reset
 type iteratorEmbedded struct {
 	/*
@@ -17,6 +21,9 @@ type iteratorEmbedded struct {
 	capture bool
 	offset  int
 
+	// the number of bytes before those counted by offset
+	offsetBase int64
+
 	// the current index position
 	head int
 
@@ -170,6 +177,11 @@ func (it *Iterator) readMore() error {
 			}
 			n, err = it.reader.Read(it.buffer)
 			it.offset += it.tail
+			if it.offset >= maxOffset {
+				it.offsetBase += int64(it.offset)
+				it.lastEfaceOffset -= it.offset
+				it.offset = 0
+			}
 			it.head = 0
 			it.tail = n
 		}
-- 
2.43.0


From f90d360126344e54d165cfb7c3c14eae40380564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:51 +0000
Subject: [PATCH 29/29] fix: drop the consumed bytes from the buffer before
 capturing raw values

---
 iterator_number.go |  2 ++
 iterator_raw.go    | 20 ++++++++++++++++++++
 2 files changed, 22 insertions(+)

diff --git a/iterator_number.go b/iterator_number.go
index 390412b..83f917b 100644
--- a/iterator_number.go
+++ b/iterator_number.go
@@ -2,6 +2,8 @@ package jzon
 
 // it.head has already be forwarded before calling this
 func (it *Iterator) readNumberAsString(c byte) (n string, err error) {
+	it.dropConsumed(it.head - 1)
+
 	// start capture
 	oldCapture := it.capture
 	it.capture = true
diff --git a/iterator_raw.go b/iterator_raw.go
index b874c8c..e65b925 100644
--- a/iterator_raw.go
+++ b/iterator_raw.go
@@ -1,5 +1,24 @@
 package jzon
 
+// drop the first n bytes (which have been consumed) from the buffer of the
+// reader, should be called before a capture: nothing is dropped during the
+// capture, and there may be no other call to readMore between two captures,
+// so that the buffer would keep everything that is read
+func (it *Iterator) dropConsumed(n int) {
+	// wait until there are more bytes to drop than to move
+	if it.capture || it.reader == nil || n < it.tail-n {
+		return
+	}
+	it.offset += n
+	if it.offset >= maxOffset {
+		it.offsetBase += int64(it.offset)
+		it.lastEfaceOffset -= it.offset
+		it.offset = 0
+	}
+	it.tail = copy(it.buffer, it.buffer[n:it.tail])
+	it.head -= n
+}
+
 // SkipRaw skips and returns the bytes skipped
 // slice will not be copied, so make a copy if the return
 // value is to be stored somewhere
@@ -8,6 +27,7 @@ func (it *Iterator) SkipRaw() ([]byte, error) {
 	if err != nil {
 		return nil, err
 	}
+	it.dropConsumed(it.head)
 	oldCapture := it.capture
 	it.capture = true
 	begin := it.head
-- 
2.43.0

