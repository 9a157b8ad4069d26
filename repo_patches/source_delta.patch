From ca78d375b390543d53cbbb55bffa70c9e73d94b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:52 +0000
Subject: [PATCH 01/21] fix: thriftcompact: keep the underlying writer across
 Writer.Reset

Flush after Reset did not call Flush on the underlying io.Writer.
---
 encoding/thriftcompact/thriftcompact.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/encoding/thriftcompact/thriftcompact.go b/encoding/thriftcompact/thriftcompact.go
index fc079ff..226eca1 100644
--- a/encoding/thriftcompact/thriftcompact.go
+++ b/encoding/thriftcompact/thriftcompact.go
@@ -534,6 +534,7 @@ func (x *writer) Reset(uw io.Writer) {
 	x.Writer.Reset(uw)
 	*x = writer{
 		Writer:       x.Writer,
+		uw:           uw,
 		lastFieldIDs: x.lastFieldIDs[:0],
 	}
 }
-- 
2.43.0


From 828463473a5fd89381eb0d3a3788bf79ace807cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:01 +0000
Subject: [PATCH 02/21] fix: thriftcompact: encode bool elements as 1 and 2

The compact protocol sends the bool elements of lists, sets and maps as 1
(true) or 2 (false). A false element written by other implementations was
read as true.
---
 encoding/thriftcompact/thriftcompact.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/encoding/thriftcompact/thriftcompact.go b/encoding/thriftcompact/thriftcompact.go
index 226eca1..396148f 100644
--- a/encoding/thriftcompact/thriftcompact.go
+++ b/encoding/thriftcompact/thriftcompact.go
@@ -216,8 +216,9 @@ func (x *reader) ReadBool() (bool, error) {
 		x.boolField = boolNone
 		return v, nil
 	}
+	// Elements are encoded as 1 (true) or 2 (false), older writers use 0 for false.
 	v, err := x.ReadByte()
-	return v != 0, err
+	return v == byte(_BOOLEAN_TRUE), err
 }
 
 func (x *reader) ReadDouble() (float64, error) {
@@ -475,9 +476,9 @@ func (x *writer) WriteBool(v bool) error {
 		return nil
 	}
 	if v {
-		return x.WriteByte(1)
+		return x.WriteByte(byte(_BOOLEAN_TRUE))
 	}
-	return x.WriteByte(0)
+	return x.WriteByte(byte(_BOOLEAN_FALSE))
 }
 
 func (x *writer) WriteDouble(v float64) error {
-- 
2.43.0


From b31bdea6ec6725b5f7e72b20d52417c7af0a073b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:02 +0000
Subject: [PATCH 03/21] fix: thriftcompact: encode negative message IDs as
 32-bit varints

A negative ID was sign-extended to a 10-byte varint, which is not a
32-bit var int.
---
 encoding/thriftcompact/thriftcompact.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/encoding/thriftcompact/thriftcompact.go b/encoding/thriftcompact/thriftcompact.go
index 396148f..1f0637e 100644
--- a/encoding/thriftcompact/thriftcompact.go
+++ b/encoding/thriftcompact/thriftcompact.go
@@ -313,7 +313,7 @@ func (x *writer) WriteMessageBegin(h thriftwire.MessageHeader) (err error) {
 	if err != nil {
 		return err
 	}
-	err = x.writeUvarint(uint64(h.ID))
+	err = x.writeUvarint(uint64(uint32(h.ID)))
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From 457ad8238ebc5f707901a968c3893cc6d6e093b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:04 +0000
Subject: [PATCH 04/21] fix: thriftwire: do not read past the varint

Peeking a maximum-length varint waits for up to 10 bytes even if the
varint is already complete, so that reading a short message from a
connection blocked until the peer sent something else.
---
 encoding/thriftwire/varint.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/encoding/thriftwire/varint.go b/encoding/thriftwire/varint.go
index 99163bb..265fca4 100644
--- a/encoding/thriftwire/varint.go
+++ b/encoding/thriftwire/varint.go
@@ -7,7 +7,7 @@ import (
 
 // ReadUvarint is like [binary.ReadUvarint] but optimized for [bufio.Reader].
 func ReadUvarint(b *bufio.Reader) (uint64, error) {
-	if buf, _ := b.Peek(binary.MaxVarintLen64); len(buf) > 0 {
+	if buf, _ := b.Peek(min(b.Buffered(), binary.MaxVarintLen64)); len(buf) > 0 {
 		if x, n := binary.Uvarint(buf); n > 0 {
 			_, err := b.Discard(n)
 			return x, err
@@ -18,7 +18,7 @@ func ReadUvarint(b *bufio.Reader) (uint64, error) {
 
 // ReadVarint is like [binary.ReadVarint] but optimized for [bufio.Reader].
 func ReadVarint(b *bufio.Reader) (int64, error) {
-	if buf, _ := b.Peek(binary.MaxVarintLen64); len(buf) > 0 {
+	if buf, _ := b.Peek(min(b.Buffered(), binary.MaxVarintLen64)); len(buf) > 0 {
 		if x, n := binary.Varint(buf); n > 0 {
 			_, err := b.Discard(n)
 			return x, err
-- 
2.43.0


From f71c5e75f4d5187703ae8352d620c2b6614c21d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:05 +0000
Subject: [PATCH 05/21] fix: thriftcompact: allow empty sets and lists without
 an element type

The element type of thriftwire.SetHeader and thriftwire.ListHeader may be
Stop if the container is empty, ReadSetHeader returns such headers.
---
 encoding/thriftcompact/thriftcompact.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/encoding/thriftcompact/thriftcompact.go b/encoding/thriftcompact/thriftcompact.go
index 1f0637e..ffdcacc 100644
--- a/encoding/thriftcompact/thriftcompact.go
+++ b/encoding/thriftcompact/thriftcompact.go
@@ -430,6 +430,9 @@ const MaxSetHeaderSize = 1 + binary.MaxVarintLen64
 
 // AppendSetHeader appends h to buf and returns the extended buffer.
 func AppendSetHeader(buf []byte, h thriftwire.SetHeader) ([]byte, error) {
+	if h.Size <= 0 && h.Element == thriftwire.Stop {
+		return append(buf, byte(_STOP)), nil
+	}
 	e, err := typeCompact(h.Element)
 	if err != nil {
 		return buf, err
-- 
2.43.0


From 69141a4074faeef3f354503fe70b9735b7b6b4e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:07 +0000
Subject: [PATCH 06/21] fix: thriftfile: do not reserve definition_beg and
 definition_end

The names of the marker tokens were registered as keywords.
---
 tools/thriftfile/tokens.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tools/thriftfile/tokens.go b/tools/thriftfile/tokens.go
index bae47f8..e46d970 100644
--- a/tools/thriftfile/tokens.go
+++ b/tools/thriftfile/tokens.go
@@ -83,6 +83,9 @@ var keywords map[string]token
 func init() {
 	keywords = make(map[string]token, keyword_end-(keyword_beg+1))
 	for i := keyword_beg + 1; i < keyword_end; i++ {
+		if i == definition_beg || i == definition_end {
+			continue // not keywords but markers
+		}
 		keywords[i.String()] = i
 	}
 }
-- 
2.43.0


From b94295956fd3b4916558c1d4bc7bd8e5f0c2ab82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:21 +0000
Subject: [PATCH 07/21] fix: reject containers with a negative size

A list, set or map with a negative size was read as an empty container.
---
 encoding/thriftbinary/thriftbinary.go   | 12 ++++++++++--
 encoding/thriftcompact/thriftcompact.go |  3 +++
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/encoding/thriftbinary/thriftbinary.go b/encoding/thriftbinary/thriftbinary.go
index 8af57f4..1c93232 100644
--- a/encoding/thriftbinary/thriftbinary.go
+++ b/encoding/thriftbinary/thriftbinary.go
@@ -133,7 +133,7 @@ func (x *reader) ReadMapBegin() (h thriftwire.MapHeader, err error) {
 	if err != nil {
 		return h, err
 	}
-	h.Size, err = x.readSize()
+	h.Size, err = x.readContainerSize()
 	return h, err
 }
 
@@ -146,7 +146,7 @@ func (x *reader) ReadSetBegin() (h thriftwire.SetHeader, err error) {
 	if err != nil {
 		return h, err
 	}
-	h.Size, err = x.readSize()
+	h.Size, err = x.readContainerSize()
 	return h, err
 }
 
@@ -250,6 +250,14 @@ func (x *reader) readSize() (int, error) {
 	return int(v), err
 }
 
+func (x *reader) readContainerSize() (int, error) {
+	v, err := x.readSize()
+	if err == nil && v < 0 {
+		return 0, fmt.Errorf("thriftbinary: negative size %d", v)
+	}
+	return v, err
+}
+
 type writer struct {
 	*bufio.Writer
 	w      io.Writer
diff --git a/encoding/thriftcompact/thriftcompact.go b/encoding/thriftcompact/thriftcompact.go
index ffdcacc..e1ec197 100644
--- a/encoding/thriftcompact/thriftcompact.go
+++ b/encoding/thriftcompact/thriftcompact.go
@@ -136,6 +136,9 @@ func (x *reader) ReadFieldEnd() error {
 
 func readSize(b *bufio.Reader) (int, error) {
 	v, err := binary.ReadUvarint(b)
+	if err == nil && int(v) < 0 {
+		return 0, fmt.Errorf("thriftcompact: negative size %d", int(v))
+	}
 	return int(v), err
 }
 
-- 
2.43.0


From fee380e6b6a37f33312b18ac2a04cdc9afbcd135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:22 +0000
Subject: [PATCH 08/21] fix: thriftbinary: reject sizes that overflow i32

The size was silently truncated, which corrupts the stream.
---
 encoding/thriftbinary/thriftbinary.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/encoding/thriftbinary/thriftbinary.go b/encoding/thriftbinary/thriftbinary.go
index 1c93232..99277fe 100644
--- a/encoding/thriftbinary/thriftbinary.go
+++ b/encoding/thriftbinary/thriftbinary.go
@@ -421,5 +421,8 @@ func (x *writer) writeType(t thriftwire.Type) error {
 }
 
 func (x *writer) writeSize(v int) error {
+	if v > math.MaxInt32 {
+		return fmt.Errorf("thriftbinary: size %d overflows i32", v)
+	}
 	return x.WriteI32(int32(v))
 }
-- 
2.43.0


From bde10a5eb15d3cee19ccf4f46e1af07bade4da64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:24 +0000
Subject: [PATCH 09/21] fix: thrift: reject structs with duplicate field IDs

Both fields were marshaled with the same ID and unmarshaled into one of
them, which silently loses the other.
---
 thrift/fields.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/thrift/fields.go b/thrift/fields.go
index e67ecec..fb04f70 100644
--- a/thrift/fields.go
+++ b/thrift/fields.go
@@ -83,7 +83,7 @@ func makeStructFields(t reflect.Type) (structFields, *SemanticError) {
 		return structFields{}, &SemanticError{GoType: t, Err: err}
 	}
 
-	sort.Slice(allFields, func(i, j int) bool {
+	sort.SliceStable(allFields, func(i, j int) bool {
 		return allFields[i].id < allFields[j].id
 	})
 
@@ -93,6 +93,10 @@ func makeStructFields(t reflect.Type) (structFields, *SemanticError) {
 	}
 	for i := range fs.sorted {
 		f := &fs.sorted[i]
+		if f2, ok := fs.byID[f.id]; ok {
+			err := fmt.Errorf("Go struct fields %s and %s have duplicate field ID %d", f2.name, f.name, f.id)
+			return structFields{}, &SemanticError{GoType: t, Err: err}
+		}
 		fs.byID[f.id] = f
 	}
 
-- 
2.43.0


From f2b844506c8af894c1a40834f17836d93857580e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:25 +0000
Subject: [PATCH 10/21] fix: thriftfile: always set the token of a malformed
 string literal

The scanner returned the previous token again, at the position of the
string, and the parser reported a token that is not there.
---
 tools/thriftfile/scanner.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tools/thriftfile/scanner.go b/tools/thriftfile/scanner.go
index d8fa7e8..0fe3d05 100644
--- a/tools/thriftfile/scanner.go
+++ b/tools/thriftfile/scanner.go
@@ -317,6 +317,7 @@ func (s *scanner) number(seenPoint bool) {
 
 func (s *scanner) string() {
 	quote := s.ch
+	s.tok = _STRING
 	s.nextch()
 	for {
 		if s.ch == quote {
-- 
2.43.0


From 3806c5558b591291fbb5cf2cafdb34cc9ba9f2d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:27 +0000
Subject: [PATCH 11/21] fix: thrift: support recursive map, slice and pointer
 types

Looking up the arshaler of a type such as

	type T []T

recursed until the stack overflowed.
---
 thrift/arshal_default.go | 32 +++++++++++++++++++++++++++++---
 1 file changed, 29 insertions(+), 3 deletions(-)

diff --git a/thrift/arshal_default.go b/thrift/arshal_default.go
index dc6854b..f73b497 100644
--- a/thrift/arshal_default.go
+++ b/thrift/arshal_default.go
@@ -397,10 +397,18 @@ func (va addressableValue) indirect(mayAlloc bool) addressableValue {
 
 func makeMapArshaler(t reflect.Type) *arshaler {
 	var fncs arshaler
-	keyFncs := lookupArshaler(t.Key())
-	valFncs := lookupArshaler(t.Elem())
+	var (
+		once    sync.Once
+		keyFncs *arshaler
+		valFncs *arshaler
+	)
+	init := func() { // lazily because the type may refer to itself
+		keyFncs = lookupArshaler(t.Key())
+		valFncs = lookupArshaler(t.Elem())
+	}
 	fncs.wireType = thriftwire.Map
 	fncs.marshal = func(w thriftwire.Writer, va addressableValue, mo marshalOptions) error {
+		once.Do(init)
 		if keyFncs.wireType == thriftwire.Stop || valFncs.wireType == thriftwire.Stop {
 			return &SemanticError{action: "marshal", ThriftType: thriftwire.Map, GoType: t}
 		}
@@ -436,6 +444,7 @@ func makeMapArshaler(t reflect.Type) *arshaler {
 		return nil
 	}
 	fncs.unmarshal = func(r thriftwire.Reader, va addressableValue, uo unmarshalOptions, wt thriftwire.Type) error {
+		once.Do(init)
 		if wt != thriftwire.Map {
 			return &SemanticError{action: "unmarshal", ThriftType: wt, GoType: t}
 		}
@@ -490,9 +499,16 @@ func makeSetListArshaler[H thriftwire.SetHeader | thriftwire.ListHeader](
 	readEnd func(thriftwire.Reader) error,
 ) *arshaler {
 	var fncs arshaler
-	valFncs := lookupArshaler(t.Elem())
+	var (
+		once    sync.Once
+		valFncs *arshaler
+	)
+	init := func() { // lazily because the type may refer to itself
+		valFncs = lookupArshaler(t.Elem())
+	}
 	fncs.wireType = wireType
 	fncs.marshal = func(w thriftwire.Writer, va addressableValue, mo marshalOptions) error {
+		once.Do(init)
 		if valFncs.wireType == thriftwire.Stop {
 			return &SemanticError{action: "marshal", ThriftType: wireType, GoType: t}
 		}
@@ -519,6 +535,7 @@ func makeSetListArshaler[H thriftwire.SetHeader | thriftwire.ListHeader](
 		return nil
 	}
 	fncs.unmarshal = func(r thriftwire.Reader, va addressableValue, uo unmarshalOptions, wt thriftwire.Type) error {
+		once.Do(init)
 		if wt != wireType {
 			return &SemanticError{action: "unmarshal", ThriftType: wt, GoType: t}
 		}
@@ -595,6 +612,15 @@ func makeListArshaler(t reflect.Type) *arshaler {
 }
 
 func makePointerArshaler(t reflect.Type) *arshaler {
+	// A pointer type that only ever points to itself has no Thrift type.
+	seen := map[reflect.Type]bool{t: true}
+	for e := t.Elem(); e.Kind() == reflect.Pointer; e = e.Elem() {
+		if seen[e] {
+			return makeInvalidArshaler(t)
+		}
+		seen[e] = true
+	}
+
 	var fncs arshaler
 	valFncs := lookupArshaler(t.Elem())
 	fncs.wireType = valFncs.wireType
-- 
2.43.0


From 45e1d438c241269907607a8f94b47f92bfde2668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:02 +0000
Subject: [PATCH 12/21] fix: thriftwire: limit the nesting depth of skipped
 values

A few megabytes of nested containers overflowed the stack, which ends the
process.
---
 encoding/thriftwire/skip.go | 27 +++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/encoding/thriftwire/skip.go b/encoding/thriftwire/skip.go
index 17a2639..627ffde 100644
--- a/encoding/thriftwire/skip.go
+++ b/encoding/thriftwire/skip.go
@@ -1,7 +1,22 @@
 package thriftwire
 
+import "errors"
+
+// maxSkipDepth is the maximum nesting depth of a skipped value.
+const maxSkipDepth = 10000
+
+var errMaxSkipDepth = errors.New("thriftwire: exceeded max nesting depth")
+
 // Skip skips over the next value.
-func Skip(r Reader, t Type) (err error) {
+// It returns an error if the value is nested too deeply.
+func Skip(r Reader, t Type) error {
+	return skip(r, t, 0)
+}
+
+func skip(r Reader, t Type, depth int) (err error) {
+	if depth++; depth > maxSkipDepth {
+		return errMaxSkipDepth
+	}
 	switch t {
 	default:
 		return InvalidTypeError(t)
@@ -31,7 +46,7 @@ func Skip(r Reader, t Type) (err error) {
 			if h.Type == Stop {
 				break
 			}
-			if err := Skip(r, h.Type); err != nil {
+			if err := skip(r, h.Type, depth); err != nil {
 				return err
 			}
 			if err := r.ReadFieldEnd(); err != nil {
@@ -45,10 +60,10 @@ func Skip(r Reader, t Type) (err error) {
 			return err
 		}
 		for i := 0; i < h.Size; i++ {
-			if err := Skip(r, h.Key); err != nil {
+			if err := skip(r, h.Key, depth); err != nil {
 				return err
 			}
-			if err := Skip(r, h.Value); err != nil {
+			if err := skip(r, h.Value, depth); err != nil {
 				return err
 			}
 		}
@@ -59,7 +74,7 @@ func Skip(r Reader, t Type) (err error) {
 			return err
 		}
 		for i := 0; i < h.Size; i++ {
-			if err := Skip(r, h.Element); err != nil {
+			if err := skip(r, h.Element, depth); err != nil {
 				return err
 			}
 		}
@@ -70,7 +85,7 @@ func Skip(r Reader, t Type) (err error) {
 			return err
 		}
 		for i := 0; i < h.Size; i++ {
-			if err := Skip(r, h.Element); err != nil {
+			if err := skip(r, h.Element, depth); err != nil {
 				return err
 			}
 		}
-- 
2.43.0


From 1e11c3e1620be74f123d1c9814c60baed6809449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:04 +0000
Subject: [PATCH 13/21] fix: thrift: limit the nesting depth of values

Deeply nested input for a recursive type, or a cyclic Go value, overflowed
the stack, which ends the process.
---
 thrift/arshal.go         | 13 +++++++++++--
 thrift/arshal_default.go | 18 ++++++++++++++++++
 2 files changed, 29 insertions(+), 2 deletions(-)

diff --git a/thrift/arshal.go b/thrift/arshal.go
index 42e7700..e43b1dc 100644
--- a/thrift/arshal.go
+++ b/thrift/arshal.go
@@ -8,7 +8,14 @@ import (
 	"github.com/itstarsun/go-thrift/encoding/thriftwire"
 )
 
-type marshalOptions struct{}
+// maxDepth is the maximum nesting depth of a value.
+const maxDepth = 10000
+
+var errMaxDepth = errors.New("exceeded max nesting depth")
+
+type marshalOptions struct {
+	depth int // number of enclosing structs and containers
+}
 
 // Marshal serializes a Go value into a [thriftwire.Writer].
 func Marshal(out thriftwire.Writer, in any) error {
@@ -37,7 +44,9 @@ func (mo marshalOptions) Marshal(out thriftwire.Writer, in any) error {
 	return fncs.marshal(out, va, mo)
 }
 
-type unmarshalOptions struct{}
+type unmarshalOptions struct {
+	depth int // number of enclosing structs and containers
+}
 
 // Unmarshal deserializes a Go value from a [thriftwire.Reader].
 func Unmarshal(in thriftwire.Reader, out any) error {
diff --git a/thrift/arshal_default.go b/thrift/arshal_default.go
index f73b497..086d9a5 100644
--- a/thrift/arshal_default.go
+++ b/thrift/arshal_default.go
@@ -273,6 +273,9 @@ func makeStructArshaler(t reflect.Type) *arshaler {
 			err.action = "marshal"
 			return &err
 		}
+		if mo.depth++; mo.depth > maxDepth {
+			return &SemanticError{action: "marshal", ThriftType: thriftwire.Struct, GoType: t, Err: errMaxDepth}
+		}
 		err := w.WriteStructBegin(thriftwire.StructHeader{
 			Name: t.Name(),
 		})
@@ -328,6 +331,9 @@ func makeStructArshaler(t reflect.Type) *arshaler {
 		if wt != thriftwire.Struct {
 			return &SemanticError{action: "unmarshal", ThriftType: wt, GoType: t}
 		}
+		if uo.depth++; uo.depth > maxDepth {
+			return &SemanticError{action: "unmarshal", ThriftType: thriftwire.Struct, GoType: t, Err: errMaxDepth}
+		}
 		_, err := r.ReadStructBegin()
 		if err != nil {
 			err := &wireError{action: "ReadStructBegin", err: err}
@@ -412,6 +418,9 @@ func makeMapArshaler(t reflect.Type) *arshaler {
 		if keyFncs.wireType == thriftwire.Stop || valFncs.wireType == thriftwire.Stop {
 			return &SemanticError{action: "marshal", ThriftType: thriftwire.Map, GoType: t}
 		}
+		if mo.depth++; mo.depth > maxDepth {
+			return &SemanticError{action: "marshal", ThriftType: thriftwire.Map, GoType: t, Err: errMaxDepth}
+		}
 		n := va.Len()
 		err := w.WriteMapBegin(thriftwire.MapHeader{
 			Key:   keyFncs.wireType,
@@ -448,6 +457,9 @@ func makeMapArshaler(t reflect.Type) *arshaler {
 		if wt != thriftwire.Map {
 			return &SemanticError{action: "unmarshal", ThriftType: wt, GoType: t}
 		}
+		if uo.depth++; uo.depth > maxDepth {
+			return &SemanticError{action: "unmarshal", ThriftType: thriftwire.Map, GoType: t, Err: errMaxDepth}
+		}
 		h, err := r.ReadMapBegin()
 		if err != nil {
 			err := &wireError{action: "ReadMapBegin", err: err}
@@ -512,6 +524,9 @@ func makeSetListArshaler[H thriftwire.SetHeader | thriftwire.ListHeader](
 		if valFncs.wireType == thriftwire.Stop {
 			return &SemanticError{action: "marshal", ThriftType: wireType, GoType: t}
 		}
+		if mo.depth++; mo.depth > maxDepth {
+			return &SemanticError{action: "marshal", ThriftType: wireType, GoType: t, Err: errMaxDepth}
+		}
 		n := va.Len()
 		err := writeBegin(w, H{
 			Element: valFncs.wireType,
@@ -539,6 +554,9 @@ func makeSetListArshaler[H thriftwire.SetHeader | thriftwire.ListHeader](
 		if wt != wireType {
 			return &SemanticError{action: "unmarshal", ThriftType: wt, GoType: t}
 		}
+		if uo.depth++; uo.depth > maxDepth {
+			return &SemanticError{action: "unmarshal", ThriftType: wireType, GoType: t, Err: errMaxDepth}
+		}
 		h, err := readBegin(r)
 		if err != nil {
 			err := &wireError{action: readBeginAction, err: err}
-- 
2.43.0


From bd0b5bb7cd510b16feef3b121f3cece6a62e148b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:05 +0000
Subject: [PATCH 14/21] fix: thriftfile: limit the nesting depth of types and
 values

A few megabytes of nested types or values overflowed the stack, which ends
the process.
---
 tools/thriftfile/parser.go | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/tools/thriftfile/parser.go b/tools/thriftfile/parser.go
index 47ad980..5a423a9 100644
--- a/tools/thriftfile/parser.go
+++ b/tools/thriftfile/parser.go
@@ -77,9 +77,22 @@ func (p errors_) Error() string {
 
 type parser struct {
 	scanner
-	errs errors_
+	errs  errors_
+	depth int // nesting depth of types or values
 }
 
+// maxDepth is the maximum nesting depth of types or values.
+const maxDepth = 10000
+
+func (p *parser) enter() {
+	if p.depth++; p.depth > maxDepth {
+		p.error(p.pos, "exceeded max nesting depth")
+		panic(badDef{})
+	}
+}
+
+func (p *parser) leave() { p.depth-- }
+
 func (p *parser) init(fset *gotoken.FileSet, filename string, src []byte) {
 	p.scanner.init(fset.AddFile(filename, -1, len(src)), src, func(pos gotoken.Position, msg string) {
 		p.error(p.file.Pos(pos.Offset), msg)
@@ -401,6 +414,8 @@ func (p *parser) methods() *MethodList {
 }
 
 func (p *parser) type_() Type {
+	p.enter()
+	defer p.leave()
 	switch p.tok {
 	case _MAP:
 		return p.map_()
@@ -456,6 +471,8 @@ func (p *parser) list_() *List {
 }
 
 func (p *parser) value() Value {
+	p.enter()
+	defer p.leave()
 	switch p.tok {
 	case _IDENT:
 		return p.ident()
-- 
2.43.0


From 16c789c5d487c6c58fe4773260122b852d80fa08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:53 +0000
Subject: [PATCH 15/21] fix: do not reset a bufio.Reader or bufio.Writer of the
 caller

---
 encoding/thriftbinary/thriftbinary.go   | 21 +++++++++++++++++++--
 encoding/thriftcompact/thriftcompact.go |  8 ++++++--
 2 files changed, 25 insertions(+), 4 deletions(-)

diff --git a/encoding/thriftbinary/thriftbinary.go b/encoding/thriftbinary/thriftbinary.go
index 99277fe..f3a8715 100644
--- a/encoding/thriftbinary/thriftbinary.go
+++ b/encoding/thriftbinary/thriftbinary.go
@@ -60,11 +60,14 @@ var (
 
 type reader struct {
 	*bufio.Reader
+	shared bool // whether the bufio.Reader belongs to the caller
 	strict bool
 }
 
 func newReader(r io.Reader, strict bool) *reader {
-	return &reader{Reader: bufio.NewReader(r), strict: strict}
+	x := &reader{Reader: bufio.NewReader(r), strict: strict}
+	x.shared = io.Reader(x.Reader) == r
+	return x
 }
 
 func (x *reader) ReadMessageBegin() (h thriftwire.MessageHeader, err error) {
@@ -245,6 +248,15 @@ func (x *reader) readType() (thriftwire.Type, error) {
 	return thriftwire.Type(v), err
 }
 
+func (x *reader) Reset(r io.Reader) {
+	// Do not reset a bufio.Reader that belongs to the caller.
+	if _, ok := r.(*bufio.Reader); ok || x.shared {
+		*x = *newReader(r, x.strict)
+		return
+	}
+	x.Reader.Reset(r)
+}
+
 func (x *reader) readSize() (int, error) {
 	v, err := x.ReadI32()
 	return int(v), err
@@ -408,7 +420,12 @@ func (x *writer) Flush() error {
 }
 
 func (x *writer) Reset(w io.Writer) {
-	x.Writer.Reset(w)
+	// Do not reset a bufio.Writer that belongs to the caller.
+	if _, ok := w.(*bufio.Writer); ok || io.Writer(x.Writer) == x.w {
+		x.Writer = bufio.NewWriter(w)
+	} else {
+		x.Writer.Reset(w)
+	}
 	x.w = w
 }
 
diff --git a/encoding/thriftcompact/thriftcompact.go b/encoding/thriftcompact/thriftcompact.go
index e1ec197..2b637b9 100644
--- a/encoding/thriftcompact/thriftcompact.go
+++ b/encoding/thriftcompact/thriftcompact.go
@@ -291,7 +291,6 @@ func (x *reader) readSize() (int, error) {
 }
 
 func (x *reader) Reset(r io.Reader) {
-	x.Reader.Reset(r)
 	*x = reader{
 		Reader:       bufio.NewReader(r),
 		lastFieldIDs: x.lastFieldIDs[:0],
@@ -538,7 +537,12 @@ func (x *writer) Flush() error {
 }
 
 func (x *writer) Reset(uw io.Writer) {
-	x.Writer.Reset(uw)
+	// Do not reset a bufio.Writer that belongs to the caller.
+	if _, ok := uw.(*bufio.Writer); ok || io.Writer(x.Writer) == x.uw {
+		x.Writer = bufio.NewWriter(uw)
+	} else {
+		x.Writer.Reset(uw)
+	}
 	*x = writer{
 		Writer:       x.Writer,
 		uw:           uw,
-- 
2.43.0


From 4d5ef5b7da5a6db1a9745998568c7ca7b42c3cd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:25 +0000
Subject: [PATCH 16/21] fix: thriftmemo: append to the buffer in ReadBytes,
 copy in WriteBytes

---
 internal/thriftmemo/memogen.go | 5 +++++
 internal/thriftmemo/zmemo.go   | 3 ++-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/internal/thriftmemo/memogen.go b/internal/thriftmemo/memogen.go
index 0c27b2f..9d46207 100644
--- a/internal/thriftmemo/memogen.go
+++ b/internal/thriftmemo/memogen.go
@@ -105,6 +105,9 @@ func (g *generator) generateReader() {
 					g.printf(", &o%d", i)
 				}
 				g.printf(")\n")
+				if step == "Bytes" {
+					g.printf("o0 = append(i0, o0...)\n")
+				}
 			}
 			g.printf("return\n")
 		} else if step, ok := strings.CutPrefix(m.Name, "Skip"); ok {
@@ -140,6 +143,8 @@ func (g *generator) generateWriter() {
 				g.printf("m.memo().write(%q)\n", step)
 			} else if step == "UUID" {
 				g.printf("m.memo().write(%q, *i0)\n", step)
+			} else if step == "Bytes" {
+				g.printf("m.memo().write(%q, append([]byte(nil), i0...))\n", step)
 			} else {
 				g.printf("m.memo().write(%q", step)
 				for i, j := 0, m.Type.NumIn(); i < j; i++ {
diff --git a/internal/thriftmemo/zmemo.go b/internal/thriftmemo/zmemo.go
index d044ed3..08f06b9 100644
--- a/internal/thriftmemo/zmemo.go
+++ b/internal/thriftmemo/zmemo.go
@@ -29,6 +29,7 @@ func (m *memoReader) ReadBytes(i0 []byte) (o0 []byte, o1 error) {
 		return
 	}
 	m.memo().read("Bytes", &o0)
+	o0 = append(i0, o0...)
 	return
 }
 
@@ -226,7 +227,7 @@ func (m *memoWriter) WriteBytes(i0 []byte) (o0 error) {
 	if o0 = m.advance(); o0 != nil {
 		return
 	}
-	m.memo().write("Bytes", i0)
+	m.memo().write("Bytes", append([]byte(nil), i0...))
 	return
 }
 
-- 
2.43.0


From a66eef85aac8bd4bcc31f5b4a2e1275013ffa75b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:26 +0000
Subject: [PATCH 17/21] fix: thriftmemo: reject reads after the last recorded
 step

---
 internal/thriftmemo/memo.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/thriftmemo/memo.go b/internal/thriftmemo/memo.go
index ad6025a..2e5c80a 100644
--- a/internal/thriftmemo/memo.go
+++ b/internal/thriftmemo/memo.go
@@ -53,6 +53,9 @@ func (m *Memo) Writer() thriftwire.Writer {
 func (m *Memo) read(step string, values ...any) {
 	m.steps = append(m.steps, step)
 	r := m.r - 1
+	if r >= len(m.values) {
+		panic("invalid step: " + step + ", want no more steps")
+	}
 	if want := m.steps[r]; step != want {
 		panic("invalid step: " + step + ", want " + want)
 	}
-- 
2.43.0


From 3ca481bdff81a08a14012b0e2d0593dd9e9becac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:20 +0000
Subject: [PATCH 18/21] fix: thriftfile: scan doubles without integer part

---
 tools/thriftfile/scanner.go | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/tools/thriftfile/scanner.go b/tools/thriftfile/scanner.go
index 0fe3d05..b2bf1fb 100644
--- a/tools/thriftfile/scanner.go
+++ b/tools/thriftfile/scanner.go
@@ -113,7 +113,7 @@ redo:
 
 	case '+':
 		s.nextch()
-		if isDecimal(s.ch) {
+		if s.atNumber() {
 			s.number(false)
 		} else {
 			s.tok = _ADD
@@ -121,7 +121,7 @@ redo:
 
 	case '-':
 		s.nextch()
-		if isDecimal(s.ch) {
+		if s.atNumber() {
 			s.number(false)
 		} else {
 			s.tok = _SUB
@@ -203,8 +203,12 @@ redo:
 		s.tok = _COMMA
 
 	case '.':
-		s.nextch()
-		s.tok = _PERIOD
+		if s.atNumber() {
+			s.number(false)
+		} else {
+			s.nextch()
+			s.tok = _PERIOD
+		}
 
 	case ')':
 		s.nextch()
@@ -269,6 +273,11 @@ func (s *scanner) atIdent(first bool) bool {
 	return true
 }
 
+// atNumber reports whether an unsigned number starts here.
+func (s *scanner) atNumber() bool {
+	return isDecimal(s.ch) || s.ch == '.' && s.rdOffset < len(s.src) && isDecimal(rune(s.src[s.rdOffset]))
+}
+
 func (s *scanner) number(seenPoint bool) {
 	tok := _INT
 
-- 
2.43.0


From 566c780157fe379d90183f13fa9f0f56aa7f6354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:20 +0000
Subject: [PATCH 19/21] fix: thriftfile: accept both quotes escaped in either
 kind of literal

---
 tools/thriftfile/scanner.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tools/thriftfile/scanner.go b/tools/thriftfile/scanner.go
index b2bf1fb..aefb6a6 100644
--- a/tools/thriftfile/scanner.go
+++ b/tools/thriftfile/scanner.go
@@ -335,7 +335,7 @@ func (s *scanner) string() {
 		}
 		if s.ch == '\\' {
 			s.nextch()
-			if !s.escape(quote) {
+			if !s.escape() {
 				return
 			}
 			continue
@@ -353,9 +353,9 @@ func (s *scanner) string() {
 	s.tok = _STRING
 }
 
-func (s *scanner) escape(quote rune) bool {
+func (s *scanner) escape() bool {
 	switch s.ch {
-	case quote, '\\', 'n', 'r', 't':
+	case '"', '\'', '\\', 'n', 'r', 't':
 		s.nextch()
 		return true
 	default:
-- 
2.43.0


From 24267ff2adfee5a3d0433c911cf9edab34d1e75e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:20 +0000
Subject: [PATCH 20/21] fix: thriftfile: report hexadecimal literals and
 exponents without digits

---
 tools/thriftfile/scanner.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/tools/thriftfile/scanner.go b/tools/thriftfile/scanner.go
index aefb6a6..e9b0c8e 100644
--- a/tools/thriftfile/scanner.go
+++ b/tools/thriftfile/scanner.go
@@ -287,6 +287,9 @@ func (s *scanner) number(seenPoint bool) {
 			switch lower(s.ch) {
 			case 'x':
 				s.nextch()
+				if !isHex(s.ch) {
+					s.error(s.offset, "hexadecimal literal has no digits")
+				}
 				for isHex(s.ch) {
 					s.nextch()
 				}
@@ -316,6 +319,9 @@ func (s *scanner) number(seenPoint bool) {
 		if s.ch == '+' || s.ch == '-' {
 			s.nextch()
 		}
+		if !isDecimal(s.ch) {
+			s.error(s.offset, "exponent has no digits")
+		}
 		for isDecimal(s.ch) {
 			s.nextch()
 		}
-- 
2.43.0


From 407a82dea7825bf8de2588f3c672eed654e3c9ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:18:50 +0000
Subject: [PATCH 21/21] fix: thriftfile: do not count a level that exceeds the
 nesting depth

---
 tools/thriftfile/parser.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tools/thriftfile/parser.go b/tools/thriftfile/parser.go
index 5a423a9..f72adae 100644
--- a/tools/thriftfile/parser.go
+++ b/tools/thriftfile/parser.go
@@ -85,10 +85,11 @@ type parser struct {
 const maxDepth = 10000
 
 func (p *parser) enter() {
-	if p.depth++; p.depth > maxDepth {
+	if p.depth == maxDepth {
 		p.error(p.pos, "exceeded max nesting depth")
 		panic(badDef{})
 	}
+	p.depth++
 }
 
 func (p *parser) leave() { p.depth-- }
-- 
2.43.0

