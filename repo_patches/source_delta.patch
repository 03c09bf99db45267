From 493a406661690778c539a13bfd234f2d88c756f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:51 +0000
Subject: [PATCH 01/94] fix: read JSON numbers beyond the int64 range as
 floats, which is how the writer emits large floats

---
 dsio/json.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/dsio/json.go b/dsio/json.go
index e31f1d6..3832d95 100644
--- a/dsio/json.go
+++ b/dsio/json.go
@@ -5,6 +5,7 @@ import (
 	"bytes"
 	"encoding/hex"
 	"encoding/json"
+	"errors"
 	"fmt"
 	"io"
 	"strconv"
@@ -402,11 +403,16 @@ func (r *JSONReader) readNumber() (interface{}, error) {
 		if isFloat {
 			return strconv.ParseFloat(r.extractFromBuffer(buff, i), 64)
 		}
-		num, err := strconv.Atoi(r.extractFromBuffer(buff, i))
+		text := r.extractFromBuffer(buff, i)
+		num, err := strconv.ParseInt(text, 10, 64)
+		if errors.Is(err, strconv.ErrRange) {
+			// Too large for an integer, which the writer produces for big floats.
+			return strconv.ParseFloat(text, 64)
+		}
 		if err != nil {
 			return nil, err
 		}
-		return int64(num), nil
+		return num, nil
 	}
 	return 0, fmt.Errorf("Expected: number")
 }
-- 
2.43.0


From 328504b0998b822e802a483c987da9db99c2be35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:08 +0000
Subject: [PATCH 02/94] fix: decode surrogate pairs in JSON unicode escapes and
 stop at the end of the string in cut escape sequences

---
 dsio/json.go | 47 ++++++++++++++++++++++++++++++++---------------
 1 file changed, 32 insertions(+), 15 deletions(-)

diff --git a/dsio/json.go b/dsio/json.go
index 3832d95..3647782 100644
--- a/dsio/json.go
+++ b/dsio/json.go
@@ -9,6 +9,8 @@ import (
 	"fmt"
 	"io"
 	"strconv"
+	"unicode/utf16"
+	"unicode/utf8"
 
 	"github.com/qri-io/dataset"
 )
@@ -265,6 +267,19 @@ func (r *JSONReader) extractBytesFromBuffer(buffer []byte, i int) []byte {
 	return d
 }
 
+// parseUnicodeEscape gives the code unit of the \uXXXX escape sequence at the start of
+// buff, or -1 if there is none
+func parseUnicodeEscape(buff []byte) rune {
+	if len(buff) < 6 || buff[0] != '\\' || buff[1] != 'u' {
+		return -1
+	}
+	code, err := strconv.ParseUint(string(buff[2:6]), 16, 32)
+	if err != nil {
+		return -1
+	}
+	return rune(code)
+}
+
 // unquoteJSONString removes quotes from the string, and converts json
 // escape sequences into the corresponding runes
 func unquoteJSONString(srcBuff []byte) string {
@@ -303,29 +318,31 @@ func unquoteJSONString(srcBuff []byte) string {
 				// Technically this is out of spec, but we handle it
 				// because some apps incorrectly output json with
 				// \xAA character sequences
-				hexChars := srcBuff[s+1 : s+3]
-				s += 3
-				bs, err := hex.DecodeString(string(hexChars))
-				if err == nil {
-					dstBuff[d] = bs[0]
-				} else {
-					dstBuff[d] = '?'
+				dstBuff[d] = '?'
+				if s+3 <= limit {
+					if bs, err := hex.DecodeString(string(srcBuff[s+1 : s+3])); err == nil {
+						dstBuff[d] = bs[0]
+					}
 				}
+				s += 3
 				d++
 				continue
 			} else if ch == 'u' {
-				// A unicode code-point escape sequence
-				hexChars := srcBuff[s+1 : s+5]
+				// A unicode code-point escape sequence, code points outside the basic
+				// multilingual plane are written as a pair of surrogates
+				r := parseUnicodeEscape(srcBuff[s-1 : limit])
 				s += 5
-				res, err := strconv.Unquote(fmt.Sprintf("'\\u%s'", hexChars))
-				if err == nil {
-					for _, b := range []byte(res) {
-						dstBuff[d] = b
-						d++
+				if utf16.IsSurrogate(r) && s < limit {
+					if pair := utf16.DecodeRune(r, parseUnicodeEscape(srcBuff[s:limit])); pair != utf8.RuneError {
+						r = pair
+						s += 6
 					}
-				} else {
+				}
+				if r < 0 || utf16.IsSurrogate(r) {
 					dstBuff[d] = '?'
 					d++
+				} else {
+					d += utf8.EncodeRune(dstBuff[d:], r)
 				}
 				continue
 			} else {
-- 
2.43.0


From e17c57799463fe13b39042e88e44d65860809f17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:28 +0000
Subject: [PATCH 03/94] fix: no index out of range in JSON strings when a
 backslash ends the buffered data

---
 dsio/json.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/dsio/json.go b/dsio/json.go
index 3647782..fd372d3 100644
--- a/dsio/json.go
+++ b/dsio/json.go
@@ -370,11 +370,13 @@ func (r *JSONReader) readString() (string, error) {
 	}
 
 	for {
-		if i >= len(buff) {
+		// An escape sequence may have moved past the end of the buffer by more
+		// than a single extension provides.
+		for i >= len(buff) {
 			var more bool
 			buff, more = r.extendBuffer(buff)
 			if !more {
-				break
+				return "", fmt.Errorf("Expected: closing '\"' for string")
 			}
 		}
 		if buff[i] == '\\' {
@@ -390,7 +392,6 @@ func (r *JSONReader) readString() (string, error) {
 		}
 		i++
 	}
-	return "", fmt.Errorf("Expected: closing '\"' for string")
 }
 
 func (r *JSONReader) readNumber() (interface{}, error) {
-- 
2.43.0


From a65064d6873d452ab42218a172a11b850dea5f84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:30 +0000
Subject: [PATCH 04/94] fix: report missing and malformed values in JSON bodies
 instead of reading them as null or an empty array

---
 dsio/json.go | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/dsio/json.go b/dsio/json.go
index fd372d3..f1f3e07 100644
--- a/dsio/json.go
+++ b/dsio/json.go
@@ -117,11 +117,14 @@ func (r *JSONReader) ReadEntry() (Entry, error) {
 			return ent, err
 		}
 	} else {
-		val, err := r.readValue()
 		ent.Index = r.entriesRead
-		ent.Value = val
-		if err != nil {
-			return ent, err
+		// Tolerate a trailing separator, which reads as a null entry.
+		if r.peekNextChar() != ']' {
+			val, err := r.readValue()
+			ent.Value = val
+			if err != nil {
+				return ent, err
+			}
 		}
 	}
 	r.entriesRead++
@@ -202,7 +205,10 @@ func (r *JSONReader) readValue() (interface{}, error) {
 		return r.readObject()
 	case '[':
 		return r.readArray()
+	case ',', ']', '}':
+		return nil, fmt.Errorf("Expected: value")
 	default:
+		// Not a value, reported as missing the token that has to follow one.
 		return nil, nil
 	}
 }
@@ -476,7 +482,7 @@ func (r *JSONReader) readArray() ([]interface{}, error) {
 	// Read first element.
 	val, err := r.readValue()
 	if err != nil {
-		return array, nil
+		return array, err
 	}
 	array = append(array, val)
 	// Read the rest of the elements.
-- 
2.43.0


From c4e68becff455d7e968b5cf4fb7b0b1a5d61e09a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:02 +0000
Subject: [PATCH 05/94] fix: read CBOR negative integers below -24 and refuse
 integers that do not fit an int64

---
 dsio/cbor.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/dsio/cbor.go b/dsio/cbor.go
index b5d918a..05e68ad 100644
--- a/dsio/cbor.go
+++ b/dsio/cbor.go
@@ -203,8 +203,9 @@ func (r *CBORReader) readValue() (interface{}, error) {
 
 	if b < 0x1c {
 		return r.getVarLenInt(b)
-	} else if b >= 0x20 && b < 0x38 {
-		return -int64(b - 0x1f), nil
+	} else if b >= 0x20 && b < 0x3c {
+		num, err := r.getVarLenInt(b)
+		return -1 - num, err
 	}
 
 	switch b {
@@ -413,7 +414,11 @@ func (r *CBORReader) readIntBytes(num int) (int64, error) {
 	if num < 8 {
 		data = bytes.Join([][]byte{bytes.Repeat([]byte{0}, 8-len(data)), data}, []byte{})
 	}
-	return int64(binary.BigEndian.Uint64(data)), nil
+	u := binary.BigEndian.Uint64(data)
+	if u > math.MaxInt64 {
+		return 0, fmt.Errorf("integer out of range: %d", u)
+	}
+	return int64(u), nil
 }
 
 // readFloatBytes returns a float by reading num bytes from the input stream
-- 
2.43.0


From 0756537c9cf0b5672f87585ae7c7b589d23549fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:06 +0000
Subject: [PATCH 06/94] fix: read CBOR half and single precision floats

---
 dsio/cbor.go | 31 ++++++++++++++++++++++++++++---
 1 file changed, 28 insertions(+), 3 deletions(-)

diff --git a/dsio/cbor.go b/dsio/cbor.go
index 05e68ad..5dc5f24 100644
--- a/dsio/cbor.go
+++ b/dsio/cbor.go
@@ -427,10 +427,35 @@ func (r *CBORReader) readFloatBytes(num int) (float64, error) {
 	if err != nil {
 		return 0.0, err
 	}
-	if num < 8 {
-		data = bytes.Join([][]byte{bytes.Repeat([]byte{0}, 8-len(data)), data}, []byte{})
+	switch num {
+	case 2:
+		return float16ToFloat64(binary.BigEndian.Uint16(data)), nil
+	case 4:
+		return float64(math.Float32frombits(binary.BigEndian.Uint32(data))), nil
+	default:
+		return math.Float64frombits(binary.BigEndian.Uint64(data)), nil
+	}
+}
+
+// float16ToFloat64 converts an IEEE 754 half-precision float
+func float16ToFloat64(bits uint16) float64 {
+	exp, mant := int(bits>>10&0x1f), float64(bits&0x3ff)
+	var f float64
+	switch exp {
+	case 0:
+		f = math.Ldexp(mant, -24)
+	case 0x1f:
+		f = math.Inf(1)
+		if mant != 0 {
+			f = math.NaN()
+		}
+	default:
+		f = math.Ldexp(mant+1024, exp-25)
+	}
+	if bits&0x8000 != 0 {
+		f = -f
 	}
-	return math.Float64frombits(binary.BigEndian.Uint64(data)), nil
+	return f
 }
 
 // readBytes reads a number of bytes from the input stream
-- 
2.43.0


From fddf9f363a12cc72fe1bc7d1d4ab3b7fc95dd610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:09 +0000
Subject: [PATCH 07/94] fix: read CBOR strings longer than the read buffer, and
 give each byte string its own memory

---
 dsio/cbor.go | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/dsio/cbor.go b/dsio/cbor.go
index 5dc5f24..113e1e5 100644
--- a/dsio/cbor.go
+++ b/dsio/cbor.go
@@ -460,15 +460,16 @@ func float16ToFloat64(bits uint16) float64 {
 
 // readBytes reads a number of bytes from the input stream
 func (r *CBORReader) readBytes(num int) ([]byte, error) {
-	buff, err := r.rdr.Peek(num)
-	if err != nil {
-		return nil, err
+	size := num
+	if size < 0 || size > blockSize {
+		// Don't trust big lengths before the data has been seen.
+		size = blockSize
 	}
-	_, err = r.rdr.Discard(num)
-	if err != nil {
+	buff := bytes.NewBuffer(make([]byte, 0, size))
+	if _, err := io.CopyN(buff, r.rdr, int64(num)); err != nil {
 		return nil, err
 	}
-	return buff, nil
+	return buff.Bytes(), nil
 }
 
 // CBORWriter implements the RowWriter interface for
-- 
2.43.0


From ee932249ff592b7e867807396a93a2e382dfa7f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:35 +0000
Subject: [PATCH 08/94] fix: do not allocate CBOR arrays from a declared length
 alone

---
 dsio/cbor.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsio/cbor.go b/dsio/cbor.go
index 113e1e5..f21ac3f 100644
--- a/dsio/cbor.go
+++ b/dsio/cbor.go
@@ -343,7 +343,7 @@ func (r *CBORReader) readLengthPrefixedBytes(b byte) ([]byte, error) {
 // readArray reads an array of the given length
 func (r *CBORReader) readArray(length int) ([]interface{}, error) {
 	var array []interface{}
-	if length > 0 {
+	if length > 0 && length <= blockSize {
 		array = make([]interface{}, 0, length)
 	} else {
 		array = make([]interface{}, 0)
-- 
2.43.0


From e241894caa224bc2b9f71ec0db056eb68bb48203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:53 +0000
Subject: [PATCH 09/94] fix: report CBOR bodies that end before their top-level
 container does

---
 dsio/cbor.go | 28 ++++++++++++++++++++++++----
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/dsio/cbor.go b/dsio/cbor.go
index f21ac3f..139a8be 100644
--- a/dsio/cbor.go
+++ b/dsio/cbor.go
@@ -20,6 +20,7 @@ type CBORReader struct {
 	st       *dataset.Structure
 	topLevel byte
 	length   int
+	done     bool // the end of the top-level container has been reached
 }
 
 var _ EntryReader = (*CBORReader)(nil)
@@ -68,6 +69,16 @@ func (r *CBORReader) Structure() *dataset.Structure {
 
 // ReadEntry reads one CBOR record from the reader
 func (r *CBORReader) ReadEntry() (ent Entry, err error) {
+	if r.done {
+		return ent, io.EOF
+	}
+	defer func() {
+		// The data may only end where an entry would begin.
+		if err == io.EOF && !r.done {
+			err = io.ErrUnexpectedEOF
+		}
+	}()
+
 	if r.rowsRead == 0 {
 		top, length, err := r.readTopLevel()
 		if err != nil {
@@ -76,13 +87,22 @@ func (r *CBORReader) ReadEntry() (ent Entry, err error) {
 		if top != r.topLevel {
 			return ent, fmt.Errorf("Top-level type did not match")
 		}
-		// TODO(dustmop): Length is not used right now, except for handling indefinite length
-		// streams. In the future, it should be used to check that max(r.rowsRead) == r.length
+		// TODO(dustmop): Length is only used for handling indefinite length streams and for
+		// detecting missing entries. In the future, it should be used to check that
+		// max(r.rowsRead) == r.length
 		r.length = length
 	}
 
-	if r.length == indefiniteLength && r.readIndefiniteSequenceBreak() {
-		return ent, io.EOF
+	if r.length == indefiniteLength {
+		if r.readIndefiniteSequenceBreak() {
+			r.done = true
+			return ent, io.EOF
+		}
+	} else if r.rowsRead >= r.length {
+		if _, err := r.rdr.Peek(1); err == io.EOF {
+			r.done = true
+			return ent, io.EOF
+		}
 	}
 
 	if r.topLevel == cborBaseMap {
-- 
2.43.0


From cacca1e2e50a151071aa430dc434f468a53e4ca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:01 +0000
Subject: [PATCH 10/94] fix: read CBOR map keys of indefinite length

---
 dsio/cbor.go | 58 ++++++++++++++++++++++++----------------------------
 1 file changed, 27 insertions(+), 31 deletions(-)

diff --git a/dsio/cbor.go b/dsio/cbor.go
index 139a8be..42089be 100644
--- a/dsio/cbor.go
+++ b/dsio/cbor.go
@@ -201,6 +201,11 @@ func (r *CBORReader) readStringKey() (string, error) {
 		return "", fmt.Errorf("expected string for key")
 	}
 
+	if b == cborBdIndefiniteString {
+		buff, err := r.readChunks()
+		return string(buff), err
+	}
+
 	length, err := r.getVarLenInt(b)
 	if err != nil {
 		return "", err
@@ -242,39 +247,13 @@ func (r *CBORReader) readValue() (interface{}, error) {
 	case cborBdFloat64:
 		return r.readFloatBytes(8)
 	case cborBdIndefiniteBytes:
-		concat := bytes.Buffer{}
-		for {
-			if r.readIndefiniteSequenceBreak() {
-				break
-			}
-			b, err := r.rdr.ReadByte()
-			if err != nil {
-				return nil, err
-			}
-			buff, err := r.readLengthPrefixedBytes(b)
-			if err != nil {
-				return nil, err
-			}
-			concat.Write(buff)
-		}
-		return concat.Bytes(), nil
+		return r.readChunks()
 	case cborBdIndefiniteString:
-		concat := bytes.Buffer{}
-		for {
-			if r.readIndefiniteSequenceBreak() {
-				break
-			}
-			b, err := r.rdr.ReadByte()
-			if err != nil {
-				return nil, err
-			}
-			buff, err := r.readLengthPrefixedBytes(b)
-			if err != nil {
-				return nil, err
-			}
-			concat.Write(buff)
+		buff, err := r.readChunks()
+		if err != nil {
+			return nil, err
 		}
-		return string(concat.Bytes()), nil
+		return string(buff), nil
 	case cborBdIndefiniteArray:
 		array, err := r.readArray(indefiniteLength)
 		if err != nil {
@@ -347,6 +326,23 @@ func (r *CBORReader) readIndefiniteSequenceBreak() bool {
 	return false
 }
 
+// readChunks reads the chunks of a string of indefinite length, up to its break
+func (r *CBORReader) readChunks() ([]byte, error) {
+	concat := bytes.Buffer{}
+	for !r.readIndefiniteSequenceBreak() {
+		b, err := r.rdr.ReadByte()
+		if err != nil {
+			return nil, err
+		}
+		buff, err := r.readLengthPrefixedBytes(b)
+		if err != nil {
+			return nil, err
+		}
+		concat.Write(buff)
+	}
+	return concat.Bytes(), nil
+}
+
 // readLengthPrefixedBytes returns a number of bytes prefixed by the number of bytes to read
 func (r *CBORReader) readLengthPrefixedBytes(b byte) ([]byte, error) {
 	length, err := r.getVarLenInt(b)
-- 
2.43.0


From f36798bef8f157ed6a026405ae39da4320a4edc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:42 +0000
Subject: [PATCH 11/94] fix: read the last line of an NDJSON body that does not
 end in a newline

---
 dsio/ndjson.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dsio/ndjson.go b/dsio/ndjson.go
index 90252e1..f6ceb66 100644
--- a/dsio/ndjson.go
+++ b/dsio/ndjson.go
@@ -57,7 +57,8 @@ func (r *NDJSONReader) Structure() *dataset.Structure {
 // ReadEntry reads one JSON record from the reader
 func (r *NDJSONReader) ReadEntry() (Entry, error) {
 	line, err := r.buf.ReadBytes('\n')
-	if err != nil {
+	if err != nil && (err != io.EOF || len(line) == 0) {
+		// the last line may lack a newline
 		return Entry{}, err
 	}
 
-- 
2.43.0


From ac1f512f7fd5535ea549a6c710341ece688d4d2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:26 +0000
Subject: [PATCH 12/94] fix: keep the exact value of large integers in NDJSON
 bodies

---
 dsio/ndjson.go | 44 ++++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 42 insertions(+), 2 deletions(-)

diff --git a/dsio/ndjson.go b/dsio/ndjson.go
index f6ceb66..8aba530 100644
--- a/dsio/ndjson.go
+++ b/dsio/ndjson.go
@@ -2,6 +2,7 @@ package dsio
 
 import (
 	"bufio"
+	"bytes"
 	"encoding/json"
 	"fmt"
 	"io"
@@ -62,8 +63,8 @@ func (r *NDJSONReader) ReadEntry() (Entry, error) {
 		return Entry{}, err
 	}
 
-	var v interface{}
-	if err := json.Unmarshal(line, &v); err != nil {
+	v, err := decodeJSONLine(line)
+	if err != nil {
 		return Entry{}, err
 	}
 
@@ -76,6 +77,45 @@ func (r *NDJSONReader) ReadEntry() (Entry, error) {
 	return ent, nil
 }
 
+// decodeJSONLine decodes a single JSON value, with integers as int64
+func decodeJSONLine(line []byte) (v interface{}, err error) {
+	// check the whole line first, a decoder accepts data after the value
+	if err = json.Unmarshal(line, &json.RawMessage{}); err != nil {
+		return nil, err
+	}
+	dec := json.NewDecoder(bytes.NewReader(line))
+	dec.UseNumber()
+	if err = dec.Decode(&v); err != nil {
+		return nil, err
+	}
+	return convertJSONNumbers(v)
+}
+
+// convertJSONNumbers replaces json.Number values with int64 or float64 values
+func convertJSONNumbers(v interface{}) (interface{}, error) {
+	var err error
+	switch x := v.(type) {
+	case json.Number:
+		if i, err := x.Int64(); err == nil {
+			return i, nil
+		}
+		return x.Float64()
+	case []interface{}:
+		for i, el := range x {
+			if x[i], err = convertJSONNumbers(el); err != nil {
+				return nil, err
+			}
+		}
+	case map[string]interface{}:
+		for key, el := range x {
+			if x[key], err = convertJSONNumbers(el); err != nil {
+				return nil, err
+			}
+		}
+	}
+	return v, nil
+}
+
 // Close finalizes the reader
 func (r *NDJSONReader) Close() error {
 	if r.close != nil {
-- 
2.43.0


From 81ea98bc703b302d806a0fdf477beebc4b79d256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:47 +0000
Subject: [PATCH 13/94] fix: keep rows of a single empty cell when writing CSV

---
 dsio/csv.go | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/dsio/csv.go b/dsio/csv.go
index 9573504..d216600 100644
--- a/dsio/csv.go
+++ b/dsio/csv.go
@@ -177,6 +177,7 @@ func HasHeaderRow(st *dataset.Structure) bool {
 type CSVWriter struct {
 	rowsWritten int
 	w           *csv.Writer
+	wr          io.Writer // destination of the csv writer
 	st          *dataset.Structure
 	close       func() error
 
@@ -214,13 +215,14 @@ func NewCSVWriter(st *dataset.Structure, w io.Writer) (*CSVWriter, error) {
 	wr := &CSVWriter{
 		st:    st,
 		w:     writer,
+		wr:    cw,
 		types: types,
 		close: close,
 	}
 
 	if opts != nil {
 		if opts.HeaderRow {
-			writer.Write(cols.Titles())
+			wr.writeRow(cols.Titles())
 		}
 	}
 
@@ -240,11 +242,25 @@ func (w *CSVWriter) WriteEntry(ent Entry) error {
 			log.Debug(err.Error())
 			return fmt.Errorf("error encoding entry: %s", err.Error())
 		}
-		return w.w.Write(strs)
+		return w.writeRow(strs)
 	}
 	return fmt.Errorf("expected array value to write csv row. got: %v", ent)
 }
 
+// writeRow writes one record. The csv package writes a single empty field as a blank
+// line, which it skips when reading, so that field is quoted here
+func (w *CSVWriter) writeRow(row []string) error {
+	if len(row) != 1 || row[0] != "" {
+		return w.w.Write(row)
+	}
+	w.w.Flush()
+	if err := w.w.Error(); err != nil {
+		return err
+	}
+	_, err := io.WriteString(w.wr, "\"\"\n")
+	return err
+}
+
 // encode uses specified types from structure's schema to go values to strings
 func encode(vs []interface{}) ([]string, error) {
 	strings := make([]string, len(vs))
-- 
2.43.0


From 37f58268cb2df62b22190e05994dd712db7dbfd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:50 +0000
Subject: [PATCH 14/94] fix: report failures of writing the CSV header row and
 of the final flush

---
 dsio/csv.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/dsio/csv.go b/dsio/csv.go
index d216600..7aaa5ba 100644
--- a/dsio/csv.go
+++ b/dsio/csv.go
@@ -222,7 +222,9 @@ func NewCSVWriter(st *dataset.Structure, w io.Writer) (*CSVWriter, error) {
 
 	if opts != nil {
 		if opts.HeaderRow {
-			wr.writeRow(cols.Titles())
+			if err := wr.writeRow(cols.Titles()); err != nil {
+				return nil, fmt.Errorf("error writing header row: %w", err)
+			}
 		}
 	}
 
@@ -302,6 +304,9 @@ func encode(vs []interface{}) ([]string, error) {
 // will be written
 func (w *CSVWriter) Close() error {
 	w.w.Flush()
+	if err := w.w.Error(); err != nil {
+		return err
+	}
 	if w.close != nil {
 		return w.close()
 	}
-- 
2.43.0


From f1acbfd35ee8ad973cc54893bcc21df2c7c0db78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:53 +0000
Subject: [PATCH 15/94] fix: refuse values CSV cannot represent instead of
 writing an empty cell

---
 dsio/csv.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/dsio/csv.go b/dsio/csv.go
index 7aaa5ba..7ee8622 100644
--- a/dsio/csv.go
+++ b/dsio/csv.go
@@ -279,13 +279,17 @@ func encode(vs []interface{}) ([]string, error) {
 		case float64:
 			strings[i] = strconv.FormatFloat(t, 'f', -1, 64)
 		case []interface{}:
-			if data, err := json.Marshal(t); err == nil {
-				strings[i] = string(data)
+			data, err := json.Marshal(t)
+			if err != nil {
+				return nil, err
 			}
+			strings[i] = string(data)
 		case map[string]interface{}:
-			if data, err := json.Marshal(t); err == nil {
-				strings[i] = string(data)
+			data, err := json.Marshal(t)
+			if err != nil {
+				return nil, err
 			}
+			strings[i] = string(data)
 		case bool:
 			if t {
 				strings[i] = "true"
@@ -294,6 +298,8 @@ func encode(vs []interface{}) ([]string, error) {
 			}
 		case nil:
 			strings[i] = ""
+		default:
+			return nil, fmt.Errorf("cannot encode type %T as a csv value", v)
 		}
 	}
 
-- 
2.43.0


From 82bb18269ef42be23721e52006b5b96389e2d17e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:40 +0000
Subject: [PATCH 16/94] fix: insert the line feed after a lone carriage return
 that ends the caller's buffer

---
 dsio/replacecr/replace_cr.go | 29 +++++++++++++++++++++--------
 1 file changed, 21 insertions(+), 8 deletions(-)

diff --git a/dsio/replacecr/replace_cr.go b/dsio/replacecr/replace_cr.go
index b7b301c..9b9ae1b 100644
--- a/dsio/replacecr/replace_cr.go
+++ b/dsio/replacecr/replace_cr.go
@@ -17,14 +17,14 @@ import (
 // if read from directly. This can cause issues with checksums and byte counts.
 // Use with caution.
 func Reader(data io.Reader) io.Reader {
-	return crlfReplaceReader{
+	return &crlfReplaceReader{
 		rdr: bufio.NewReader(data),
 	}
 }
 
 // ReaderWithSize instaties a reader with a given buffer size
 func ReaderWithSize(data io.Reader, size int) io.Reader {
-	return crlfReplaceReader{
+	return &crlfReplaceReader{
 		rdr: bufio.NewReaderSize(data, size),
 	}
 }
@@ -32,15 +32,24 @@ func ReaderWithSize(data io.Reader, size int) io.Reader {
 // crlfReplaceReader wraps a reader
 type crlfReplaceReader struct {
 	rdr *bufio.Reader
+	// lf is set when a line feed still has to follow a carriage return that took the
+	// last byte of the previous Read
+	lf bool
 }
 
 // Read implements io.Reader for crlfReplaceReader
-func (c crlfReplaceReader) Read(p []byte) (n int, err error) {
+func (c *crlfReplaceReader) Read(p []byte) (n int, err error) {
 	lenP := len(p)
 	if lenP == 0 {
 		return
 	}
 
+	if c.lf {
+		c.lf = false
+		p[n] = '\n'
+		n++
+	}
+
 	for {
 		if n == lenP {
 			return
@@ -51,12 +60,16 @@ func (c crlfReplaceReader) Read(p []byte) (n int, err error) {
 			return
 		}
 
-		// any time we encounter \r & still have space, check to see if \n follows
-		// ff next char is not \n, add it in manually
-		if p[n] == '\r' && n < lenP-1 {
+		// any time we encounter \r check to see if \n follows
+		// if next char is not \n, add it in manually
+		if p[n] == '\r' {
 			if pk, err := c.rdr.Peek(1); (err == nil && pk[0] != '\n') || (err != nil && err.Error() == "EOF") {
-				n++
-				p[n] = '\n'
+				if n == lenP-1 {
+					c.lf = true
+				} else {
+					n++
+					p[n] = '\n'
+				}
 			}
 		}
 
-- 
2.43.0


From ad984c4098dd3b06ed3aa32b966896b69a306c8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:44 +0000
Subject: [PATCH 17/94] fix: name spreadsheet columns from 17576 on correctly
 and distinctly

---
 dsio/xlsx.go | 71 +++-------------------------------------------------
 1 file changed, 3 insertions(+), 68 deletions(-)

diff --git a/dsio/xlsx.go b/dsio/xlsx.go
index b0a2117..6d01262 100644
--- a/dsio/xlsx.go
+++ b/dsio/xlsx.go
@@ -266,75 +266,10 @@ func encodeStrings(vs []interface{}) (strs []string, err error) {
 // ColIndexToLetters is used to convert a zero based, numeric column
 // indentifier into a character code.
 func ColIndexToLetters(colRef int) string {
-	parts := intToBase26(colRef)
-	return formatColumnName(smooshBase26Slice(parts))
-}
-
-// largestLesserExponent returns the largest exponent of base that does not exceed num
-// equivalent to pow(floor(log(num, base)), base)
-func largestLesserExponent(num, base int) int {
-	prev := 1
-	exp := base
-	for num >= exp {
-		prev = exp
-		exp = exp * base
-	}
-	return prev
-}
-
-// Converts a list of numbers representing a column into a alphabetic
-// representation, as used in the spreadsheet.
-func formatColumnName(colID []int) string {
-	lastPart := len(colID) - 1
-
 	result := ""
-	for n, part := range colID {
-		if n == lastPart {
-			// The least significant number is in the
-			// range 0-25, all other numbers are 1-26,
-			// hence we use a differente offset for the
-			// last part.
-			result += string(rune(part + 65))
-		} else {
-			// Don't output leading 0s, as there is no
-			// representation of 0 in this format.
-			if part > 0 {
-				result += string(rune(part + 64))
-			}
-		}
+	// column names are bijective base 26: there is no digit for zero
+	for n := colRef + 1; n > 0; n = (n - 1) / 26 {
+		result = string(rune('A'+(n-1)%26)) + result
 	}
 	return result
 }
-
-func smooshBase26Slice(b26 []int) []int {
-	// Smoosh values together, eliminating 0s from all but the
-	// least significant part.
-	lastButOnePart := len(b26) - 2
-	for i := lastButOnePart; i > 0; i-- {
-		part := b26[i]
-		if part == 0 {
-			greaterPart := b26[i-1]
-			if greaterPart > 0 {
-				b26[i-1] = greaterPart - 1
-				b26[i] = 26
-			}
-		}
-	}
-	return b26
-}
-
-func intToBase26(x int) (parts []int) {
-	// Excel column codes are pure evil - in essence they're just
-	// base26, but they don't represent the number 0.
-	b26Denominator := largestLesserExponent(x, 26)
-
-	// This loop terminates because integer division of 1 / 26
-	// returns 0.
-	for d := b26Denominator; d > 0; d = d / 26 {
-		value := x / d
-		remainder := x % d
-		parts = append(parts, value)
-		x = remainder
-	}
-	return parts
-}
-- 
2.43.0


From cc08402d25b1fa580404ca379abf519904d3c41e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:38 +0000
Subject: [PATCH 18/94] fix: refuse cell text XLSX cannot hold instead of
 cutting it or replacing characters

---
 dsio/xlsx.go | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/dsio/xlsx.go b/dsio/xlsx.go
index 6d01262..8e67420 100644
--- a/dsio/xlsx.go
+++ b/dsio/xlsx.go
@@ -5,6 +5,7 @@ import (
 	"fmt"
 	"io"
 	"strconv"
+	"unicode/utf8"
 
 	"github.com/360EntSecGroup-Skylar/excelize"
 	"github.com/qri-io/dataset"
@@ -207,6 +208,11 @@ func (w *XLSXWriter) WriteEntry(ent Entry) error {
 			log.Debug(err.Error())
 			return fmt.Errorf("error encoding entry: %s", err.Error())
 		}
+		for _, str := range strs {
+			if err := checkXLSXCell(str); err != nil {
+				return fmt.Errorf("error encoding entry: %w", err)
+			}
+		}
 		for i, str := range strs {
 			w.f.SetCellValue(w.sheetName, w.axis(i), str)
 		}
@@ -216,6 +222,25 @@ func (w *XLSXWriter) WriteEntry(ent Entry) error {
 	return fmt.Errorf("expected array value to write xlsx row. got: %v", ent)
 }
 
+// maxXLSXCellLen is the number of bytes of text that fit in a cell, anything longer would
+// be cut off
+const maxXLSXCellLen = 32767
+
+// checkXLSXCell returns an error for text that a cell cannot hold
+func checkXLSXCell(str string) error {
+	if len(str) > maxXLSXCellLen {
+		return fmt.Errorf("cell text of %d bytes exceeds the xlsx limit of %d", len(str), maxXLSXCellLen)
+	}
+	for i, r := range str {
+		// characters outside of those XML permits would be replaced
+		if (r < 0x20 && r != '\t' && r != '\n' && r != '\r') || r == 0xFFFE || r == 0xFFFF ||
+			(r == utf8.RuneError && !utf8.ValidString(str[i:])) {
+			return fmt.Errorf("cell text contains a character xlsx cannot represent: %q", r)
+		}
+	}
+	return nil
+}
+
 func (w *XLSXWriter) axis(colIDx int) string {
 	return ColIndexToLetters(colIDx) + strconv.Itoa(w.rowsWritten+1)
 }
-- 
2.43.0


From c1a1119395139b10125839589c847e26f7d5d081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:07:24 +0000
Subject: [PATCH 19/94] fix: no panic on tabular columns with an empty or
 malformed type, which is reported as a problem

---
 tabular/tabular.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/tabular/tabular.go b/tabular/tabular.go
index f25ea4e..c54576d 100644
--- a/tabular/tabular.go
+++ b/tabular/tabular.go
@@ -175,9 +175,9 @@ func arrayWrapperColumns(sch map[string]interface{}) (Columns, []string, error)
 					cols[i].Title = title
 				}
 			case "type":
-				setType = true
 				switch x := val.(type) {
 				case string:
+					setType = true
 					cols[i].Type = &ColType{x}
 				case []interface{}:
 					types := ColType{}
@@ -186,7 +186,11 @@ func arrayWrapperColumns(sch map[string]interface{}) (Columns, []string, error)
 							types = append(types, t)
 						}
 					}
-					cols[i].Type = &types
+					// columns always have at least one type
+					if len(types) > 0 {
+						setType = len(types) == len(x)
+						cols[i].Type = &types
+					}
 				}
 			case "description":
 				if d, ok := val.(string); ok {
@@ -204,7 +208,11 @@ func arrayWrapperColumns(sch map[string]interface{}) (Columns, []string, error)
 			problems = append(problems, fmt.Sprintf("col. %d title is not set", i))
 		}
 		if !setType {
-			problems = append(problems, fmt.Sprintf("col, %d type is not set, defaulting to string", i))
+			if _, present := colSchema["type"]; present {
+				problems = append(problems, fmt.Sprintf("col. %d type should be a string or an array of strings", i))
+			} else {
+				problems = append(problems, fmt.Sprintf("col, %d type is not set, defaulting to string", i))
+			}
 		}
 	}
 
-- 
2.43.0


From b418bdabd0337e719cdd593adffb35bc4dca78aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:07:27 +0000
Subject: [PATCH 20/94] fix: refuse object-based tabular schemas with the
 tabular schema error

---
 tabular/tabular.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tabular/tabular.go b/tabular/tabular.go
index c54576d..125aea3 100644
--- a/tabular/tabular.go
+++ b/tabular/tabular.go
@@ -220,5 +220,6 @@ func arrayWrapperColumns(sch map[string]interface{}) (Columns, []string, error)
 }
 
 func objectWrapperColumns(sch map[string]interface{}) (Columns, []string, error) {
-	return nil, nil, fmt.Errorf("unfinished")
+	msg := "object-based tabular schemas are not supported"
+	return nil, nil, fmt.Errorf("%w: %s", ErrInvalidTabularSchema, msg)
 }
-- 
2.43.0


From 032fa8ee6c72c3ad26991a5b2c32446ff5440723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:08:33 +0000
Subject: [PATCH 21/94] fix: report malformed workbooks as errors instead of
 ending the process or panicking

---
 dsio/xlsx.go | 50 ++++++++++++++++++++++++++++++++++++++++++++++----
 1 file changed, 46 insertions(+), 4 deletions(-)

diff --git a/dsio/xlsx.go b/dsio/xlsx.go
index 8e67420..de1a4cd 100644
--- a/dsio/xlsx.go
+++ b/dsio/xlsx.go
@@ -1,9 +1,12 @@
 package dsio
 
 import (
+	"archive/zip"
+	"bytes"
 	"encoding/json"
 	"fmt"
 	"io"
+	"io/ioutil"
 	"strconv"
 	"unicode/utf8"
 
@@ -45,7 +48,7 @@ func NewXLSXReader(st *dataset.Structure, r io.Reader) (*XLSXReader, error) {
 		types: types,
 	}
 
-	rdr.file, rdr.err = excelize.OpenReader(r)
+	rdr.file, rdr.err = openXLSX(r)
 	if rdr.err != nil {
 		return rdr, rdr.err
 	}
@@ -60,19 +63,58 @@ func NewXLSXReader(st *dataset.Structure, r io.Reader) (*XLSXReader, error) {
 	}
 
 	if rdr.err == nil {
-		rdr.r, rdr.err = rdr.file.Rows(rdr.sheetName)
+		rdr.r, rdr.err = openXLSXRows(rdr.file, rdr.sheetName)
 	}
 
 	return rdr, rdr.err
 }
 
+// openXLSX opens a workbook. The excelize package ends the process if a member of the
+// archive cannot be read, so all of them are read here first
+func openXLSX(r io.Reader) (f *excelize.File, err error) {
+	defer recoverXLSX(&err)
+	data, err := ioutil.ReadAll(r)
+	if err != nil {
+		return nil, err
+	}
+	zr, err := zip.NewReader(bytes.NewReader(data), int64(len(data)))
+	if err != nil {
+		return nil, err
+	}
+	for _, member := range zr.File {
+		rc, err := member.Open()
+		if err != nil {
+			return nil, fmt.Errorf("reading %q: %w", member.Name, err)
+		}
+		_, err = io.Copy(ioutil.Discard, rc)
+		rc.Close()
+		if err != nil {
+			return nil, fmt.Errorf("reading %q: %w", member.Name, err)
+		}
+	}
+	return excelize.OpenReader(bytes.NewReader(data))
+}
+
+func openXLSXRows(f *excelize.File, sheet string) (rows *excelize.Rows, err error) {
+	defer recoverXLSX(&err)
+	return f.Rows(sheet)
+}
+
+// recoverXLSX turns a panic on malformed workbook parts into an error
+func recoverXLSX(err *error) {
+	if p := recover(); p != nil {
+		*err = fmt.Errorf("invalid xlsx data: %v", p)
+	}
+}
+
 // Structure gives this reader's structure
 func (r *XLSXReader) Structure() *dataset.Structure {
 	return r.st
 }
 
 // ReadEntry reads one XLSX record from the reader
-func (r *XLSXReader) ReadEntry() (Entry, error) {
+func (r *XLSXReader) ReadEntry() (ent Entry, err error) {
+	defer recoverXLSX(&err)
 	if r.err != nil {
 		return Entry{}, r.err
 	}
@@ -84,7 +126,7 @@ func (r *XLSXReader) ReadEntry() (Entry, error) {
 	if err != nil {
 		return Entry{}, err
 	}
-	ent := Entry{Index: r.idx, Value: vals}
+	ent = Entry{Index: r.idx, Value: vals}
 	r.idx++
 
 	return ent, nil
-- 
2.43.0


From 97dfc45d38778c5ca0e80dc3eb3dab9bcc23d726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:09:19 +0000
Subject: [PATCH 22/94] fix: limit the nesting depth of JSON and CBOR bodies,
 which could exhaust the stack

---
 dsio/cbor.go | 20 ++++++++++++++++++++
 dsio/json.go | 17 ++++++++++++++---
 2 files changed, 34 insertions(+), 3 deletions(-)

diff --git a/dsio/cbor.go b/dsio/cbor.go
index 42089be..582b748 100644
--- a/dsio/cbor.go
+++ b/dsio/cbor.go
@@ -21,6 +21,7 @@ type CBORReader struct {
 	topLevel byte
 	length   int
 	done     bool // the end of the top-level container has been reached
+	depth    int  // number of containers around the value being read
 }
 
 var _ EntryReader = (*CBORReader)(nil)
@@ -356,8 +357,23 @@ func (r *CBORReader) readLengthPrefixedBytes(b byte) ([]byte, error) {
 	return buff, nil
 }
 
+// enterContainer counts a level of nesting, and refuses too many of them
+func (r *CBORReader) enterContainer() error {
+	if r.depth >= maxDepth {
+		return fmt.Errorf("exceeded maximum nesting depth of %d", maxDepth)
+	}
+	r.depth++
+	return nil
+}
+
+func (r *CBORReader) leaveContainer() { r.depth-- }
+
 // readArray reads an array of the given length
 func (r *CBORReader) readArray(length int) ([]interface{}, error) {
+	if err := r.enterContainer(); err != nil {
+		return nil, err
+	}
+	defer r.leaveContainer()
 	var array []interface{}
 	if length > 0 && length <= blockSize {
 		array = make([]interface{}, 0, length)
@@ -382,6 +398,10 @@ func (r *CBORReader) readArray(length int) ([]interface{}, error) {
 
 // readArray reads a map of the given length
 func (r *CBORReader) readMap(length int) (map[string]interface{}, error) {
+	if err := r.enterContainer(); err != nil {
+		return nil, err
+	}
+	defer r.leaveContainer()
 	assoc := make(map[string]interface{})
 	for {
 		if length == 0 || (length == indefiniteLength && r.readIndefiniteSequenceBreak()) {
diff --git a/dsio/json.go b/dsio/json.go
index f1f3e07..0cd0a7d 100644
--- a/dsio/json.go
+++ b/dsio/json.go
@@ -25,6 +25,7 @@ type JSONReader struct {
 	reader      *bufio.Reader
 	close       func() error // close func from wrapped reader
 	prevSize    int          // when buffer is extended, remember how much of the old buffer to discard
+	depth       int          // number of containers around the value being read
 }
 
 var _ EntryReader = (*JSONReader)(nil)
@@ -69,6 +70,10 @@ func (r *JSONReader) Structure() *dataset.Structure {
 
 const blockSize = 4096
 
+// maxDepth is the number of nested containers readers accept in an entry. Reading is
+// recursive, so unlimited nesting would exhaust the stack
+const maxDepth = 10000
+
 // ReadEntry reads one JSON record from the reader
 func (r *JSONReader) ReadEntry() (Entry, error) {
 	ent := Entry{}
@@ -201,9 +206,15 @@ func (r *JSONReader) readValue() (interface{}, error) {
 		return r.readString()
 	case '-', '0', '1', '2', '3', '4', '5', '6', '7', '8', '9':
 		return r.readNumber()
-	case '{':
-		return r.readObject()
-	case '[':
+	case '{', '[':
+		if r.depth >= maxDepth {
+			return nil, fmt.Errorf("exceeded maximum nesting depth of %d", maxDepth)
+		}
+		r.depth++
+		defer func() { r.depth-- }()
+		if b == '{' {
+			return r.readObject()
+		}
 		return r.readArray()
 	case ',', ']', '}':
 		return nil, fmt.Errorf("Expected: value")
-- 
2.43.0


From 1135c3f89c6419d8ff21544bc01bc5bf10eeb7fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:13:00 +0000
Subject: [PATCH 23/94] fix: report a missing or malformed value of a JSON
 object member or nested array instead of reading it as null

---
 dsio/json.go | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/dsio/json.go b/dsio/json.go
index 0cd0a7d..2b68f10 100644
--- a/dsio/json.go
+++ b/dsio/json.go
@@ -123,8 +123,8 @@ func (r *JSONReader) ReadEntry() (Entry, error) {
 		}
 	} else {
 		ent.Index = r.entriesRead
-		// Tolerate a trailing separator, which reads as a null entry.
-		if r.peekNextChar() != ']' {
+		// Tolerate a separator without a value, which reads as a null entry.
+		if b := r.peekNextChar(); startsValue(b) || b == ',' || b == '}' {
 			val, err := r.readValue()
 			ent.Value = val
 			if err != nil {
@@ -216,14 +216,16 @@ func (r *JSONReader) readValue() (interface{}, error) {
 			return r.readObject()
 		}
 		return r.readArray()
-	case ',', ']', '}':
-		return nil, fmt.Errorf("Expected: value")
 	default:
-		// Not a value, reported as missing the token that has to follow one.
-		return nil, nil
+		return nil, fmt.Errorf("Expected: value")
 	}
 }
 
+// startsValue tells whether a value can begin with a character
+func startsValue(b byte) bool {
+	return b != 0 && bytes.IndexByte([]byte(`ntf"{[-0123456789`), b) >= 0
+}
+
 func (r *JSONReader) currentBuffer() []byte {
 	buff, _ := r.reader.Peek(r.reader.Buffered())
 	r.prevSize = 0
-- 
2.43.0


From f24da6a9964677cc2de1d78701685b74fa818a87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:16:15 +0000
Subject: [PATCH 24/94] fix: report compressed JSON and CBOR bodies whose
 compressed stream is cut after the end of the document

---
 dsio/cbor.go |  6 ++++++
 dsio/json.go | 16 ++++++++++++++--
 2 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/dsio/cbor.go b/dsio/cbor.go
index 582b748..fb0957f 100644
--- a/dsio/cbor.go
+++ b/dsio/cbor.go
@@ -96,6 +96,12 @@ func (r *CBORReader) ReadEntry() (ent Entry, err error) {
 
 	if r.length == indefiniteLength {
 		if r.readIndefiniteSequenceBreak() {
+			// A compressed stream is complete only if the decompressor finds its end too.
+			if r.st.Compression != "" {
+				if _, err := r.rdr.Peek(1); err != nil && err != io.EOF {
+					return ent, err
+				}
+			}
 			r.done = true
 			return ent, io.EOF
 		}
diff --git a/dsio/json.go b/dsio/json.go
index 2b68f10..bf98458 100644
--- a/dsio/json.go
+++ b/dsio/json.go
@@ -97,11 +97,11 @@ func (r *JSONReader) ReadEntry() (Entry, error) {
 	// Close JSON container if it is complete, signaling EOF.
 	if r.tlt == "object" {
 		if r.readTokenChar('}') {
-			return ent, io.EOF
+			return ent, r.readEnd()
 		}
 	} else {
 		if r.readTokenChar(']') {
-			return ent, io.EOF
+			return ent, r.readEnd()
 		}
 	}
 
@@ -136,6 +136,18 @@ func (r *JSONReader) ReadEntry() (Entry, error) {
 	return ent, nil
 }
 
+// readEnd gives the error that ends the data. A compressed stream is complete only if the
+// decompressor finds its end too
+func (r *JSONReader) readEnd() error {
+	if r.st.Compression != "" {
+		r.currentBuffer()
+		if _, err := r.reader.Peek(1); err != nil {
+			return err
+		}
+	}
+	return io.EOF
+}
+
 // Close finalizes the reader
 func (r *JSONReader) Close() error {
 	if r.close != nil {
-- 
2.43.0


From 4770d98f294cf0c6705196b65a5bdb56854ccf2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:19:33 +0000
Subject: [PATCH 25/94] fix: report a failure to write the line before the
 closing bracket of pretty JSON

---
 dsio/json.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dsio/json.go b/dsio/json.go
index bf98458..80e7f59 100644
--- a/dsio/json.go
+++ b/dsio/json.go
@@ -707,7 +707,10 @@ func (w *JSONWriter) Close() error {
 
 	// If pretty, newline
 	if w.indent != "" {
-		w.wr.Write([]byte{'\n'})
+		if _, err := w.wr.Write([]byte{'\n'}); err != nil {
+			log.Debug(err.Error())
+			return fmt.Errorf("error closing writer: %s", err.Error())
+		}
 	}
 
 	cloze := []byte{']'}
-- 
2.43.0


From 399dca554d2f5c302f13cc31902beb6b37b29e64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:19:36 +0000
Subject: [PATCH 26/94] fix: report failures to write the separators of a step
 file

---
 stepfile/stepfile.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/stepfile/stepfile.go b/stepfile/stepfile.go
index c0261dc..9a1711f 100644
--- a/stepfile/stepfile.go
+++ b/stepfile/stepfile.go
@@ -55,7 +55,9 @@ func Write(steps []*dataset.TransformStep, w io.Writer) error {
 			return err
 		}
 		if i != len(steps)-1 {
-			w.Write([]byte("\n---\n"))
+			if _, err := w.Write([]byte("\n---\n")); err != nil {
+				return err
+			}
 		}
 	}
 	return nil
-- 
2.43.0


From cefb8a770307cdc00258101dd925f9eaefd61b77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:21:50 +0000
Subject: [PATCH 27/94] fix: leave no trace of a refused entry in a JSON body

---
 dsio/json.go | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/dsio/json.go b/dsio/json.go
index 80e7f59..e80fb3d 100644
--- a/dsio/json.go
+++ b/dsio/json.go
@@ -603,6 +603,13 @@ func (w *JSONWriter) Structure() *dataset.Structure {
 
 // WriteEntry writes one JSON record to the writer
 func (w *JSONWriter) WriteEntry(ent Entry) error {
+	// A refused entry must leave no trace, so encode before writing anything.
+	data, err := w.valBytes(ent)
+	if err != nil {
+		log.Debug(err.Error())
+		return err
+	}
+
 	defer func() {
 		w.rowsWritten++
 	}()
@@ -617,12 +624,6 @@ func (w *JSONWriter) WriteEntry(ent Entry) error {
 		}
 	}
 
-	data, err := w.valBytes(ent)
-	if err != nil {
-		log.Debug(err.Error())
-		return err
-	}
-
 	// If between elems, put a comma. If pretty, newline as well.
 	enc := []byte{','}
 	if w.rowsWritten == 0 {
@@ -654,7 +655,6 @@ func (w *JSONWriter) valBytes(ent Entry) (data []byte, err error) {
 		log.Debugf(`key already written: "%s"`, ent.Key)
 		return nil, fmt.Errorf(`key already written: "%s"`, ent.Key)
 	}
-	w.keysWritten[ent.Key] = true
 
 	// Write the key
 	if w.indent != "" {
@@ -682,6 +682,7 @@ func (w *JSONWriter) valBytes(ent Entry) (data []byte, err error) {
 		return data, err
 	}
 	data = append(data, val...)
+	w.keysWritten[ent.Key] = true
 	return data, nil
 }
 
-- 
2.43.0


From 93c526325749a0cba5dbeb966318f75bd2625b49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:23:28 +0000
Subject: [PATCH 28/94] fix: read CBOR tagged and simple values whole instead
 of misreading what follows

---
 dsio/cbor.go | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/dsio/cbor.go b/dsio/cbor.go
index fb0957f..df55617 100644
--- a/dsio/cbor.go
+++ b/dsio/cbor.go
@@ -233,6 +233,16 @@ func (r *CBORReader) readValue() (interface{}, error) {
 		return nil, err
 	}
 
+	// A tag annotates the value that follows it.
+	for b&cborTypeMask == cborBaseTag {
+		if _, err = r.getVarLenInt(b); err != nil {
+			return nil, err
+		}
+		if b, err = r.rdr.ReadByte(); err != nil {
+			return nil, err
+		}
+	}
+
 	if b < 0x1c {
 		return r.getVarLenInt(b)
 	} else if b >= 0x20 && b < 0x3c {
@@ -308,12 +318,13 @@ func (r *CBORReader) readValue() (interface{}, error) {
 				return nil, err
 			}
 			return assoc, nil
-		case cborBaseTag:
-			// TODO: Implement me
-			return nil, nil
 		case cborBaseSimple:
 			// TODO: Implement me
-			return nil, nil
+			if b == cborBdBreak {
+				return nil, fmt.Errorf("unexpected break")
+			}
+			_, err := r.getVarLenInt(b)
+			return nil, err
 		default:
 			return nil, fmt.Errorf("unknown cbor tag: %v", b)
 		}
-- 
2.43.0


From 22ec289aaa8ebb189c42c4cc4d608cfd592187ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:25:39 +0000
Subject: [PATCH 29/94] fix: return the error of a conversion that cannot read
 its source or write an entry

---
 dsio/dsio.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dsio/dsio.go b/dsio/dsio.go
index 6c72e9a..3fe044b 100644
--- a/dsio/dsio.go
+++ b/dsio/dsio.go
@@ -220,7 +220,9 @@ func ConvertFile(file qfs.File, in, out *dataset.Structure, limit, offset int, a
 			Offset: offset,
 		}
 	}
-	err = Copy(rr, w)
+	if err := Copy(rr, w); err != nil {
+		return nil, err
+	}
 
 	if err := w.Close(); err != nil {
 		return nil, fmt.Errorf("error closing row buffer: %s", err.Error())
-- 
2.43.0


From 65f8f62cc0ec998a8d204742a86fe32dfeef417e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:31:26 +0000
Subject: [PATCH 30/94] fix: end the in-memory reader by closing its channel:
 it could block forever after the last entry or on close

---
 dsio/identity.go | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/dsio/identity.go b/dsio/identity.go
index f3c5fe6..1eb8ad9 100644
--- a/dsio/identity.go
+++ b/dsio/identity.go
@@ -26,7 +26,6 @@ func NewIdentityReader(st *dataset.Structure, data interface{}) (*IdentityReader
 // IdentityReader is a dsio.EntryReader that works with native go types
 type IdentityReader struct {
 	st      *dataset.Structure
-	done    bool
 	entries chan Entry
 }
 
@@ -39,20 +38,18 @@ func (r *IdentityReader) Structure() *dataset.Structure {
 
 // ReadEntry reads one row of structured data from the reader
 func (r *IdentityReader) ReadEntry() (Entry, error) {
-	if r.done {
+	ent, ok := <-r.entries
+	if !ok {
 		return Entry{}, io.EOF
 	}
 
-	return <-r.entries, nil
+	return ent, nil
 }
 
 // Close finalizes the reader
 func (r *IdentityReader) Close() error {
-	if !r.done {
-		// drain channel to prevent leaking goroutine
-		for !r.done {
-			<-r.entries
-		}
+	// drain channel to prevent leaking goroutine
+	for range r.entries {
 	}
 	return nil
 }
@@ -61,10 +58,10 @@ func (r *IdentityReader) iterateMap(data map[string]interface{}) chan Entry {
 	res := make(chan Entry)
 
 	go func() {
+		defer close(res)
 		for key, val := range data {
 			res <- Entry{Key: key, Value: val}
 		}
-		r.done = true
 	}()
 
 	return res
@@ -74,10 +71,10 @@ func (r *IdentityReader) iterateSlice(data []interface{}) chan Entry {
 	res := make(chan Entry)
 
 	go func() {
+		defer close(res)
 		for i, val := range data {
 			res <- Entry{Index: i, Value: val}
 		}
-		r.done = true
 	}()
 
 	return res
-- 
2.43.0


From 802826bcdcf1367f3b1cebe8b784b058ff9d4f79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:22 +0000
Subject: [PATCH 31/94] fix: encoding a dataset, readme or viz no longer
 changes it, and their object form always names its kind

---
 dataset.go | 7 ++++---
 readme.go  | 9 +++++----
 viz.go     | 9 +++++----
 3 files changed, 14 insertions(+), 11 deletions(-)

diff --git a/dataset.go b/dataset.go
index b33a799..eddb018 100644
--- a/dataset.go
+++ b/dataset.go
@@ -436,11 +436,12 @@ func (ds *Dataset) MarshalJSON() ([]byte, error) {
 	if ds.Path != "" && ds.IsEmpty() {
 		return json.Marshal(ds.Path)
 	}
-	if ds.Qri == "" {
-		ds.Qri = KindDataset.String()
+	d := _dataset(*ds)
+	if d.Qri == "" {
+		d.Qri = KindDataset.String()
 	}
 
-	return json.Marshal(_dataset(*ds))
+	return json.Marshal(d)
 }
 
 // internal struct for json unmarshaling
diff --git a/readme.go b/readme.go
index e8a4685..79a8e2f 100644
--- a/readme.go
+++ b/readme.go
@@ -197,9 +197,6 @@ func (r *Readme) MarshalJSON() ([]byte, error) {
 	if r.Path != "" && r.IsEmpty() {
 		return json.Marshal(r.Path)
 	}
-	if r.Qri == "" {
-		r.Qri = KindReadme.String()
-	}
 
 	return r.MarshalJSONObject()
 }
@@ -246,8 +243,12 @@ func UnmarshalReadme(v interface{}) (*Readme, error) {
 // MarshalJSONObject always marshals to a json Object, even if Readme is empty or
 // a reference
 func (r *Readme) MarshalJSONObject() ([]byte, error) {
+	kind := r.Qri
+	if kind == "" {
+		kind = KindReadme.String()
+	}
 	data := map[string]interface{}{
-		"qri": r.Qri,
+		"qri": kind,
 	}
 
 	if r.Format != "" {
diff --git a/viz.go b/viz.go
index 13d34d1..e63c700 100644
--- a/viz.go
+++ b/viz.go
@@ -200,9 +200,6 @@ func (v *Viz) MarshalJSON() ([]byte, error) {
 	if v.Path != "" && v.IsEmpty() {
 		return json.Marshal(v.Path)
 	}
-	if v.Qri == "" {
-		v.Qri = KindViz.String()
-	}
 
 	return v.MarshalJSONObject()
 }
@@ -248,8 +245,12 @@ func UnmarshalViz(v interface{}) (*Viz, error) {
 // MarshalJSONObject always marshals to a json Object, even if Viz is empty or
 // a reference
 func (v *Viz) MarshalJSONObject() ([]byte, error) {
+	kind := v.Qri
+	if kind == "" {
+		kind = KindViz.String()
+	}
 	data := map[string]interface{}{
-		"qri": v.Qri,
+		"qri": kind,
 	}
 
 	if v.Format != "" {
-- 
2.43.0


From deadf8409d955a19cdded37048e103e59ea7c8fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:37 +0000
Subject: [PATCH 32/94] fix: keep the path of a readme or viz that has other
 fields when encoding it

---
 readme.go | 3 +++
 viz.go    | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/readme.go b/readme.go
index 79a8e2f..8c5dc20 100644
--- a/readme.go
+++ b/readme.go
@@ -254,6 +254,9 @@ func (r *Readme) MarshalJSONObject() ([]byte, error) {
 	if r.Format != "" {
 		data["format"] = r.Format
 	}
+	if r.Path != "" {
+		data["path"] = r.Path
+	}
 	if r.Text != "" {
 		data["text"] = r.Text
 	}
diff --git a/viz.go b/viz.go
index e63c700..8226548 100644
--- a/viz.go
+++ b/viz.go
@@ -256,6 +256,9 @@ func (v *Viz) MarshalJSONObject() ([]byte, error) {
 	if v.Format != "" {
 		data["format"] = v.Format
 	}
+	if v.Path != "" {
+		data["path"] = v.Path
+	}
 	if v.Text != "" {
 		data["text"] = v.Text
 	}
-- 
2.43.0


From 5ef6164114761a66d42d73c514fb9cfc98350d2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:41 +0000
Subject: [PATCH 33/94] fix: encode a structure as a bare path only if nothing
 else is set

---
 structure.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/structure.go b/structure.go
index f441ebf..257695a 100644
--- a/structure.go
+++ b/structure.go
@@ -189,7 +189,7 @@ type _structure Structure
 
 // MarshalJSON satisfies the json.Marshaler interface
 func (s Structure) MarshalJSON() (data []byte, err error) {
-	if s.Path != "" && s.Encoding == "" && s.Schema == nil {
+	if s.Path != "" && s.IsEmpty() {
 		return json.Marshal(s.Path)
 	}
 
-- 
2.43.0


From 3bed74a92667e68f840512fc55c4e404e60621d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:08 +0000
Subject: [PATCH 34/94] fix: decode exactly the standard metadata fields as
 such: keywords were also kept as arbitrary metadata, and arbitrary keys such
 as data, image or length were lost

---
 meta.go | 54 ++++++++++++++++++++++++++++++------------------------
 1 file changed, 30 insertions(+), 24 deletions(-)

diff --git a/meta.go b/meta.go
index e648efc..c49128c 100644
--- a/meta.go
+++ b/meta.go
@@ -375,6 +375,28 @@ func (md *Meta) MarshalJSONObject() ([]byte, error) {
 // internal struct for json unmarshaling
 type _metadata Meta
 
+// standardMetaFields are the json keys of the fields of Meta, all other keys are
+// arbitrary metadata
+var standardMetaFields = []string{
+	"accessURL",
+	"accrualPeriodicity",
+	"citations",
+	"contributors",
+	"description",
+	"downloadURL",
+	"homeURL",
+	"identifier",
+	"keywords",
+	"language",
+	"license",
+	"path",
+	"qri",
+	"readmeURL",
+	"theme",
+	"title",
+	"version",
+}
+
 // UnmarshalJSON implements json.Unmarshaller
 func (md *Meta) UnmarshalJSON(data []byte) error {
 	// first check to see if this is a valid path ref
@@ -394,30 +416,14 @@ func (md *Meta) UnmarshalJSON(data []byte) error {
 		return fmt.Errorf("error unmarshaling dataset metadata: %s", err)
 	}
 
-	for _, f := range []string{
-		"accessURL",
-		"accrualPeriodicity",
-		"citations",
-		"contributors",
-		"data",
-		"description",
-		"downloadURL",
-		"homeURL",
-		"identifier",
-		"image",
-		"keyword",
-		"path",
-		"qri",
-		"language",
-		"length",
-		"license",
-		"readmeURL",
-		"theme",
-		"timestamp",
-		"title",
-		"version",
-	} {
-		delete(meta, f)
+	// standard fields are matched the way encoding/json matches them
+	for key := range meta {
+		for _, f := range standardMetaFields {
+			if strings.EqualFold(key, f) {
+				delete(meta, key)
+				break
+			}
+		}
 	}
 
 	if len(meta) > 0 {
-- 
2.43.0


From 0596c85b055f1fc3976e1355d1f2081cf80799fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:13 +0000
Subject: [PATCH 35/94] fix: keep the kind identifier of metadata when encoding
 it

---
 meta.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/meta.go b/meta.go
index c49128c..dd267fd 100644
--- a/meta.go
+++ b/meta.go
@@ -319,6 +319,9 @@ func (md *Meta) MarshalJSONObject() ([]byte, error) {
 	data := md.Meta()
 
 	data["qri"] = KindMeta.String()
+	if md.Qri != "" {
+		data["qri"] = md.Qri
+	}
 
 	if md.AccessURL != "" {
 		data["accessURL"] = md.AccessURL
-- 
2.43.0


From 27d963894ec06a2a3b520406d02aab0d6a0e5491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:17 +0000
Subject: [PATCH 36/94] fix: metadata with only arbitrary keys and a dataset
 with only a version count are not empty: their content was lost when encoding
 them as a reference

---
 dataset.go | 1 +
 meta.go    | 3 ++-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/dataset.go b/dataset.go
index eddb018..babe7bd 100644
--- a/dataset.go
+++ b/dataset.go
@@ -102,6 +102,7 @@ func (ds *Dataset) IsEmpty() bool {
 		ds.ID == "" &&
 		ds.Meta == nil &&
 		ds.Name == "" &&
+		ds.NumVersions == 0 &&
 		ds.Peername == "" &&
 		ds.PreviousPath == "" &&
 		ds.ProfileID == "" &&
diff --git a/meta.go b/meta.go
index dd267fd..2c2d44f 100644
--- a/meta.go
+++ b/meta.go
@@ -77,7 +77,8 @@ func (md *Meta) DropDerivedValues() {
 
 // IsEmpty checks to see if dataset has any fields other than the internal path
 func (md *Meta) IsEmpty() bool {
-	return md.AccessURL == "" &&
+	return len(md.meta) == 0 &&
+		md.AccessURL == "" &&
 		md.AccrualPeriodicity == "" &&
 		md.Citations == nil &&
 		md.Contributors == nil &&
-- 
2.43.0


From 241426b31f9edaa5f9760e2cb55cab7e547110d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:05 +0000
Subject: [PATCH 37/94] fix: set path as the standard metadata field it is
 instead of as arbitrary metadata

---
 meta.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/meta.go b/meta.go
index 2c2d44f..c522f8a 100644
--- a/meta.go
+++ b/meta.go
@@ -168,6 +168,8 @@ func (md *Meta) Set(key string, val interface{}) (err error) {
 		md.HomeURL, err = strVal(val)
 	case "identifier":
 		md.Identifier, err = strVal(val)
+	case "path":
+		md.Path, err = strVal(val)
 	case "readmeurl":
 		md.ReadmeURL, err = strVal(val)
 	case "title":
-- 
2.43.0


From 4d8c99af4f8a72f868456e19b98a6099fcd9ea65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:09 +0000
Subject: [PATCH 38/94] fix: leave metadata as it was when a value is rejected,
 instead of clearing or half-filling the field

---
 meta.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/meta.go b/meta.go
index c522f8a..34fd8c7 100644
--- a/meta.go
+++ b/meta.go
@@ -151,6 +151,13 @@ func strSliceVal(val interface{}) (s []string, err error) {
 // Set writes value to key in metadata, erroring if the type is invalid
 // input values are expected to be json.Unmarshal types
 func (md *Meta) Set(key string, val interface{}) (err error) {
+	// a rejected value leaves metadata as it was
+	prev := *md
+	defer func() {
+		if err != nil {
+			*md = prev
+		}
+	}()
 
 	switch strings.TrimSpace(strings.ToLower(key)) {
 	// string meta fields
-- 
2.43.0


From 0d946c0fefec1844c7f70662ae61b9c37d992fa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:42:45 +0000
Subject: [PATCH 39/94] fix: assign the version count and kind identifier of
 datasets

---
 dataset.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/dataset.go b/dataset.go
index babe7bd..f5299bd 100644
--- a/dataset.go
+++ b/dataset.go
@@ -398,6 +398,12 @@ func (ds *Dataset) Assign(datasets ...*Dataset) {
 		if d.ProfileID != "" {
 			ds.ProfileID = d.ProfileID
 		}
+		if d.NumVersions != 0 {
+			ds.NumVersions = d.NumVersions
+		}
+		if d.Qri != "" {
+			ds.Qri = d.Qri
+		}
 		if ds.Stats == nil && d.Stats != nil {
 			ds.Stats = d.Stats
 		} else if ds.Stats != nil {
-- 
2.43.0


From bc9fcc39d8606534bd29e1eece653445b6542f85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:42:57 +0000
Subject: [PATCH 40/94] fix: assign the rendered file of readmes and vizs like
 their script file

---
 readme.go | 3 +++
 viz.go    | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/readme.go b/readme.go
index 8c5dc20..66fb56b 100644
--- a/readme.go
+++ b/readme.go
@@ -181,6 +181,9 @@ func (r *Readme) Assign(readmeConfigs ...*Readme) {
 		if rs.scriptFile != nil {
 			r.scriptFile = rs.scriptFile
 		}
+		if rs.renderedFile != nil {
+			r.renderedFile = rs.renderedFile
+		}
 		if rs.ScriptPath != "" {
 			r.ScriptPath = rs.ScriptPath
 		}
diff --git a/viz.go b/viz.go
index 8226548..0dfad87 100644
--- a/viz.go
+++ b/viz.go
@@ -181,6 +181,9 @@ func (v *Viz) Assign(visConfigs ...*Viz) {
 		if vs.scriptFile != nil {
 			v.scriptFile = vs.scriptFile
 		}
+		if vs.renderedFile != nil {
+			v.renderedFile = vs.renderedFile
+		}
 		if vs.ScriptPath != "" {
 			v.ScriptPath = vs.ScriptPath
 		}
-- 
2.43.0


From e85ec5ce4fbbad3fc27b4ee712fcea683512a3db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:42:57 +0000
Subject: [PATCH 41/94] fix: do not drop the target's arbitrary metadata when
 assigning metadata that has none, and do not share the map with the source

---
 meta.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/meta.go b/meta.go
index 34fd8c7..fe7644b 100644
--- a/meta.go
+++ b/meta.go
@@ -253,8 +253,8 @@ func (md *Meta) Assign(metas ...*Meta) {
 			continue
 		}
 
-		if m.meta != nil {
-			md.meta = m.meta
+		if len(m.meta) > 0 {
+			md.meta = m.Meta()
 		}
 
 		if m.AccessURL != "" {
-- 
2.43.0


From be15f0a1c3568c0c8a5226510a5f46483ee9ea62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:42:57 +0000
Subject: [PATCH 42/94] fix: assign components onto the target's own copy:
 later sources were written into the components of earlier ones

---
 dataset.go | 52 ++++++++++++++++++++++++++++------------------------
 1 file changed, 28 insertions(+), 24 deletions(-)

diff --git a/dataset.go b/dataset.go
index f5299bd..fcc4e73 100644
--- a/dataset.go
+++ b/dataset.go
@@ -370,17 +370,19 @@ func (ds *Dataset) Assign(datasets ...*Dataset) {
 			ds.BodyPath = d.BodyPath
 		}
 
-		if ds.Commit == nil && d.Commit != nil {
-			ds.Commit = d.Commit
-		} else if ds.Commit != nil {
+		if d.Commit != nil {
+			if ds.Commit == nil {
+				ds.Commit = &Commit{}
+			}
 			ds.Commit.Assign(d.Commit)
 		}
 		if ds.ID == "" && d.ID != "" {
 			ds.ID = d.ID
 		}
-		if ds.Meta == nil && d.Meta != nil {
-			ds.Meta = d.Meta
-		} else if ds.Meta != nil {
+		if d.Meta != nil {
+			if ds.Meta == nil {
+				ds.Meta = &Meta{}
+			}
 			ds.Meta.Assign(d.Meta)
 		}
 		if d.Name != "" {
@@ -404,34 +406,36 @@ func (ds *Dataset) Assign(datasets ...*Dataset) {
 		if d.Qri != "" {
 			ds.Qri = d.Qri
 		}
-		if ds.Stats == nil && d.Stats != nil {
-			ds.Stats = d.Stats
-		} else if ds.Stats != nil {
+		if d.Stats != nil {
+			if ds.Stats == nil {
+				ds.Stats = &Stats{}
+			}
 			ds.Stats.Assign(d.Stats)
 		}
-		if ds.Structure == nil && d.Structure != nil {
-			ds.Structure = d.Structure
-		} else if ds.Structure != nil {
+		if d.Structure != nil {
+			if ds.Structure == nil {
+				ds.Structure = &Structure{}
+			}
 			ds.Structure.Assign(d.Structure)
 		}
-		if ds.Transform == nil && d.Transform != nil {
-			ds.Transform = d.Transform
-		} else if ds.Transform != nil {
+		if d.Transform != nil {
+			if ds.Transform == nil {
+				ds.Transform = &Transform{}
+			}
 			ds.Transform.Assign(d.Transform)
 		}
-		if ds.Viz == nil && d.Viz != nil {
-			ds.Viz = d.Viz
-		} else if ds.Viz != nil {
+		if d.Viz != nil {
+			if ds.Viz == nil {
+				ds.Viz = &Viz{}
+			}
 			ds.Viz.Assign(d.Viz)
 		}
-		if ds.Readme == nil && d.Readme != nil {
-			ds.Readme = d.Readme
-		} else if ds.Readme != nil {
+		if d.Readme != nil {
+			if ds.Readme == nil {
+				ds.Readme = &Readme{}
+			}
 			ds.Readme.Assign(d.Readme)
 		}
-
-		// TODO - wut dis?
-		ds.Commit.Assign(d.Commit)
 	}
 }
 
-- 
2.43.0


From 110f99f60be2efc0fd8f07f7ce867b916dda1215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:54:27 +0000
Subject: [PATCH 43/94] fix: give each detected schema its own map instead of
 the shared base schema

---
 detect/cbor.go            |  4 ++--
 detect/determineFields.go | 10 ++++++++++
 detect/json.go            |  6 +++---
 detect/xlsx.go            |  2 +-
 4 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/detect/cbor.go b/detect/cbor.go
index 278cab5..8e2ddca 100644
--- a/detect/cbor.go
+++ b/detect/cbor.go
@@ -29,9 +29,9 @@ func CBORSchema(resource *dataset.Structure, data io.Reader) (schema map[string]
 
 	switch {
 	case bd >= cborBaseArray && bd < cborBaseMap, bd == cborBdIndefiniteArray:
-		return dataset.BaseSchemaArray, n, nil
+		return arraySchema(), n, nil
 	case bd >= cborBaseMap && bd < cborBaseTag, bd == cborBdIndefiniteMap:
-		return dataset.BaseSchemaObject, n, nil
+		return objectSchema(), n, nil
 	default:
 		err = fmt.Errorf("invalid top-level type for CBOR data. cbor datasets must begin with either an array or map")
 		log.Debugf(err.Error())
diff --git a/detect/determineFields.go b/detect/determineFields.go
index 3f8b3fd..506f2d1 100644
--- a/detect/determineFields.go
+++ b/detect/determineFields.go
@@ -45,6 +45,16 @@ func Schema(r *dataset.Structure, data io.Reader) (schema map[string]interface{}
 	}
 }
 
+// arraySchema gives a new dataset.BaseSchemaArray that the caller may change
+func arraySchema() map[string]interface{} {
+	return map[string]interface{}{"type": "array"}
+}
+
+// objectSchema gives a new dataset.BaseSchemaObject that the caller may change
+func objectSchema() map[string]interface{} {
+	return map[string]interface{}{"type": "object"}
+}
+
 type field struct {
 	Title string    `json:"title,omitempty"`
 	Type  vals.Type `json:"type,omitempty"`
diff --git a/detect/json.go b/detect/json.go
index e94d5e9..717f45f 100644
--- a/detect/json.go
+++ b/detect/json.go
@@ -40,9 +40,9 @@ func JSONSchema(resource *dataset.Structure, data io.Reader) (schema map[string]
 		for _, b := range buf {
 			switch b {
 			case '[':
-				return dataset.BaseSchemaArray, n, nil
+				return arraySchema(), n, nil
 			case '{':
-				return dataset.BaseSchemaObject, n, nil
+				return objectSchema(), n, nil
 			case ' ', '\t', '\n', '\r':
 				continue
 			default:
@@ -55,5 +55,5 @@ func JSONSchema(resource *dataset.Structure, data io.Reader) (schema map[string]
 
 // NDJSONSchema returns an array identity schema
 func NDJSONSchema(resource *dataset.Structure, data io.Reader) (schema map[string]interface{}, n int, err error) {
-	return dataset.BaseSchemaArray, 0, nil
+	return arraySchema(), 0, nil
 }
diff --git a/detect/xlsx.go b/detect/xlsx.go
index 3c0310a..5218660 100644
--- a/detect/xlsx.go
+++ b/detect/xlsx.go
@@ -9,5 +9,5 @@ import (
 // XLSXSchema determines any schema information for an excel spreadsheet
 // TODO (b5): currently unimplemented
 func XLSXSchema(r *dataset.Structure, data io.Reader) (schema map[string]interface{}, n int, err error) {
-	return dataset.BaseSchemaArray, 0, nil
+	return arraySchema(), 0, nil
 }
-- 
2.43.0


From 37db5f6909293d00ab4227d9e64c88565c114133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:54:30 +0000
Subject: [PATCH 44/94] fix: detect JSON from the bytes actually read: short or
 split reads were refused as invalid

---
 detect/json.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/detect/json.go b/detect/json.go
index 717f45f..4fc2b1c 100644
--- a/detect/json.go
+++ b/detect/json.go
@@ -37,7 +37,7 @@ func JSONSchema(resource *dataset.Structure, data io.Reader) (schema map[string]
 			}
 		}
 
-		for _, b := range buf {
+		for _, b := range buf[:count] {
 			switch b {
 			case '[':
 				return arraySchema(), n, nil
-- 
2.43.0


From 052c85df3a1b13b0eda111655bc14ea6bd92367c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:54:57 +0000
Subject: [PATCH 45/94] fix: keep the body whole when its structure cannot be
 detected

---
 detect/detect.go | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/detect/detect.go b/detect/detect.go
index 77deb4f..73f4e22 100644
--- a/detect/detect.go
+++ b/detect/detect.go
@@ -55,6 +55,16 @@ func Structure(ds *dataset.Dataset) error {
 	}
 
 	guessedStructure, _, err := FromReader(df, comp, tr)
+
+	// glue whatever we just read back onto the reader
+	// TODO (b5)- this may ruin readers that transparently depend on a read-closer
+	// we should consider a method on qfs.File that allows this non-destructive read pattern
+	size := int64(-1)
+	if sizef, ok := body.(qfs.SizeFile); ok {
+		size = sizef.Size()
+	}
+	ds.SetBodyFile(qfs.NewMemfileReaderSize(body.FileName(), io.MultiReader(buf, body), size))
+
 	if err != nil {
 		log.Debug(err.Error())
 		return fmt.Errorf("determining dataset structure: %w", err)
@@ -76,15 +86,6 @@ func Structure(ds *dataset.Dataset) error {
 	if ds.Structure.Schema == nil {
 		ds.Structure.Schema = guessedStructure.Schema
 	}
-
-	// glue whatever we just read back onto the reader
-	// TODO (b5)- this may ruin readers that transparently depend on a read-closer
-	// we should consider a method on qfs.File that allows this non-destructive read pattern
-	size := int64(-1)
-	if sizef, ok := body.(qfs.SizeFile); ok {
-		size = sizef.Size()
-	}
-	ds.SetBodyFile(qfs.NewMemfileReaderSize(body.FileName(), io.MultiReader(buf, body), size))
 	return nil
 }
 
-- 
2.43.0


From eaf82644c016ae5c8cca83db3f21090bee9b4754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:55:01 +0000
Subject: [PATCH 46/94] fix: detect the structure of compressed bodies from
 their content instead of their compressed bytes

---
 detect/detect.go | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/detect/detect.go b/detect/detect.go
index 73f4e22..27b23ea 100644
--- a/detect/detect.go
+++ b/detect/detect.go
@@ -13,6 +13,7 @@ import (
 	logger "github.com/ipfs/go-log"
 	"github.com/qri-io/dataset"
 	"github.com/qri-io/dataset/compression"
+	"github.com/qri-io/dataset/dsio"
 	"github.com/qri-io/qfs"
 )
 
@@ -134,8 +135,21 @@ func FromReader(format dataset.DataFormat, comp compression.Format, data io.Read
 		Format:      format.String(),
 		Compression: comp.String(),
 	}
-	st.Schema, n, err = Schema(st, data)
-	return
+	if comp == compression.FmtNone {
+		st.Schema, n, err = Schema(st, data)
+		return
+	}
+
+	tr := dsio.NewTrackedReader(data)
+	r, err := compression.Decompressor(comp.String(), tr)
+	if err != nil {
+		return st, tr.BytesRead(), err
+	}
+	st.Schema, _, err = Schema(st, r)
+	if cerr := r.Close(); err == nil {
+		err = cerr
+	}
+	return st, tr.BytesRead(), err
 }
 
 // FormatFromFilename extracts data & compression formats from a filename string
-- 
2.43.0


From 4ff91b55012f0f1784c3f2611055ef2a24a43998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:55:24 +0000
Subject: [PATCH 47/94] fix: split CSV rows into fields when detecting as when
 reading: a space before a quoted cell gave another number of columns

---
 detect/determineFields.go | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/detect/determineFields.go b/detect/determineFields.go
index 506f2d1..dc2b255 100644
--- a/detect/determineFields.go
+++ b/detect/determineFields.go
@@ -8,6 +8,7 @@ import (
 	"regexp"
 	"sort"
 	"strings"
+	"unicode"
 
 	"github.com/qri-io/dataset"
 	"github.com/qri-io/dataset/dsio"
@@ -65,7 +66,6 @@ func CSVSchema(resource *dataset.Structure, data io.Reader) (schema map[string]i
 	tr := dsio.NewTrackedReader(data)
 	r := csv.NewReader(replacecr.Reader(tr))
 	r.FieldsPerRecord = -1
-	r.TrimLeadingSpace = true
 	r.LazyQuotes = true
 
 	opt := map[string]interface{}{
@@ -93,13 +93,13 @@ func CSVSchema(resource *dataset.Structure, data io.Reader) (schema map[string]i
 
 	if possibleCsvHeaderRow(header) {
 		for i, f := range fields {
-			f.Title = varName.CreateVarNameFromString(header[i])
+			f.Title = varName.CreateVarNameFromString(trimLeadingSpace(header[i]))
 			f.Type = vals.TypeUnknown
 		}
 		opt["headerRow"] = true
 	} else {
 		for i, cell := range header {
-			types[i][vals.ParseType([]byte(cell))]++
+			types[i][vals.ParseType([]byte(trimLeadingSpace(cell)))]++
 		}
 	}
 
@@ -119,7 +119,7 @@ func CSVSchema(resource *dataset.Structure, data io.Reader) (schema map[string]i
 
 		if len(rec) == len(types) {
 			for i, cell := range rec {
-				types[i][vals.ParseType([]byte(cell))]++
+				types[i][vals.ParseType([]byte(trimLeadingSpace(cell)))]++
 			}
 			count++
 		} else {
@@ -153,6 +153,11 @@ func CSVSchema(resource *dataset.Structure, data io.Reader) (schema map[string]i
 	return sch, tr.BytesRead(), nil
 }
 
+// trimLeadingSpace drops space before the text of a cell, which doesn't affect its type
+func trimLeadingSpace(cell string) string {
+	return strings.TrimLeftFunc(cell, unicode.IsSpace)
+}
+
 func getKeys(m map[vals.Type]int) []vals.Type {
 	keys := make([]vals.Type, 0, len(m))
 	for k := range m {
-- 
2.43.0


From 4e6c9a1d5a5f110c5a281d0c0a8450319ed79e90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:55:28 +0000
Subject: [PATCH 48/94] fix: keep the text of CSV cells that are not null in a
 null column

---
 dsio/csv.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dsio/csv.go b/dsio/csv.go
index 7ee8622..8dbd704 100644
--- a/dsio/csv.go
+++ b/dsio/csv.go
@@ -155,7 +155,9 @@ func (r *CSVReader) decode(strings []string) ([]interface{}, error) {
 				vs[i] = v
 			}
 		case "null":
-			vs[i] = nil
+			if str == "" || str == "null" {
+				vs[i] = nil
+			}
 		}
 	}
 
-- 
2.43.0


From 3da984ba9242db7b9d54c0cf2daf59d27c88d332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:59:35 +0000
Subject: [PATCH 49/94] fix: infer numbers beyond the 32-bit float range as
 numbers, which is what they parse as

---
 vals/type.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vals/type.go b/vals/type.go
index 8b7fbee..efeadef 100644
--- a/vals/type.go
+++ b/vals/type.go
@@ -71,7 +71,7 @@ func ParseType(value []byte) Type {
 		case '"':
 			return TypeString
 		case '-', '1', '2', '3', '4', '5', '6', '7', '8', '9', '0', 'e':
-			if _, e := strconv.ParseFloat(string(value), 32); e != nil {
+			if _, e := strconv.ParseFloat(string(value), 64); e != nil {
 				return TypeString
 			}
 			if IsInteger(value) {
-- 
2.43.0


From f50467776c991c15c025cf0cb7d3033d13975d9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:59:39 +0000
Subject: [PATCH 50/94] fix: format integers of the type parsing gives

---
 vals/type.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/vals/type.go b/vals/type.go
index efeadef..870c632 100644
--- a/vals/type.go
+++ b/vals/type.go
@@ -167,12 +167,15 @@ func (dt Type) ValueToString(value interface{}) (str string, err error) {
 		}
 		str = s
 	case TypeInteger:
-		num, ok := value.(int)
-		if !ok {
+		switch num := value.(type) {
+		case int:
+			str = strconv.FormatInt(int64(num), 10)
+		case int64:
+			str = strconv.FormatInt(num, 10)
+		default:
 			err = fmt.Errorf("%v is not an %s value", value, dt.String())
 			return
 		}
-		str = strconv.FormatInt(int64(num), 10)
 	case TypeNumber:
 		num, ok := value.(float64)
 		if !ok {
-- 
2.43.0


From def7c57514dce913131d0b64e65300fa33063742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:59:42 +0000
Subject: [PATCH 51/94] fix: parse and format null, which type inference
 recognises

---
 vals/type.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/vals/type.go b/vals/type.go
index 870c632..7ce5a38 100644
--- a/vals/type.go
+++ b/vals/type.go
@@ -150,6 +150,10 @@ func (dt Type) Parse(value []byte) (parsed interface{}, err error) {
 		parsed, err = ParseJSON(value)
 	case TypeObject:
 		parsed, err = ParseJSON(value)
+	case TypeNull:
+		if string(value) != "null" {
+			err = fmt.Errorf("%q is not a %s value", value, dt.String())
+		}
 	default:
 		return nil, errors.New("cannot parse unknown data type")
 	}
@@ -197,6 +201,12 @@ func (dt Type) ValueToString(value interface{}) (str string, err error) {
 			return
 		}
 		str = string(data)
+	case TypeNull:
+		if value != nil {
+			err = fmt.Errorf("%v is not a %s value", value, dt.String())
+			return
+		}
+		str = "null"
 	default:
 		err = fmt.Errorf("cannot get string value of unknown datatype")
 		return
-- 
2.43.0


From ecd2a571912ceb99a643a5f8459f03f555dbb781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:59:46 +0000
Subject: [PATCH 52/94] fix: compare NaN consistently: it was less than
 everything from either side

---
 vals/compare.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/vals/compare.go b/vals/compare.go
index e5996a2..e9a43ff 100644
--- a/vals/compare.go
+++ b/vals/compare.go
@@ -3,6 +3,7 @@ package vals
 import (
 	"bytes"
 	"fmt"
+	"math"
 	"reflect"
 )
 
@@ -81,6 +82,15 @@ func CompareNumberBytes(a, b []byte) (int, error) {
 	if err != nil {
 		return 0, err
 	}
+	// NaN has no order among floats, place it before all other numbers
+	if an, bn := math.IsNaN(at), math.IsNaN(bt); an || bn {
+		if an && bn {
+			return 0, nil
+		} else if bn {
+			return 1, nil
+		}
+		return -1, nil
+	}
 	if at > bt {
 		return 1, nil
 	} else if at == bt {
-- 
2.43.0


From ffb1d0b076f524f6331c378eed2b95b103396f74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:00:16 +0000
Subject: [PATCH 53/94] fix: infer decimal numbers with more than nineteen
 digits before the point as numbers, not integers

---
 vals/type.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/vals/type.go b/vals/type.go
index 7ce5a38..f78a9eb 100644
--- a/vals/type.go
+++ b/vals/type.go
@@ -288,10 +288,12 @@ func IsInteger(value []byte) bool {
 	if value[0] == '[' || value[0] == '{' || !bytes.ContainsAny(value[0:1], "-+0123456789") {
 		return false
 	}
-	if _, err := ParseInteger(value); err == nil || err.(*strconv.NumError).Err == strconv.ErrRange {
+	_, err := ParseInteger(value)
+	if err == nil {
 		return true
 	}
-	return false
+	// parsing stops where the range is exceeded, only digits may follow
+	return err.(*strconv.NumError).Err == strconv.ErrRange && len(bytes.Trim(value[1:], "0123456789")) == 0
 }
 
 // IsBoolean checks if a slice of bytes is a boolean value
-- 
2.43.0


From 44da4c846eaccc5d1713e75c77d89cebb809e727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:02:05 +0000
Subject: [PATCH 54/94] fix: decode JSON documents with white space around them

---
 vals/coding.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/vals/coding.go b/vals/coding.go
index cda5509..9152fae 100644
--- a/vals/coding.go
+++ b/vals/coding.go
@@ -1,6 +1,7 @@
 package vals
 
 import (
+	"bytes"
 	"encoding/json"
 	"fmt"
 )
@@ -70,6 +71,7 @@ func ConvertDecoded(d interface{}) (Value, error) {
 
 // UnmarshalJSON turns a slice of JSON bytes into a Value
 func UnmarshalJSON(data []byte) (v Value, err error) {
+	data = bytes.Trim(data, " \t\r\n")
 	switch ParseType(data) {
 	case TypeObject:
 		return unmarshalObject(data)
-- 
2.43.0


From 83161719fea00478232b99a99317e5570f26298e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:02:08 +0000
Subject: [PATCH 55/94] fix: decode JSON integers beyond the integer range as
 numbers instead of failing

---
 vals/coding.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/vals/coding.go b/vals/coding.go
index 9152fae..2993a6f 100644
--- a/vals/coding.go
+++ b/vals/coding.go
@@ -83,6 +83,11 @@ func UnmarshalJSON(data []byte) (v Value, err error) {
 	case TypeInteger:
 		i := Integer(0)
 		v = &i
+		if _, e := ParseInteger(data); e != nil {
+			// beyond the range of integers
+			n := Number(0)
+			v = &n
+		}
 	case TypeNumber:
 		n := Number(0)
 		v = &n
-- 
2.43.0


From 95dbcc6c50c39b569180766fe0f94ebf67bf994c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:02:12 +0000
Subject: [PATCH 56/94] fix: convert unsigned integers beyond the integer range
 to numbers instead of negative integers

---
 vals/coding.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/vals/coding.go b/vals/coding.go
index 2993a6f..e097a2e 100644
--- a/vals/coding.go
+++ b/vals/coding.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"encoding/json"
 	"fmt"
+	"math"
 )
 
 // ConvertDecoded converts an interface that has been decoded into standard go types to a Value
@@ -20,6 +21,9 @@ func ConvertDecoded(d interface{}) (Value, error) {
 	case uint32:
 		return Integer(v), nil
 	case uint64:
+		if v > math.MaxInt64 {
+			return Number(v), nil
+		}
 		return Integer(v), nil
 	case float64:
 		return Number(v), nil
-- 
2.43.0


From 3ea583d68a9ccd5c973757b83ec50310309317f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:02:15 +0000
Subject: [PATCH 57/94] fix: compare arrays and objects by content: equal
 values were unequal if converted rather than decoded

---
 vals/compare.go | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/vals/compare.go b/vals/compare.go
index e9a43ff..e0d467f 100644
--- a/vals/compare.go
+++ b/vals/compare.go
@@ -4,7 +4,6 @@ import (
 	"bytes"
 	"fmt"
 	"math"
-	"reflect"
 )
 
 // Equal checks if two Values are the same
@@ -13,8 +12,28 @@ func Equal(a, b Value) bool {
 		return false
 	}
 	switch a.Type() {
-	case TypeObject, TypeArray:
-		return reflect.DeepEqual(a, b)
+	case TypeObject:
+		keys := a.Keys()
+		if len(keys) != len(b.Keys()) {
+			return false
+		}
+		for _, key := range keys {
+			av, bv := a.MapIndex(key), b.MapIndex(key)
+			if av == nil || bv == nil || !Equal(av, bv) {
+				return false
+			}
+		}
+		return true
+	case TypeArray:
+		if a.Len() != b.Len() {
+			return false
+		}
+		for i := 0; i < a.Len(); i++ {
+			if !Equal(a.Index(i), b.Index(i)) {
+				return false
+			}
+		}
+		return true
 	case TypeNumber:
 		return a.Number() == b.Number()
 	case TypeInteger:
-- 
2.43.0


From 4f28b48ad755f5b61bda92d7ec16a7b0a7056f09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:05:25 +0000
Subject: [PATCH 58/94] fix: name the right entry in validation errors beyond
 the first five thousand entries

---
 validate/data.go | 33 +++++++++++++++++++++++++++++----
 1 file changed, 29 insertions(+), 4 deletions(-)

diff --git a/validate/data.go b/validate/data.go
index f4071cc..36313c0 100644
--- a/validate/data.go
+++ b/validate/data.go
@@ -4,6 +4,8 @@ import (
 	"context"
 	"encoding/json"
 	"fmt"
+	"strconv"
+	"strings"
 
 	"github.com/qri-io/dataset"
 	"github.com/qri-io/dataset/dsio"
@@ -12,7 +14,7 @@ import (
 
 const batchSize = 5000
 
-func flushBatch(ctx context.Context, buf *dsio.EntryBuffer, st *dataset.Structure, jsch *jsonschema.Schema, errs *[]jsonschema.KeyError) error {
+func flushBatch(ctx context.Context, buf *dsio.EntryBuffer, st *dataset.Structure, jsch *jsonschema.Schema, offset int, errs *[]jsonschema.KeyError) error {
 	if len(buf.Bytes()) == 0 {
 		return nil
 	}
@@ -26,11 +28,31 @@ func flushBatch(ctx context.Context, buf *dsio.EntryBuffer, st *dataset.Structur
 		return fmt.Errorf("error parsing JSON bytes: %s", err.Error())
 	}
 	validationState := jsch.Validate(ctx, doc)
-	*errs = append(*errs, *validationState.Errs...)
+	for _, keyErr := range *validationState.Errs {
+		if _, ok := doc.([]interface{}); ok {
+			keyErr.PropertyPath = offsetIndex(keyErr.PropertyPath, offset)
+		}
+		*errs = append(*errs, keyErr)
+	}
 
 	return nil
 }
 
+// offsetIndex adds the number of entries before a batch to the entry index a
+// property path within the batch starts with
+func offsetIndex(path string, offset int) string {
+	parts := strings.SplitN(path, "/", 3)
+	if len(parts) < 2 {
+		return path
+	}
+	i, err := strconv.Atoi(parts[1])
+	if err != nil {
+		return path
+	}
+	parts[1] = strconv.Itoa(i + offset)
+	return strings.Join(parts, "/")
+}
+
 // EntryReader consumes a reader & returns any validation errors present
 // TODO - refactor this to wrap a reader & return a struct that gives an
 // error or nil on each entry read.
@@ -44,6 +66,8 @@ func EntryReader(r dsio.EntryReader) ([]jsonschema.KeyError, error) {
 	}
 
 	valErrors := []jsonschema.KeyError{}
+	// number of entries in batches already flushed
+	flushed := 0
 
 	buf, err := dsio.NewEntryBuffer(&dataset.Structure{
 		Format: "json",
@@ -59,10 +83,11 @@ func EntryReader(r dsio.EntryReader) ([]jsonschema.KeyError, error) {
 		}
 
 		if i%batchSize == 0 {
-			flushErr := flushBatch(ctx, buf, st, jsch, &valErrors)
+			flushErr := flushBatch(ctx, buf, st, jsch, flushed, &valErrors)
 			if flushErr != nil {
 				return flushErr
 			}
+			flushed = i
 			var bufErr error
 			buf, bufErr = dsio.NewEntryBuffer(&dataset.Structure{
 				Format: "json",
@@ -85,7 +110,7 @@ func EntryReader(r dsio.EntryReader) ([]jsonschema.KeyError, error) {
 		return nil, fmt.Errorf("error reading values: %s", err.Error())
 	}
 
-	if err := flushBatch(ctx, buf, st, jsch, &valErrors); err != nil {
+	if err := flushBatch(ctx, buf, st, jsch, flushed, &valErrors); err != nil {
 		return nil, err
 	}
 
-- 
2.43.0


From 2f0f00801c627be8a8303210a51ed0b18964d652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:05:49 +0000
Subject: [PATCH 59/94] fix: limit commit titles to 100 characters as
 documented, not 100 bytes

---
 validate/dataset.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/validate/dataset.go b/validate/dataset.go
index 6f41d72..d60d649 100644
--- a/validate/dataset.go
+++ b/validate/dataset.go
@@ -2,6 +2,7 @@ package validate
 
 import (
 	"fmt"
+	"unicode/utf8"
 
 	"github.com/qri-io/dataset"
 	"github.com/qri-io/jsonschema"
@@ -42,8 +43,8 @@ func Commit(cm *dataset.Commit) error {
 	if cm.Title == "" {
 		// return fmt.Errorf("title is required")
 
-	} else if len(cm.Title) > 100 {
-		return fmt.Errorf("title is too long. %d length exceeds 100 character limit", len(cm.Title))
+	} else if n := utf8.RuneCountInString(cm.Title); n > 100 {
+		return fmt.Errorf("title is too long. %d length exceeds 100 character limit", n)
 	}
 
 	return nil
-- 
2.43.0


From bf9e49c54acc192e327ff2cc0123be22eb6dad39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:22 +0000
Subject: [PATCH 60/94] fix: report the frequencies of merged bins as counts:
 they were negative

---
 dsstats/histosketch/histosketch.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsstats/histosketch/histosketch.go b/dsstats/histosketch/histosketch.go
index 260fb0c..8db623f 100644
--- a/dsstats/histosketch/histosketch.go
+++ b/dsstats/histosketch/histosketch.go
@@ -403,7 +403,7 @@ func (h *Sketch) Read() ([]float64, []float64) {
 	histogram := make([]float64, len(h.cs))
 	for i := 0; i < len(h.cs); i++ {
 		bins[i] = h.cs[i].p
-		histogram[i] = h.cs[i].m
+		histogram[i] = math.Abs(h.cs[i].m)
 	}
 	bins[len(h.cs)] = h.max + 1
 	return bins, histogram
-- 
2.43.0


From 5366db9ef5b0c9361d860c93e7a9bc846fa86fa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:25 +0000
Subject: [PATCH 61/94] fix: count the values of merged bins when decoding a
 sketch

---
 dsstats/histosketch/histosketch.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsstats/histosketch/histosketch.go b/dsstats/histosketch/histosketch.go
index 8db623f..5780509 100644
--- a/dsstats/histosketch/histosketch.go
+++ b/dsstats/histosketch/histosketch.go
@@ -272,7 +272,7 @@ func (h *Sketch) UnmarshalBinary(data []byte) error {
 			return err
 		}
 		h.cs = append(h.cs, c)
-		h.count += c.m
+		h.count += math.Abs(c.m)
 	}
 	// Read min and max.
 	_, err = fmt.Fscanln(b, &h.min, &h.max)
-- 
2.43.0


From 52da50cfccbfc2e264843ac03131b0fae9c3a2be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:35:13 +0000
Subject: [PATCH 62/94] fix: count all values of an exact bin in ranks beyond
 it: the rank fell right after the bin

---
 dsstats/histosketch/histosketch.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/dsstats/histosketch/histosketch.go b/dsstats/histosketch/histosketch.go
index 5780509..5b09450 100644
--- a/dsstats/histosketch/histosketch.go
+++ b/dsstats/histosketch/histosketch.go
@@ -173,6 +173,11 @@ func (h Sketch) Sum(p float64) float64 {
 	if ci.m > 0 && (cj.m > 0 || ci.p == p) {
 		return s + ci.m
 	}
+	if ci.m > 0 {
+		// All of an exact centroid's values are at its point, none are spread
+		// between the two centroids.
+		s, ci.m = s+ci.m, 0
+	}
 	mi, mj := math.Abs(ci.m), math.Abs(cj.m)
 	mb := mi + (mj-mi)*(p-ci.p)/(cj.p-ci.p)
 	return s + mi/2.0 + (mi+mb)*(p-ci.p)/2.0/(cj.p-ci.p)
-- 
2.43.0


From ab497540665f4e00329e3613a4c73ef13afafb69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:36:05 +0000
Subject: [PATCH 63/94] fix: no panic when adding to a sketch decoded from an
 empty one, and keep the bin limit of the sketch decoded into

---
 dsstats/histosketch/histosketch.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/dsstats/histosketch/histosketch.go b/dsstats/histosketch/histosketch.go
index 5b09450..191c9a8 100644
--- a/dsstats/histosketch/histosketch.go
+++ b/dsstats/histosketch/histosketch.go
@@ -267,7 +267,16 @@ func (h *Sketch) UnmarshalBinary(data []byte) error {
 	if err != nil {
 		return err
 	}
-	h.cs = make([]centroid, 0, num+1)
+	// Keep the receiver's number of centroids if it's larger, there must be at
+	// least one.
+	size := num + 1
+	if cap(h.cs) > size {
+		size = cap(h.cs)
+	}
+	if size < 2 {
+		size = 2
+	}
+	h.cs = make([]centroid, 0, size)
 	// Read all centroids.
 	h.count = 0.0
 	for i := 0; i < num; i++ {
-- 
2.43.0


From a2bb2993185827c66ebbf47cf239b07f21ec83fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:36:08 +0000
Subject: [PATCH 64/94] fix: report an impossible number of bins in an encoded
 sketch instead of panicking

---
 dsstats/histosketch/histosketch.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dsstats/histosketch/histosketch.go b/dsstats/histosketch/histosketch.go
index 191c9a8..c2ce998 100644
--- a/dsstats/histosketch/histosketch.go
+++ b/dsstats/histosketch/histosketch.go
@@ -267,6 +267,9 @@ func (h *Sketch) UnmarshalBinary(data []byte) error {
 	if err != nil {
 		return err
 	}
+	if num < 0 || num > len(data) {
+		return fmt.Errorf("Invalid number of centroids '%v'", num)
+	}
 	// Keep the receiver's number of centroids if it's larger, there must be at
 	// least one.
 	size := num + 1
-- 
2.43.0


From 6e3ff062437589d67cb92ded420a0db77c31d654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:37:33 +0000
Subject: [PATCH 65/94] fix: keep the exact minimum and maximum and the
 inexactness of bins when merging sketches

---
 dsstats/histosketch/histosketch.go | 28 +++++++++++++++++++---------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/dsstats/histosketch/histosketch.go b/dsstats/histosketch/histosketch.go
index c2ce998..b86bb7a 100644
--- a/dsstats/histosketch/histosketch.go
+++ b/dsstats/histosketch/histosketch.go
@@ -94,24 +94,32 @@ func (h *Sketch) AddMany(value float64, count int64) {
 	if value > h.max {
 		h.max = value
 	}
+	h.add(centroid{value, float64(count)})
+}
+
+// add a centroid to the Histogram, merging centroids if there are too many.
+func (h *Sketch) add(c centroid) {
+	h.count += math.Abs(c.m)
 
-	// Find the index k in the sorted list of centroids where (value, count) belongs.
-	k := sort.Search(len(h.cs), func(i int) bool { return h.cs[i].p >= value })
-	if k < len(h.cs) && h.cs[k].p == value {
+	// Find the index k in the sorted list of centroids where c belongs.
+	k := sort.Search(len(h.cs), func(i int) bool { return h.cs[i].p >= c.p })
+	if k < len(h.cs) && h.cs[k].p == c.p {
 		// There's an exact match for the value. Just merge the counts and return.
-		h.cs[k].m += math.Copysign(1.0, h.cs[k].m) * float64(count)
-		h.count += float64(count)
+		if h.cs[k].m > 0 && c.m > 0 {
+			h.cs[k].m += c.m
+		} else {
+			h.cs[k].m = -(math.Abs(h.cs[k].m) + math.Abs(c.m))
+		}
 		return
 	}
 
 	// Move everything starting at index k up one slot in the array, insert the
-	// new centroid and update the total sum of all centroid counts.
+	// new centroid.
 	h.cs = append(h.cs, centroid{0, 0})
 	for i := len(h.cs) - 1; i > k; i-- {
 		h.cs[i] = h.cs[i-1]
 	}
-	h.cs[k] = centroid{value, float64(count)}
-	h.count += float64(count)
+	h.cs[k] = c
 	if len(h.cs) < cap(h.cs) {
 		// No need to merge any centroids, we're not at capacity yet.
 		return
@@ -139,8 +147,10 @@ func (h *Sketch) AddMany(value float64, count int64) {
 // Merge merges two Sketches together.
 func (h *Sketch) Merge(x Sketch) {
 	for _, c := range x.cs {
-		h.AddMany(c.p, int64(math.Abs(c.m)))
+		h.add(c)
 	}
+	h.min = math.Min(h.min, x.min)
+	h.max = math.Max(h.max, x.max)
 }
 
 // Gets the (i-1)-st and ith centroids. If i is 0, fake out the (i-1)-st with
-- 
2.43.0


From 170f77202aaa859116c47144288b07feaa8430f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:34 +0000
Subject: [PATCH 66/94] fix: keep merged bins between the values they merge:
 rounding could move them out of order or beyond the maximum

---
 dsstats/histosketch/histosketch.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dsstats/histosketch/histosketch.go b/dsstats/histosketch/histosketch.go
index b86bb7a..97962a7 100644
--- a/dsstats/histosketch/histosketch.go
+++ b/dsstats/histosketch/histosketch.go
@@ -46,7 +46,9 @@ type centroid struct {
 
 func (c *centroid) Merge(d centroid) {
 	s := math.Abs(c.m) + math.Abs(d.m)
-	c.p = (c.p*math.Abs(c.m) + d.p*math.Abs(d.m)) / s
+	p := (c.p*math.Abs(c.m) + d.p*math.Abs(d.m)) / s
+	// Rounding must not move the mean out of the range of the two values.
+	c.p = math.Min(math.Max(p, math.Min(c.p, d.p)), math.Max(c.p, d.p))
 	c.m = -s
 }
 
-- 
2.43.0


From 36eb619d278ea255cc1f5cc7156400f3554386c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:40 +0000
Subject: [PATCH 67/94] fix: keep the bins of a sketch made from a sample
 within the sample

---
 dsstats/histosketch/histosketch.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dsstats/histosketch/histosketch.go b/dsstats/histosketch/histosketch.go
index 97962a7..e53a5d7 100644
--- a/dsstats/histosketch/histosketch.go
+++ b/dsstats/histosketch/histosketch.go
@@ -401,10 +401,12 @@ func NewFromSample(sample []float64, n int) *Sketch {
 		start := b[i][centroid]
 		sum := 0.0
 		count := float64(i - start + 1)
+		low, high := sample[start], sample[i]
 		for ; i >= start; i-- {
 			sum += sample[i]
 		}
-		p := sum / count
+		// Rounding must not move the mean out of the range of the values.
+		p := math.Min(math.Max(sum/count, low), high)
 		h.cs[centroid].p = p
 		// Need to negate counts of centroids with counts > 1
 		// for compatibility with the behavior of the rest of
-- 
2.43.0


From bb3b67e9254ef5b5f655b363ca0d3a4c74cee1fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:44:11 +0000
Subject: [PATCH 68/94] fix: closing a stats accumulator again no longer
 divides the mean again

---
 dsstats/stats.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dsstats/stats.go b/dsstats/stats.go
index f774c78..2c255e2 100644
--- a/dsstats/stats.go
+++ b/dsstats/stats.go
@@ -301,6 +301,7 @@ type numericAcc struct {
 	count           int
 	min             float64
 	max             float64
+	sum             float64
 	mean            float64
 	median          float64
 	dividers        []float64
@@ -346,7 +347,7 @@ func (acc *numericAcc) Write(e dsio.Entry) {
 
 	acc.histogramSketch.Add(v)
 
-	acc.mean += v
+	acc.sum += v
 	acc.count++
 	if v > acc.max {
 		acc.max = v
@@ -387,7 +388,7 @@ func (acc *numericAcc) Map() map[string]interface{} {
 // Close finalizes the accumulator
 func (acc *numericAcc) Close() {
 	// finalize avg
-	acc.mean = acc.mean / float64(acc.count)
+	acc.mean = acc.sum / float64(acc.count)
 	acc.dividers, acc.histogram = acc.histogramSketch.Read()
 	acc.median = acc.histogramSketch.Median()
 }
-- 
2.43.0


From 16454b4f354d1623c91ddc6fb4e99a9f2ba5bd37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:44:13 +0000
Subject: [PATCH 69/94] fix: report the minimum, maximum and median of numbers
 beyond the integer range

---
 dsstats/stats.go | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/dsstats/stats.go b/dsstats/stats.go
index 2c255e2..25e8870 100644
--- a/dsstats/stats.go
+++ b/dsstats/stats.go
@@ -3,6 +3,7 @@ package dsstats
 
 import (
 	"fmt"
+	"math"
 	"sort"
 
 	"github.com/axiomhq/hyperloglog"
@@ -290,10 +291,9 @@ func (acc *arrayAcc) Close() {
 }
 
 const (
-	maxUint  = ^uint(0)
-	maxFloat = float64(maxUint >> 1)
-	maxInt   = int(maxUint >> 1)
-	minInt   = -maxInt - 1
+	maxUint = ^uint(0)
+	maxInt  = int(maxUint >> 1)
+	minInt  = -maxInt - 1
 )
 
 type numericAcc struct {
@@ -313,10 +313,11 @@ var _ accumulator = (*numericAcc)(nil)
 
 func newNumericAcc(typ string) *numericAcc {
 	return &numericAcc{
-		typ:    typ,
-		max:    float64(minInt),
-		min:    float64(maxInt),
-		median: maxFloat,
+		typ: typ,
+		max: math.Inf(-1),
+		min: math.Inf(1),
+		// not a number until calculated
+		median: math.NaN(),
 		// use histogram to accumulate values
 		histogram: []float64{},
 		// sketch implementation for approximate histogram calculation
@@ -371,7 +372,7 @@ func (acc *numericAcc) Map() map[string]interface{} {
 		"max":   acc.max,
 	}
 
-	if acc.median != maxFloat {
+	if !math.IsNaN(acc.median) {
 		m["median"] = acc.median
 	}
 
-- 
2.43.0


From 0e9e42235c7684f43321b687cce31d6c7df3f40e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:44:31 +0000
Subject: [PATCH 70/94] fix: calculate the statistics of columns that start
 with a null from their other values

---
 dsstats/stats.go | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/dsstats/stats.go b/dsstats/stats.go
index 25e8870..2e828cd 100644
--- a/dsstats/stats.go
+++ b/dsstats/stats.go
@@ -141,9 +141,7 @@ func (r *Accumulator) Structure() *dataset.Structure {
 
 // WriteEntry adds one row of structured data to accumulated stats
 func (r *Accumulator) WriteEntry(ent dsio.Entry) error {
-	if r.stats == nil {
-		r.stats = newAccumulator(ent.Value)
-	}
+	r.stats = accumulatorFor(r.stats, ent.Value)
 	r.stats.Write(ent)
 	return nil
 }
@@ -184,6 +182,20 @@ func newAccumulator(val interface{}) accumulator {
 	}
 }
 
+// accumulatorFor gives the accumulator to write a value to: acc once it exists,
+// except that values other than null decide the type of what started with nulls
+func accumulatorFor(acc accumulator, val interface{}) accumulator {
+	if acc == nil {
+		return newAccumulator(val)
+	}
+	if _, isNull := acc.(*nullAcc); isNull && val != nil {
+		if next := newAccumulator(val); next.Type() != acc.Type() {
+			return next
+		}
+	}
+	return acc
+}
+
 type objectAcc struct {
 	children map[string]accumulator
 }
@@ -216,9 +228,7 @@ func (acc *objectAcc) Type() string { return "object" }
 func (acc *objectAcc) Write(e dsio.Entry) {
 	if mapEntry, ok := e.Value.(map[string]interface{}); ok {
 		for key, val := range mapEntry {
-			if _, ok := acc.children[key]; !ok {
-				acc.children[key] = newAccumulator(val)
-			}
+			acc.children[key] = accumulatorFor(acc.children[key], val)
 			acc.children[key].Write(dsio.Entry{Key: key, Value: val})
 		}
 	}
@@ -266,8 +276,9 @@ func (acc *arrayAcc) Write(e dsio.Entry) {
 	if arrayEntry, ok := e.Value.([]interface{}); ok {
 		for i, val := range arrayEntry {
 			if len(acc.children) == i {
-				acc.children = append(acc.children, newAccumulator(val))
+				acc.children = append(acc.children, nil)
 			}
+			acc.children[i] = accumulatorFor(acc.children[i], val)
 			acc.children[i].Write(dsio.Entry{Index: i, Value: val})
 		}
 	}
-- 
2.43.0


From 4809569e3bb78e8db886591d69427f637258645b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:55:04 +0000
Subject: [PATCH 71/94] fix: diffs of components with equal paths report no
 change instead of panicking

---
 dsdiff/dsdiff.go | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/dsdiff/dsdiff.go b/dsdiff/dsdiff.go
index 8acbe3f..db8a70f 100644
--- a/dsdiff/dsdiff.go
+++ b/dsdiff/dsdiff.go
@@ -17,9 +17,23 @@ type SubDiff struct {
 	a, b []byte
 }
 
+// Deltas gives the changes of the SubDiff, none if the contents were not compared because
+// they are known to be equal
+func (d *SubDiff) Deltas() []jdiff.Delta {
+	if d == nil || d.Diff == nil {
+		return []jdiff.Delta{}
+	}
+	return d.Diff.Deltas()
+}
+
+// Modified returns true if there is at least one change
+func (d *SubDiff) Modified() bool {
+	return len(d.Deltas()) > 0
+}
+
 // MarshalJSON marshals the slice of diffs from the SubDiff
 func (d *SubDiff) MarshalJSON() ([]byte, error) {
-	return json.Marshal(d.Diff.Deltas())
+	return json.Marshal(d.Deltas())
 }
 
 // SummarizeToString outputs a substring in a one of a few formats
-- 
2.43.0


From 53f84a2e6d17687accdd4bbd91d8f83de36ae217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:57:20 +0000
Subject: [PATCH 72/94] fix: column names of distinct positions never collide

---
 structure.go | 17 ++---------------
 1 file changed, 2 insertions(+), 15 deletions(-)

diff --git a/structure.go b/structure.go
index 257695a..833dd9c 100644
--- a/structure.go
+++ b/structure.go
@@ -344,21 +344,8 @@ const b26chars = "abcdefghijklmnopqrstuvwxyz"
 // to letters, using repeating characters to handle values
 // greater than 26
 func base26(d int) (s string) {
-	var cols []int
-	if d == 0 {
-		return "a"
-	}
-
-	for d != 0 {
-		cols = append(cols, d%26)
-		d = d / 26
-	}
-	for i := len(cols) - 1; i >= 0; i-- {
-		if i != 0 && cols[i] > 0 {
-			s += string(b26chars[cols[i]-1])
-		} else {
-			s += string(b26chars[cols[i]])
-		}
+	for d++; d > 0; d = (d - 1) / 26 {
+		s = string(b26chars[(d-1)%26]) + s
 	}
 	return s
 }
-- 
2.43.0


From f1747596b42237de1fbc6f558969b8cdbe8a5b8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:57:42 +0000
Subject: [PATCH 73/94] fix: a column without types can be encoded

---
 tabular/tabular.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tabular/tabular.go b/tabular/tabular.go
index 125aea3..35b8f99 100644
--- a/tabular/tabular.go
+++ b/tabular/tabular.go
@@ -91,7 +91,7 @@ func (ct ColType) HasType(t string) bool {
 func (ct ColType) MarshalJSON() ([]byte, error) {
 	switch len(ct) {
 	case 0:
-		return nil, nil
+		return []byte("[]"), nil
 	case 1:
 		return json.Marshal(ct[0])
 	default:
-- 
2.43.0


From 5fd3de9a9266198eef94e67f8c5621fd277f4dab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:00:17 +0000
Subject: [PATCH 74/94] fix: a readme of exactly the preview limit is not
 marked as cut

---
 preview/preview.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/preview/preview.go b/preview/preview.go
index 328ba45..9dd9e6d 100644
--- a/preview/preview.go
+++ b/preview/preview.go
@@ -63,13 +63,13 @@ func Create(ctx context.Context, ds *dataset.Dataset) (*dataset.Dataset, error)
 		f := ds.Readme.ScriptFile()
 		tr := io.TeeReader(f, buf)
 
-		content, err := ioutil.ReadAll(io.LimitReader(tr, MaxReadmePreviewBytes))
+		content, err := ioutil.ReadAll(io.LimitReader(tr, MaxReadmePreviewBytes+1))
 		if err != nil {
 			log.Debugw("Reading Readme", "err", err.Error())
 			return nil, err
 		}
-		if len(content) >= MaxReadmePreviewBytes {
-			content = append(content, []byte("...")...)
+		if len(content) > MaxReadmePreviewBytes {
+			content = append(content[:MaxReadmePreviewBytes], []byte("...")...)
 		}
 		ds.Readme.Text = string(content)
 
-- 
2.43.0


From 2d23186bf24072e46581ec268480b05c80c3b687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:00:52 +0000
Subject: [PATCH 75/94] fix: previewing a body without a structure is an error,
 not a panic

---
 preview/preview.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/preview/preview.go b/preview/preview.go
index 9dd9e6d..4a46215 100644
--- a/preview/preview.go
+++ b/preview/preview.go
@@ -77,6 +77,10 @@ func Create(ctx context.Context, ds *dataset.Dataset) (*dataset.Dataset, error)
 	}
 
 	if ds.BodyFile() != nil {
+		if ds.Structure == nil {
+			log.Debug("Create: body without a structure")
+			return nil, fmt.Errorf("structure is required to preview a body")
+		}
 		st := &dataset.Structure{
 			Format: "json",
 			Schema: ds.Structure.Schema,
-- 
2.43.0


From 0ce148f0f346c7fa721f13cad838770a08693dd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:03:13 +0000
Subject: [PATCH 76/94] fix: rendering a page of a body leaves the whole body
 readable

---
 dsviz/render.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/dsviz/render.go b/dsviz/render.go
index 8a37a70..2cb50e0 100644
--- a/dsviz/render.go
+++ b/dsviz/render.go
@@ -161,8 +161,15 @@ func bodyEntries(ds *dataset.Dataset, offset, limit int) (interface{}, error) {
 
 	// load all body data
 	bodyFile := ds.BodyFile()
+	if bodyFile == nil {
+		return nil, dataset.ErrNoBody
+	}
 	bodyBytesBuf := &bytes.Buffer{}
 	tr := io.TeeReader(bodyFile, bodyBytesBuf)
+	defer func() {
+		// restore body file: the bytes read so far, followed by the rest
+		ds.SetBodyFile(qfs.NewMemfileReader(bodyFile.FileName(), io.MultiReader(bodyBytesBuf, bodyFile)))
+	}()
 	rr, err := dsio.NewEntryReader(ds.Structure, tr)
 	if err != nil {
 		return nil, fmt.Errorf("error allocating data reader: %s", err)
@@ -181,11 +188,6 @@ func bodyEntries(ds *dataset.Dataset, offset, limit int) (interface{}, error) {
 		return nil, err
 	}
 
-	defer func() {
-		// restore body file
-		ds.SetBodyFile(qfs.NewMemfileReader(bodyFile.FileName(), bodyBytesBuf))
-	}()
-
 	return bodyEntries, nil
 }
 
-- 
2.43.0


From 2b17db6fc8c2943937a57e1246aa8d1abe3d9272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:03:48 +0000
Subject: [PATCH 77/94] fix: decompressors are closed before a rendered body is
 restored

---
 dsviz/render.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dsviz/render.go b/dsviz/render.go
index 2cb50e0..969b131 100644
--- a/dsviz/render.go
+++ b/dsviz/render.go
@@ -174,6 +174,8 @@ func bodyEntries(ds *dataset.Dataset, offset, limit int) (interface{}, error) {
 	if err != nil {
 		return nil, fmt.Errorf("error allocating data reader: %s", err)
 	}
+	// decompressors may read ahead until they're closed
+	defer rr.Close()
 
 	if offset >= 0 && limit >= 0 {
 		rr = &dsio.PagedReader{
-- 
2.43.0


From 5e86f8cff16f5eba14d2a0bbd3a1b22e085645d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:04:18 +0000
Subject: [PATCH 78/94] fix: rendering without an open template is an error,
 not a panic

---
 dsviz/render.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dsviz/render.go b/dsviz/render.go
index 969b131..121347b 100644
--- a/dsviz/render.go
+++ b/dsviz/render.go
@@ -37,6 +37,9 @@ var PredefinedHTMLTemplates map[string]string
 
 func renderHTML(ds *dataset.Dataset) (qfs.File, error) {
 	script := ds.Viz.ScriptFile()
+	if script == nil {
+		return nil, fmt.Errorf("viz script file is not open")
+	}
 	// tee the viz file to avoid losing script data
 	vizScriptBuf := &bytes.Buffer{}
 	tr := io.TeeReader(script, vizScriptBuf)
-- 
2.43.0


From de0a81276cd700068bacf98ea3eb7b38561ca388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:05:48 +0000
Subject: [PATCH 79/94] fix: converting a body closes its reader, so nothing
 reads on in the background

---
 dsio/dsio.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dsio/dsio.go b/dsio/dsio.go
index 3fe044b..a183e9c 100644
--- a/dsio/dsio.go
+++ b/dsio/dsio.go
@@ -212,6 +212,8 @@ func ConvertFile(file qfs.File, in, out *dataset.Structure, limit, offset int, a
 		err = fmt.Errorf("creating entry reader: %w", err)
 		return
 	}
+	// decompressors may read ahead until they're closed
+	defer rr.Close()
 
 	if !all {
 		rr = &PagedReader{
-- 
2.43.0


From cb9d15eecd24d3ee52bcd0a385bc2eaa01284f7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:11:23 +0000
Subject: [PATCH 80/94] fix: generated booleans were always true

---
 generate/value.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/generate/value.go b/generate/value.go
index 33df384..bada811 100644
--- a/generate/value.go
+++ b/generate/value.go
@@ -75,7 +75,7 @@ func (g *ValueGenerator) Int() int {
 
 // Bool yields a random coin flip
 func (g *ValueGenerator) Bool() bool {
-	return g.Rand.Intn(1)%2 == 0
+	return g.Rand.Intn(2) == 0
 }
 
 // Object creates an empty object
-- 
2.43.0


From 8f8091e66f34f93b12615bb3b6704b6743bdcbfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:11:40 +0000
Subject: [PATCH 81/94] fix: CSV options turned into a map were refused when
 read back if they had a separator; a separator outside ASCII was refused

---
 data_format_config.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/data_format_config.go b/data_format_config.go
index 0256bc6..64c7294 100644
--- a/data_format_config.go
+++ b/data_format_config.go
@@ -2,6 +2,7 @@ package dataset
 
 import (
 	"fmt"
+	"unicode/utf8"
 )
 
 // FormatConfig is the interface for data format configurations
@@ -52,10 +53,11 @@ func NewCSVOptions(opts map[string]interface{}) (*CSVOptions, error) {
 
 	if opts["separator"] != nil {
 		if sep, ok := opts["separator"].(string); ok {
-			if len(sep) != 1 {
+			r, size := utf8.DecodeRuneInString(sep)
+			if r == utf8.RuneError || size != len(sep) {
 				return nil, fmt.Errorf("separator must be a single character")
 			}
-			o.Separator = rune(sep[0])
+			o.Separator = r
 		} else {
 			return nil, fmt.Errorf("invalid separator value: %v", opts["separator"])
 		}
@@ -111,7 +113,7 @@ func (o *CSVOptions) Map() map[string]interface{} {
 		opt["variadicFields"] = o.VariadicFields
 	}
 	if o.Separator != rune(0) {
-		opt["separator"] = o.Separator
+		opt["separator"] = string(o.Separator)
 	}
 	return opt
 }
-- 
2.43.0


From 90b48e6eab8e09a2dab976f776e9ad9e26279ad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:11:45 +0000
Subject: [PATCH 82/94] fix: kind identifiers without a colon between type and
 version passed as valid

---
 kind.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kind.go b/kind.go
index 570a966..9386dc0 100644
--- a/kind.go
+++ b/kind.go
@@ -44,7 +44,7 @@ func (k Kind) String() string {
 
 // Valid checks to see if a kind string is valid
 func (k Kind) Valid() error {
-	if len(k) < 4 {
+	if len(k) < 4 || k[2] != ':' {
 		return fmt.Errorf("invalid kind: '%s'. kind must be in the form [type]:[version]", k.String())
 	}
 	return nil
-- 
2.43.0


From b2d0e59b49516f0fccfa724a02ac2ab7d8e68c30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:15:07 +0000
Subject: [PATCH 83/94] fix: dstest comparisons dropped transient values from
 the expected side only, reporting values differing only in transient fields
 as different

---
 dstest/compare.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/dstest/compare.go b/dstest/compare.go
index 4ff1529..3401c7d 100644
--- a/dstest/compare.go
+++ b/dstest/compare.go
@@ -27,7 +27,7 @@ func CompareDatasets(expect, got *dataset.Dataset, opts ...CompareOpts) string {
 
 	if cfg.dropTransients {
 		a.DropTransientValues()
-		a.DropTransientValues()
+		b.DropTransientValues()
 	}
 
 	return cmp.Diff(a, b, cmpopts.IgnoreUnexported(
@@ -75,7 +75,7 @@ func CompareCommits(expect, got *dataset.Commit, opts ...CompareOpts) string {
 
 	if cfg.dropTransients {
 		a.DropTransientValues()
-		a.DropTransientValues()
+		b.DropTransientValues()
 	}
 
 	return cmp.Diff(a, b, cmpopts.IgnoreUnexported(
@@ -98,7 +98,7 @@ func CompareMetas(expect, got *dataset.Meta, opts ...CompareOpts) string {
 
 	if cfg.dropTransients {
 		a.DropTransientValues()
-		a.DropTransientValues()
+		b.DropTransientValues()
 	}
 
 	return cmp.Diff(a, b, cmpopts.IgnoreUnexported(
@@ -121,7 +121,7 @@ func CompareStructures(expect, got *dataset.Structure, opts ...CompareOpts) stri
 
 	if cfg.dropTransients {
 		a.DropTransientValues()
-		a.DropTransientValues()
+		b.DropTransientValues()
 	}
 
 	return cmp.Diff(a, b, cmpopts.IgnoreUnexported(
-- 
2.43.0


From 6cc6e7e63b7b2266d08c30e8c7307788bdf9aab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:18:01 +0000
Subject: [PATCH 84/94] fix: structures whose format is spelled with a leading
 dot (.csv, .xlsx) were said not to require a tabular schema

---
 structure.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/structure.go b/structure.go
index 833dd9c..8d882bc 100644
--- a/structure.go
+++ b/structure.go
@@ -146,7 +146,8 @@ func (s *Structure) AddFileFormatExtensions(filename string) string {
 // RequiresTabularSchema returns true if the structure's specified data format
 // requires a JSON schema that describes a rectangular data shape
 func (s *Structure) RequiresTabularSchema() bool {
-	return s.Format == CSVDataFormat.String() || s.Format == XLSXDataFormat.String()
+	df := s.DataFormat()
+	return df == CSVDataFormat || df == XLSXDataFormat
 }
 
 // Abstract returns this structure instance in it's "Abstract" form
-- 
2.43.0


From d9412783e42bf8c5fcd7abd902203f9e65bcbd29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:18:05 +0000
Subject: [PATCH 85/94] fix: reading the body and scripts of a test case left
 the files open

---
 dstest/dstest.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dstest/dstest.go b/dstest/dstest.go
index 768e5cf..6ca7f68 100644
--- a/dstest/dstest.go
+++ b/dstest/dstest.go
@@ -276,6 +276,7 @@ func ReadBodyData(dir string) ([]byte, string, error) {
 	for _, df := range dataset.SupportedDataFormats() {
 		path := fmt.Sprintf("%s/body.%s", dir, df)
 		if f, err := os.Open(path); err == nil {
+			defer f.Close()
 			data, err := ioutil.ReadAll(f)
 			return data, fmt.Sprintf("body.%s", df), err
 		}
@@ -287,6 +288,7 @@ func ReadBodyData(dir string) ([]byte, string, error) {
 func ReadInputTransformScript(dir string) ([]byte, string, error) {
 	path := filepath.Join(dir, "transform.star")
 	if f, err := os.Open(path); err == nil {
+		defer f.Close()
 		data, err := ioutil.ReadAll(f)
 		return data, "transform.star", err
 	}
@@ -297,6 +299,7 @@ func ReadInputTransformScript(dir string) ([]byte, string, error) {
 func ReadInputVizScript(dir string) ([]byte, string, error) {
 	path := filepath.Join(dir, "template.html")
 	if f, err := os.Open(path); err == nil {
+		defer f.Close()
 		data, err := ioutil.ReadAll(f)
 		return data, "template.html", err
 	}
@@ -307,6 +310,7 @@ func ReadInputVizScript(dir string) ([]byte, string, error) {
 func ReadInputReadmeScript(dir string) ([]byte, string, error) {
 	path := filepath.Join(dir, "readme.md")
 	if f, err := os.Open(path); err == nil {
+		defer f.Close()
 		data, err := ioutil.ReadAll(f)
 		return data, "readme.md", err
 	}
-- 
2.43.0


From f570d54b8d421e0c1a9319c5dcf4a43ae3a0e05a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:18:09 +0000
Subject: [PATCH 86/94] fix: loading test cases from several goroutines wrote
 to a shared map without locking, which can crash the program

---
 dstest/dstest.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/dstest/dstest.go b/dstest/dstest.go
index 6ca7f68..7e9be0f 100644
--- a/dstest/dstest.go
+++ b/dstest/dstest.go
@@ -11,6 +11,7 @@ import (
 	"io/ioutil"
 	"os"
 	"path/filepath"
+	"sync"
 
 	logger "github.com/ipfs/go-log"
 	"github.com/jinzhu/copier"
@@ -77,7 +78,10 @@ func DatasetChecksum(ds *dataset.Dataset) string {
 	return hex.EncodeToString(sum[:])
 }
 
-var testCaseCache = make(map[string]TestCase)
+var (
+	testCaseCache     = make(map[string]TestCase)
+	testCaseCacheLock sync.Mutex
+)
 
 // BodyFile creates a new in-memory file from data & filename properties
 func (t TestCase) BodyFile() qfs.File {
@@ -255,7 +259,9 @@ func NewTestCaseFromDir(dir string) (tc TestCase, err error) {
 
 	preserve := TestCase{}
 	copier.Copy(&preserve, &tc)
+	testCaseCacheLock.Lock()
 	testCaseCache[dir] = preserve
+	testCaseCacheLock.Unlock()
 	return
 }
 
-- 
2.43.0


From 9508085d25c551839b869a3bdebc032dde2758fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:30:04 +0000
Subject: [PATCH 87/94] fix: calculating statistics never closed its reader:
 decompressors kept reading the body in the background

---
 dsstats/stats.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dsstats/stats.go b/dsstats/stats.go
index 2e828cd..d2fee04 100644
--- a/dsstats/stats.go
+++ b/dsstats/stats.go
@@ -45,6 +45,9 @@ func Calculate(ds *dataset.Dataset) (st *dataset.Stats, err error) {
 		return nil, err
 	}
 
+	// decompressors read on in the background until they are closed
+	defer r.Close()
+
 	return CalculateFromEntryReader(r)
 }
 
-- 
2.43.0


From 38d411b3338c886f55e9339a89797689317cecac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:34 +0000
Subject: [PATCH 88/94] fix: looking at or encoding metadata wrote to it, a
 data race when shared between goroutines

---
 meta.go | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/meta.go b/meta.go
index fe7644b..e8f1183 100644
--- a/meta.go
+++ b/meta.go
@@ -103,9 +103,6 @@ func NewMetaRef(path string) *Meta {
 
 // Meta gives access to additional metadata not covered by dataset metadata
 func (md *Meta) Meta() map[string]interface{} {
-	if md.meta == nil {
-		md.meta = map[string]interface{}{}
-	}
 	shallowCopy := map[string]interface{}{}
 	for key, val := range md.meta {
 		shallowCopy[key] = val
-- 
2.43.0


From 19c051b22ced4bd8361745982f069d9d4b010229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:38 +0000
Subject: [PATCH 89/94] fix: dsgen ignored --rows in the place its own usage
 gives, after the structure

---
 generate/dsgen/main.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/generate/dsgen/main.go b/generate/dsgen/main.go
index 1f1c1b4..8c3aa5f 100644
--- a/generate/dsgen/main.go
+++ b/generate/dsgen/main.go
@@ -37,6 +37,9 @@ func main() {
 		fmt.Println(help)
 		os.Exit(1)
 	}
+	// flags may follow the structure, flag.Parse stops before it
+	flag.CommandLine.Parse(args[1:])
+
 	if args[0] == "fixed" {
 		if err := writeFixedFile(rows, 0); err != nil {
 			fmt.Println(err)
-- 
2.43.0


From 8deca0629507a5e227ae2cf04eb7cb5cd2ffad11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:45 +0000
Subject: [PATCH 90/94] fix: dsgen ended with success when its output could not
 be written

---
 generate/dsgen/main.go | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/generate/dsgen/main.go b/generate/dsgen/main.go
index 8c3aa5f..f53e17d 100644
--- a/generate/dsgen/main.go
+++ b/generate/dsgen/main.go
@@ -78,11 +78,14 @@ func generateFile(structurePath string, lines int) error {
 		if err != nil {
 			return err
 		}
-		w.WriteEntry(ent)
+		if err := w.WriteEntry(ent); err != nil {
+			return err
+		}
+	}
+	if err := w.Close(); err != nil {
+		return err
 	}
-	w.Close()
-	gen.Close()
-	return nil
+	return gen.Close()
 }
 
 func writeFixedFile(lines, diffStart int) error {
@@ -108,5 +111,5 @@ func writeFixedFile(lines, diffStart int) error {
 	}
 
 	w.Flush()
-	return nil
+	return w.Error()
 }
-- 
2.43.0


From 98daf7565ca88a7431fe4ac7a80f459ccc70b000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:48:55 +0000
Subject: [PATCH 91/94] fix: refuse chunks of another type in an
 indefinite-length CBOR string

---
 dsio/cbor.go | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/dsio/cbor.go b/dsio/cbor.go
index df55617..8bf2caf 100644
--- a/dsio/cbor.go
+++ b/dsio/cbor.go
@@ -209,7 +209,7 @@ func (r *CBORReader) readStringKey() (string, error) {
 	}
 
 	if b == cborBdIndefiniteString {
-		buff, err := r.readChunks()
+		buff, err := r.readChunks(cborBaseString)
 		return string(buff), err
 	}
 
@@ -264,9 +264,9 @@ func (r *CBORReader) readValue() (interface{}, error) {
 	case cborBdFloat64:
 		return r.readFloatBytes(8)
 	case cborBdIndefiniteBytes:
-		return r.readChunks()
+		return r.readChunks(cborBaseBytes)
 	case cborBdIndefiniteString:
-		buff, err := r.readChunks()
+		buff, err := r.readChunks(cborBaseString)
 		if err != nil {
 			return nil, err
 		}
@@ -344,14 +344,18 @@ func (r *CBORReader) readIndefiniteSequenceBreak() bool {
 	return false
 }
 
-// readChunks reads the chunks of a string of indefinite length, up to its break
-func (r *CBORReader) readChunks() ([]byte, error) {
+// readChunks reads the chunks of a string of indefinite length, up to its break. base is
+// the type of the string, which all of its chunks must have
+func (r *CBORReader) readChunks(base byte) ([]byte, error) {
 	concat := bytes.Buffer{}
 	for !r.readIndefiniteSequenceBreak() {
 		b, err := r.rdr.ReadByte()
 		if err != nil {
 			return nil, err
 		}
+		if b&cborTypeMask != base {
+			return nil, fmt.Errorf("unexpected chunk in string of indefinite length: %v", b)
+		}
 		buff, err := r.readLengthPrefixedBytes(b)
 		if err != nil {
 			return nil, err
-- 
2.43.0


From b5f17580bfb110d5ee824cbf94d648810e6f59df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:54:10 +0000
Subject: [PATCH 92/94] fix: refuse to write keyed entries as NDJSON, which
 drops their keys and cannot be read back

---
 dsio/ndjson.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/dsio/ndjson.go b/dsio/ndjson.go
index 8aba530..8a1cfee 100644
--- a/dsio/ndjson.go
+++ b/dsio/ndjson.go
@@ -144,6 +144,15 @@ func NewNDJSONWriter(st *dataset.Structure, w io.Writer) (*NDJSONWriter, error)
 		return nil, err
 	}
 
+	// lines have no keys
+	tlt, err := GetTopLevelType(st)
+	if err != nil {
+		return nil, err
+	}
+	if tlt != "array" {
+		return nil, fmt.Errorf("NDJSON top level type must be 'array'")
+	}
+
 	w, close, err := maybeWrapCompressor(st, w)
 	if err != nil {
 		return nil, err
-- 
2.43.0


From 990b5520950c857acb5a8a867eb236fc3f48ba4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:07 +0000
Subject: [PATCH 93/94] fix: column titles detected for a CSV header with an
 operator such as <= changed randomly from one detection to the next

---
 detect/determineFields.go | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/detect/determineFields.go b/detect/determineFields.go
index dc2b255..dc2bbbf 100644
--- a/detect/determineFields.go
+++ b/detect/determineFields.go
@@ -61,6 +61,28 @@ type field struct {
 	Type  vals.Type `json:"type,omitempty"`
 }
 
+// titleOperators spells out multi-symbol operators. The varName package replaces
+// substrings in random (map) order, which turns "<=" into either "lte" or "lteq",
+// so operators are replaced up front, and varName is left with single symbols only
+var titleOperators = strings.NewReplacer(
+	"<>", "ne", "<=", "lte", ">=", "gte", "~=", "ne", "!=", "ne", "^=", "ne",
+)
+
+// titleSymbols are the single-symbol substitutions of the varName package
+var titleSymbols = map[string]string{
+	"=": "eq", "<": "lt", ">": "gt",
+	"%": "pct", "&": "and", "/": "per", "$": "usd",
+	"-": " ", "_": " ",
+	`\`: "", ".": "", "#": "", "?": "", "|": "", "*": "", ",": "", "(": "", ")": "", ":": "", ";": "", "'": "", `"`: "",
+}
+
+// columnTitle creates a column title from a header cell
+func columnTitle(cell string) string {
+	params := varName.NewNameParams(titleOperators.Replace(cell))
+	params.Substitutions = &titleSymbols
+	return varName.CreateVarNameFromParams(params)
+}
+
 // CSVSchema determines the field names and types of an io.Reader of CSV-formatted data, returning a json schema
 func CSVSchema(resource *dataset.Structure, data io.Reader) (schema map[string]interface{}, n int, err error) {
 	tr := dsio.NewTrackedReader(data)
@@ -93,7 +115,7 @@ func CSVSchema(resource *dataset.Structure, data io.Reader) (schema map[string]i
 
 	if possibleCsvHeaderRow(header) {
 		for i, f := range fields {
-			f.Title = varName.CreateVarNameFromString(trimLeadingSpace(header[i]))
+			f.Title = columnTitle(trimLeadingSpace(header[i]))
 			f.Type = vals.TypeUnknown
 		}
 		opt["headerRow"] = true
-- 
2.43.0


From a6b6344cc4bcae62caa4aae61826c41a8f740a8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:42 +0000
Subject: [PATCH 94/94] fix: zstd bodies cut inside the frame header, or whose
 source fails with io.ErrUnexpectedEOF before the first frame, read to a clean
 end

---
 compression/compression.go | 50 +++++++++++++++++++++++++++++++++++---
 1 file changed, 47 insertions(+), 3 deletions(-)

diff --git a/compression/compression.go b/compression/compression.go
index 23279a4..5eb5907 100644
--- a/compression/compression.go
+++ b/compression/compression.go
@@ -3,6 +3,7 @@
 package compression
 
 import (
+	"bytes"
 	"fmt"
 	"io"
 
@@ -82,11 +83,18 @@ func Decompressor(compressionFormat string, r io.Reader) (io.ReadCloser, error)
 
 	switch f {
 	case FmtZStandard:
+		src := &zstdSource{r: r}
+		if buf, ok := r.(*bytes.Buffer); ok {
+			// the decoder works on the bytes of a buffer
+			src.n = int64(buf.Len())
+		} else if r != nil {
+			r = src
+		}
 		rdr, err := zstd.NewReader(r)
 		if err != nil {
 			return nil, err
 		}
-		return zstdReadCloserShim{rdr}, nil
+		return zstdReadCloserShim{rdr, src}, nil
 	case FmtGZip:
 		return gzip.NewReader(r)
 	}
@@ -94,14 +102,50 @@ func Decompressor(compressionFormat string, r io.Reader) (io.ReadCloser, error)
 	return nil, fmt.Errorf("no available decompressor for %q format", f)
 }
 
+// minZstdFrame is the number of bytes up to which zstd's decoder mistakes a
+// stream that stops for one that ends, no complete frame is this short
+const minZstdFrame = 6
+
+// zstdSource keeps track of how a source of zstandard data ends
+type zstdSource struct {
+	r   io.Reader
+	n   int64
+	err error
+}
+
+func (s *zstdSource) Read(p []byte) (int, error) {
+	n, err := s.r.Read(p)
+	s.n += int64(n)
+	if err != nil && err != io.EOF {
+		s.err = err
+	}
+	return n, err
+}
+
 // small struct to compensate for zstd's decoder Close() method, which returns
 // no error. This breaks the io.ReadCloser interface. shim in an
 // error function with an error that will never occur
 type zstdReadCloserShim struct {
-	*zstd.Decoder
+	dec *zstd.Decoder
+	src *zstdSource
+}
+
+// Read reports the end of content only where the source ended after complete
+// frames, the decoder takes a source that fails with io.ErrUnexpectedEOF or
+// ends within the header of a frame for one that is complete
+func (d zstdReadCloserShim) Read(p []byte) (int, error) {
+	n, err := d.dec.Read(p)
+	if err == io.EOF {
+		if d.src.err != nil {
+			err = d.src.err
+		} else if d.src.n > 0 && d.src.n < minZstdFrame {
+			err = io.ErrUnexpectedEOF
+		}
+	}
+	return n, err
 }
 
 func (d zstdReadCloserShim) Close() error {
-	d.Decoder.Close()
+	d.dec.Close()
 	return nil
 }
-- 
2.43.0

