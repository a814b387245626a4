From f019a84505d6fdd427246bdfd41d1e3c64d68c3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:10 +0000
Subject: [PATCH 01/52] fix: lineproto: do not panic on an empty read while
 inflating

---
 lineproto/reader.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lineproto/reader.go b/lineproto/reader.go
index 153828a..ca41afb 100644
--- a/lineproto/reader.go
+++ b/lineproto/reader.go
@@ -75,7 +75,7 @@ func (r *bufReader) peek() error {
 }
 
 func (r *bufReader) ReadByte() (byte, error) {
-	if r.off >= len(r.buf) {
+	for r.off >= len(r.buf) { // a read may return no data and no error
 		if err := r.peek(); err != nil {
 			return 0, err
 		}
-- 
2.43.0


From 2f2b95736d1b457556505991770e9887525937b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:10 +0000
Subject: [PATCH 02/52] fix: lineproto: enforce the line limit on the last
 chunk of a line

---
 lineproto/reader.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lineproto/reader.go b/lineproto/reader.go
index ca41afb..15ebfcb 100644
--- a/lineproto/reader.go
+++ b/lineproto/reader.go
@@ -209,6 +209,9 @@ read:
 		} else if more {
 			continue
 		}
+		if r.maxLine > 0 && len(r.line) > r.maxLine {
+			return nil, errBufferExhausted
+		}
 
 		line := r.line
 		for _, fnc := range r.onLine {
-- 
2.43.0


From fa7b0e1d1ca2bc5153196a694e52b922731a39f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:10 +0000
Subject: [PATCH 03/52] fix: lineproto: keep the reader uncompressed when zlib
 cannot be enabled

---
 lineproto/reader.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/lineproto/reader.go b/lineproto/reader.go
index 15ebfcb..5c6701b 100644
--- a/lineproto/reader.go
+++ b/lineproto/reader.go
@@ -258,8 +258,6 @@ func (r *Reader) EnableZlib() error {
 	} else if r.zlibOn {
 		return errZlibAlreadyActive
 	}
-	r.zlibOn = true
-
 	if r.zlib != nil {
 		err := r.zlib.(zlib.Resetter).Reset(r.original, nil)
 		if err != nil {
@@ -279,6 +277,7 @@ func (r *Reader) EnableZlib() error {
 		r.compressed = newBufReader(r.zlib)
 	}
 	r.cur = r.compressed
+	r.zlibOn = true
 	return nil
 }
 
-- 
2.43.0


From b512dac2bf30a54c3a3a12302aeb0d0a38c87017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:10 +0000
Subject: [PATCH 04/52] fix: lineproto: do not treat huge binary sections as
 empty

---
 lineproto/reader.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lineproto/reader.go b/lineproto/reader.go
index 5c6701b..2ea1002 100644
--- a/lineproto/reader.go
+++ b/lineproto/reader.go
@@ -8,6 +8,7 @@ import (
 	"fmt"
 	"io"
 	"io/ioutil"
+	"math"
 )
 
 const (
@@ -287,6 +288,9 @@ func (r *Reader) Binary(sz uint64) (io.ReadCloser, error) {
 	if r.original == nil {
 		return nil, errReaderClosed
 	}
+	if sz > math.MaxInt64 {
+		sz = math.MaxInt64 // must not turn into a negative (empty) limit
+	}
 	return &binaryReader{r: io.LimitReader(r, int64(sz))}, nil
 }
 
-- 
2.43.0


From 4c7287d7f5d1e08036d9c3aa29d5ec0e5ef812fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:10 +0000
Subject: [PATCH 05/52] fix: lineproto: keep the writer uncompressed when the
 zlib level is invalid

---
 lineproto/writer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lineproto/writer.go b/lineproto/writer.go
index 6be1d9b..7e794ee 100644
--- a/lineproto/writer.go
+++ b/lineproto/writer.go
@@ -98,7 +98,6 @@ func (w *Writer) EnableZlibLevel(lvl int) error {
 	if err := w.Flush(); err != nil {
 		return err
 	}
-	w.zlibOn = true
 	if w.zlibW == nil || w.zlibLvl != lvl {
 		z, err := zlib.NewWriterLevel(w.w, lvl)
 		if err != nil {
@@ -109,6 +108,7 @@ func (w *Writer) EnableZlibLevel(lvl int) error {
 	} else {
 		w.zlibW.Reset(w.w)
 	}
+	w.zlibOn = true
 	w.cur = w.zlibW
 	w.bw.Reset(w.cur)
 	return nil
-- 
2.43.0


From a2d5e45ddf0cb2485a0452b8f712d5f3c7a509b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:10 +0000
Subject: [PATCH 06/52] fix: lineproto: remember a failed raw write

---
 lineproto/writer.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lineproto/writer.go b/lineproto/writer.go
index 7e794ee..64e2e7a 100644
--- a/lineproto/writer.go
+++ b/lineproto/writer.go
@@ -176,7 +176,11 @@ func (w *Writer) Write(p []byte) (int, error) {
 			return 0, err
 		}
 	}
-	return w.cur.Write(p)
+	n, err := w.cur.Write(p)
+	if err != nil {
+		w.setError(err)
+	}
+	return n, err
 }
 
 // WriteLine writes a single protocol message.
-- 
2.43.0


From bd87d912ec8532e4e74505b9a85dfd556c2f3233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:31 +0000
Subject: [PATCH 07/52] fix: nmdc: refuse to encode a nick that is too long
 once escaped

---
 nmdc/types.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/nmdc/types.go b/nmdc/types.go
index c893cc8..2973489 100644
--- a/nmdc/types.go
+++ b/nmdc/types.go
@@ -94,7 +94,15 @@ func (s Name) MarshalNMDC(enc *TextEncoder, buf *bytes.Buffer) error {
 			return err
 		}
 	}
-	return escapeName(buf, str)
+	n := buf.Len()
+	if err := escapeName(buf, str); err != nil {
+		return err
+	}
+	if buf.Len()-n > maxName {
+		// the limit on the receiving side applies to the escaped name
+		return errors.New("name is too long")
+	}
+	return nil
 }
 
 func (s *Name) UnmarshalNMDC(dec *TextDecoder, data []byte) error {
-- 
2.43.0


From 14dbe5542c8a56431441d85a317a0c1da0356888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:24 +0000
Subject: [PATCH 08/52] fix: nmdc: keep trailing spaces of a user command

---
 nmdc/msg_chat.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/nmdc/msg_chat.go b/nmdc/msg_chat.go
index 25112d9..49ccde5 100644
--- a/nmdc/msg_chat.go
+++ b/nmdc/msg_chat.go
@@ -295,7 +295,11 @@ func (m *UserCommand) MarshalNMDC(enc *TextEncoder, buf *bytes.Buffer) error {
 }
 
 func (m *UserCommand) UnmarshalNMDC(dec *TextDecoder, data []byte) error {
-	arr := bytes.SplitN(bytes.TrimSpace(data), []byte(" "), 3)
+	// spaces at the end may belong to the command
+	arr := bytes.SplitN(bytes.TrimLeftFunc(data, unicode.IsSpace), []byte(" "), 3)
+	if n := len(arr); n == 3 && len(bytes.TrimSpace(arr[2])) == 0 {
+		arr = arr[:2]
+	}
 	if len(arr) < 2 {
 		return errors.New("invalid user command")
 	}
-- 
2.43.0


From 7649c22fb6159af4a77bf3ddcf451fe4d20c53be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:25 +0000
Subject: [PATCH 09/52] fix: nmdc: encode an empty chat message as a lone
 delimiter

---
 nmdc/message.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nmdc/message.go b/nmdc/message.go
index 851e3f8..8e41551 100644
--- a/nmdc/message.go
+++ b/nmdc/message.go
@@ -126,7 +126,7 @@ func MarshalTo(enc *TextEncoder, buf *bytes.Buffer, m Message) error {
 	if err := m.MarshalNMDC(enc, buf); err != nil {
 		return err
 	}
-	if n == buf.Len() {
+	if n == buf.Len() && m.Type() != "" {
 		// no payload
 		buf.Bytes()[n-1] = Delimiter // ' ' -> '|'
 		return nil
-- 
2.43.0


From 1a8077c3495f3ca170082a6bba1eac5b32aca6e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:19 +0000
Subject: [PATCH 10/52] fix: nmdc: decode a blank mode in the client tag as
 unknown

---
 nmdc/msg_user.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nmdc/msg_user.go b/nmdc/msg_user.go
index 8579128..d6632d6 100644
--- a/nmdc/msg_user.go
+++ b/nmdc/msg_user.go
@@ -341,7 +341,7 @@ func (m *MyINFO) unmarshalTag(tag []byte) error {
 		case 'V':
 			m.Client.Version = string(val)
 		case 'M':
-			if len(val) == 1 {
+			if len(val) == 1 && val[0] != ' ' {
 				m.Mode = UserMode(val[0])
 			} else {
 				m.Mode = UserModeUnknown
-- 
2.43.0


From 4d5791af6fb02ac827666b790e692128f36f3bc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:37 +0000
Subject: [PATCH 11/52] fix: nmdc: refuse user flags that cannot be sent in
 MyINFO

---
 nmdc/msg_user.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/nmdc/msg_user.go b/nmdc/msg_user.go
index d6632d6..02150d9 100644
--- a/nmdc/msg_user.go
+++ b/nmdc/msg_user.go
@@ -172,7 +172,10 @@ func (m *MyINFO) MarshalNMDC(enc *TextEncoder, buf *bytes.Buffer) error {
 		return err
 	}
 
-	if m.Flag == 0 {
+	if m.Flag == '$' || m.Flag == Delimiter {
+		// sent as a raw byte that cannot be escaped
+		return fmt.Errorf("cannot encode user flags: %#x", byte(m.Flag))
+	} else if m.Flag == 0 {
 		bi = append(bi, byte(FlagStatusNormal))
 	} else {
 		bi = append(bi, byte(m.Flag))
-- 
2.43.0


From 932e27d4c69ee13453fbb7497d803b7e7016cfd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:38 +0000
Subject: [PATCH 12/52] fix: nmdc: decode an empty UserIP list as empty

---
 nmdc/msg_user_list.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/nmdc/msg_user_list.go b/nmdc/msg_user_list.go
index 85b0306..1f0ed26 100644
--- a/nmdc/msg_user_list.go
+++ b/nmdc/msg_user_list.go
@@ -110,6 +110,10 @@ func (m *UserIP) MarshalNMDC(enc *TextEncoder, buf *bytes.Buffer) error {
 func (m *UserIP) UnmarshalNMDC(dec *TextDecoder, data []byte) error {
 	data = bytes.TrimSuffix(data, []byte("\r"))
 	data = bytes.TrimSuffix(data, []byte("$$"))
+	if len(data) == 0 {
+		m.List = nil
+		return nil
+	}
 	sub := bytes.Split(data, []byte("$$"))
 	m.List = make([]UserAddress, 0, len(sub))
 	for _, s := range sub {
-- 
2.43.0


From c272cf52ec7ac45ce9986cf40245edca61a7ea32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:03 +0000
Subject: [PATCH 13/52] fix: nmdc: keep '$' in a search pattern

---
 nmdc/msg_search.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nmdc/msg_search.go b/nmdc/msg_search.go
index 972e42f..0adca38 100644
--- a/nmdc/msg_search.go
+++ b/nmdc/msg_search.go
@@ -192,12 +192,14 @@ func (m *Search) unmarshalString(dec *TextDecoder, data []byte) error {
 			return err
 		}
 	} else {
+		// only a raw '$' is a separator, an escaped one is a part of the pattern
+		field = bytes.Replace(field, []byte("$"), []byte(" "), -1)
 		var str String
 		err := str.UnmarshalNMDC(dec, field)
 		if err != nil {
 			return err
 		}
-		m.Pattern = strings.Replace(string(str), "$", " ", -1)
+		m.Pattern = string(str)
 	}
 	return nil
 }
-- 
2.43.0


From 76e52becf83bf77a354af36dd37bbcaad9c61725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:10 +0000
Subject: [PATCH 14/52] fix: nmdc: use the decoded path of a search result

---
 nmdc/msg_search.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nmdc/msg_search.go b/nmdc/msg_search.go
index 0adca38..9d6eec0 100644
--- a/nmdc/msg_search.go
+++ b/nmdc/msg_search.go
@@ -361,7 +361,7 @@ func (m *SR) UnmarshalNMDC(dec *TextDecoder, data []byte) error {
 	if err := spath.UnmarshalNMDC(dec, path); err != nil {
 		return err
 	}
-	m.Path = strings.Split(string(path), "\\")
+	m.Path = strings.Split(string(spath), "\\")
 
 	i = bytes.IndexByte(slots, '/')
 	if i < 0 {
-- 
2.43.0


From ed7af7fcace7bb557f9757ee6b008df17f66054a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:44 +0000
Subject: [PATCH 15/52] fix: nmdc: refuse an ADCGET length that does not fit

---
 nmdc/msg_files.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/nmdc/msg_files.go b/nmdc/msg_files.go
index 3bb3432..4208418 100644
--- a/nmdc/msg_files.go
+++ b/nmdc/msg_files.go
@@ -3,6 +3,7 @@ package nmdc
 import (
 	"bytes"
 	"errors"
+	"math"
 	"strconv"
 )
 
@@ -94,6 +95,8 @@ func (m *ADCGet) UnmarshalNMDC(dec *TextDecoder, data []byte) error {
 		lengthNum, err := parseUin64Trim(length)
 		if err != nil {
 			return errors.New("ADCGet: unable to parse field 'Lenght'")
+		} else if lengthNum > math.MaxInt64 {
+			return errors.New("ADCGet: field 'Length' is out of range")
 		}
 		m.Length = int64(lengthNum)
 	}
-- 
2.43.0


From bc3613f643c0295c349628d40d8b578333a565aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:33 +0000
Subject: [PATCH 16/52] fix: nmdc: do not panic when encoding an empty feature
 list

---
 nmdc/extensions.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nmdc/extensions.go b/nmdc/extensions.go
index 23bec78..af97363 100644
--- a/nmdc/extensions.go
+++ b/nmdc/extensions.go
@@ -43,7 +43,7 @@ func (m *Supports) Intersect(m2 *Supports) Supports {
 }
 
 func (m *Supports) MarshalNMDC(_ *TextEncoder, buf *bytes.Buffer) error {
-	n := len(m.Ext) - 1
+	n := len(m.Ext)
 	for _, ext := range m.Ext {
 		n += len(ext)
 	}
-- 
2.43.0


From 7f8d513972ad4acb4fbbf4cc93d0581648a49087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:34 +0000
Subject: [PATCH 17/52] fix: nmdc: do not panic on a lock that is too short

---
 nmdc/msg_lock.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/nmdc/msg_lock.go b/nmdc/msg_lock.go
index 3ba3587..a2dba0f 100644
--- a/nmdc/msg_lock.go
+++ b/nmdc/msg_lock.go
@@ -108,6 +108,10 @@ func (m *Lock) CustomKey(magic byte, full bool) *Key {
 	lock := []byte(m.LockString(full))
 
 	n := len(lock)
+	if n < 2 {
+		// too short to compute a key
+		return &Key{}
+	}
 	key := make([]byte, n)
 
 	key[0] = byte((lock[0] ^ lock[n-1] ^ lock[n-2] ^ magic) & 0xFF)
-- 
2.43.0


From b6271bd065df8161e365c6163fce4bb4b8b63bc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:35 +0000
Subject: [PATCH 18/52] fix: nmdc: decode an empty FailOver list as empty

---
 nmdc/msg_hub.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/nmdc/msg_hub.go b/nmdc/msg_hub.go
index 935f1cd..913947d 100644
--- a/nmdc/msg_hub.go
+++ b/nmdc/msg_hub.go
@@ -96,6 +96,10 @@ func (m *FailOver) MarshalNMDC(_ *TextEncoder, buf *bytes.Buffer) error {
 }
 
 func (m *FailOver) UnmarshalNMDC(_ *TextDecoder, data []byte) error {
+	if len(data) == 0 {
+		m.Host = nil
+		return nil
+	}
 	hosts := bytes.Split(data, []byte(","))
 	m.Host = make([]string, 0, len(hosts))
 	for _, host := range hosts {
-- 
2.43.0


From a5c3742beef8f13bbdcd29abba8dff35472a2a62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:30 +0000
Subject: [PATCH 19/52] fix: tiger: do not panic on a base32 hash that is too
 long

---
 tiger/tiger.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tiger/tiger.go b/tiger/tiger.go
index 79309ab..603a87e 100644
--- a/tiger/tiger.go
+++ b/tiger/tiger.go
@@ -80,6 +80,9 @@ func (h Hash) MarshalBase32(buf []byte) error {
 
 // UnmarshalBase32 decodes the hash from a given buffer.
 func (h *Hash) UnmarshalBase32(buf []byte) error {
+	if len(buf) != Base32Size {
+		return fmt.Errorf("wrong base32 size: %d vs %d", len(buf), Base32Size)
+	}
 	n, err := base32Enc.Decode((*h)[:], buf)
 	if err != nil {
 		return err
-- 
2.43.0


From c0dbd1546f80ccf0b9cea4992eb1b28ca231b9e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:41 +0000
Subject: [PATCH 20/52] fix: nmdc: do not lose part of a chat nick that
 contains '>'

---
 nmdc/msg_chat.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nmdc/msg_chat.go b/nmdc/msg_chat.go
index 49ccde5..af11093 100644
--- a/nmdc/msg_chat.go
+++ b/nmdc/msg_chat.go
@@ -77,7 +77,7 @@ func (m *ChatMessage) UnmarshalNMDC(dec *TextDecoder, data []byte) error {
 				break
 			}
 			if base+j == len(data)-1 {
-				i = j
+				i = base + j
 				off = 1
 				break
 			}
-- 
2.43.0


From 0442c2390973614387b0033e2a51394cfef5909a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:41 +0000
Subject: [PATCH 21/52] fix: nmdc: refuse a chat message that is a lone '<'

---
 nmdc/msg_chat.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/nmdc/msg_chat.go b/nmdc/msg_chat.go
index af11093..1f0d81b 100644
--- a/nmdc/msg_chat.go
+++ b/nmdc/msg_chat.go
@@ -54,6 +54,11 @@ func (m *ChatMessage) UnmarshalNMDC(dec *TextDecoder, data []byte) error {
 	// message text|
 	if len(data) != 0 && data[0] == '<' {
 		data = data[1:]
+		if len(data) == 0 {
+			return &ErrProtocolViolation{
+				Err: errors.New("name in chat message should have a closing token"),
+			}
+		}
 		var (
 			i    int // index where name ends
 			off  = 0 // space between the name and the message
-- 
2.43.0


From 35d0bd87aecaa01576fabc500eaeeba674d5de7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:52 +0000
Subject: [PATCH 22/52] fix: nmdc: accept any message after one dropped by a
 hook

---
 nmdc/reader.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/nmdc/reader.go b/nmdc/reader.go
index 5cc36e3..4306c9b 100644
--- a/nmdc/reader.go
+++ b/nmdc/reader.go
@@ -147,8 +147,10 @@ func (r *Reader) ReadMsgToAny(arr ...Message) (Message, error) {
 
 func (r *Reader) readMsgTo(ptr *Message, allowed ...Message) error {
 	dec := r.Decoder()
+	want := *ptr // nil if any message is accepted
 read:
 	for {
+		*ptr = want // may be set by a message that was dropped
 		line, err := r.ReadLine()
 		if err != nil {
 			return err
-- 
2.43.0


From 35aa09614718a4d117e289453597cfdde836c2f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:13 +0000
Subject: [PATCH 23/52] fix: nmdc: let a raw message in ReadMsgToAny take any
 command

---
 nmdc/reader.go | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/nmdc/reader.go b/nmdc/reader.go
index 4306c9b..af1303b 100644
--- a/nmdc/reader.go
+++ b/nmdc/reader.go
@@ -211,7 +211,11 @@ read:
 			if len(allowed) != 0 {
 				ok := false
 				for _, m := range allowed {
-					if _, raw := m.(*RawMessage); raw || m.Type() == typ {
+					raw, isRaw := m.(*RawMessage)
+					if isRaw || m.Type() == typ {
+						if isRaw {
+							raw.Typ = typ // any command
+						}
 						ok = true
 						out = m
 						*ptr = m
@@ -259,9 +263,12 @@ read:
 			if len(allowed) != 0 {
 				ok := false
 				for _, m := range allowed {
-					_, raw := m.(*RawMessage)
+					raw, isRaw := m.(*RawMessage)
 					_, chat := m.(*ChatMessage)
-					if raw || chat {
+					if isRaw || chat {
+						if isRaw {
+							raw.Typ = "" // chat
+						}
 						ok = true
 						out = m
 						*ptr = m
@@ -280,7 +287,7 @@ read:
 			if out == nil {
 				out = &ChatMessage{}
 				*ptr = out
-			} else if _, ok := out.(*ChatMessage); !ok {
+			} else if out.Type() != "" {
 				return &ErrUnexpectedCommand{
 					Expected: out.Type(),
 					Received: &RawMessage{
-- 
2.43.0


From 904c342fd8b19bc22dccc1cef52363198bd7a48b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:40 +0000
Subject: [PATCH 24/52] fix: nmdc: let the callback see every text in an
 unknown encoding

---
 nmdc/msg_chat.go  | 2 +-
 nmdc/msg_files.go | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/nmdc/msg_chat.go b/nmdc/msg_chat.go
index 1f0d81b..1f76faa 100644
--- a/nmdc/msg_chat.go
+++ b/nmdc/msg_chat.go
@@ -344,7 +344,7 @@ func (m *UserCommand) UnmarshalNMDC(dec *TextDecoder, data []byte) error {
 		var s String
 		err := s.UnmarshalNMDC(dec, p)
 		if err != nil {
-			return errors.New("invalid path user command")
+			return err
 		}
 		m.Path = append(m.Path, string(s))
 	}
diff --git a/nmdc/msg_files.go b/nmdc/msg_files.go
index 4208418..3ef6dd7 100644
--- a/nmdc/msg_files.go
+++ b/nmdc/msg_files.go
@@ -68,7 +68,7 @@ func (m *ADCGet) UnmarshalNMDC(dec *TextDecoder, data []byte) error {
 	}
 	identifier, data := data[:i], data[i+1:]
 	if err := m.Identifier.UnmarshalNMDC(dec, identifier); err != nil {
-		return errors.New("ADCGet: unable to parse field 2")
+		return err
 	}
 
 	i = bytes.IndexByte(data, ' ')
@@ -173,7 +173,7 @@ func (m *ADCSnd) UnmarshalNMDC(dec *TextDecoder, data []byte) error {
 	}
 	identifier, data := data[:i], data[i+1:]
 	if err := m.Identifier.UnmarshalNMDC(dec, identifier); err != nil {
-		return errors.New("ADCSnd: unable to parse field 2")
+		return err
 	}
 
 	i = bytes.IndexByte(data, ' ')
-- 
2.43.0


From fc1aae0899a03b862a214d69a99ffb1f3436fdd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:51 +0000
Subject: [PATCH 25/52] fix: nmdc: split the path of a user command after
 decoding it

---
 nmdc/msg_chat.go | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/nmdc/msg_chat.go b/nmdc/msg_chat.go
index 1f76faa..76f2503 100644
--- a/nmdc/msg_chat.go
+++ b/nmdc/msg_chat.go
@@ -5,6 +5,7 @@ import (
 	"errors"
 	"fmt"
 	"strconv"
+	"strings"
 	"unicode"
 	"unicode/utf8"
 )
@@ -334,19 +335,18 @@ func (m *UserCommand) UnmarshalNMDC(dec *TextDecoder, data []byte) error {
 	if i < 1 {
 		return fmt.Errorf("invalid raw user command: %q", string(data))
 	}
-	path := bytes.TrimRight(val[:i], " ")
-	sub := bytes.Split(path, []byte("\\"))
+	// a byte of a multi-byte character may look like a separator
+	var path String
+	if err := path.UnmarshalNMDC(dec, bytes.TrimRight(val[:i], " ")); err != nil {
+		return err
+	}
+	sub := strings.Split(string(path), "\\")
 	m.Path = make([]string, 0, len(sub))
 	for _, p := range sub {
 		if len(p) == 0 {
 			continue
 		}
-		var s String
-		err := s.UnmarshalNMDC(dec, p)
-		if err != nil {
-			return err
-		}
-		m.Path = append(m.Path, string(s))
+		m.Path = append(m.Path, p)
 	}
 
 	var s String
-- 
2.43.0


From 9cf5d87d177f9f66217a72250c4f929becd6a29c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:46 +0000
Subject: [PATCH 26/52] fix: nmdc: a write hook skips only the message it
 refused

---
 nmdc/writer.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/nmdc/writer.go b/nmdc/writer.go
index 0f9d1b7..1a7336a 100644
--- a/nmdc/writer.go
+++ b/nmdc/writer.go
@@ -65,10 +65,13 @@ func (w *Writer) WriteMsg(msg ...Message) error {
 		return err
 	}
 	enc := w.Encoder()
+next:
 	for _, m := range msg {
 		for _, fnc := range w.onMessage {
-			if ok, err := fnc(m); err != nil || !ok {
+			if ok, err := fnc(m); err != nil {
 				return err
+			} else if !ok {
+				continue next // skip only this message
 			}
 		}
 		w.mbuf.Reset()
-- 
2.43.0


From 964c043b3a94aea25d45d3896d2f8066d1947667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:57 +0000
Subject: [PATCH 27/52] fix: adc: unescape the values of raw fields

---
 adc/messages.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/adc/messages.go b/adc/messages.go
index 953e680..156b8b0 100644
--- a/adc/messages.go
+++ b/adc/messages.go
@@ -141,7 +141,7 @@ func (f *Fields) UnmarshalADC(data []byte) error {
 		if err := s.UnmarshalADC(v); err != nil {
 			return fmt.Errorf("cannot unmarshal field %s: %v", string(k[:]), err)
 		}
-		mp = append(mp, Field{Tag: k, Value: string(v)})
+		mp = append(mp, Field{Tag: k, Value: string(s)})
 	}
 	*f = mp
 	return nil
-- 
2.43.0


From 8f835d5e2b70e0dfa5ed9e70ed151047c1dc1d57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:38 +0000
Subject: [PATCH 28/52] fix: adc: parse the conditions of a feature packet
 strictly

A short condition caused a panic, a condition did not have to be separated
from the payload, and leading spaces of the payload were lost.
---
 adc/packets.go | 40 ++++++++++++----------------------------
 1 file changed, 12 insertions(+), 28 deletions(-)

diff --git a/adc/packets.go b/adc/packets.go
index e451eb5..2a690eb 100644
--- a/adc/packets.go
+++ b/adc/packets.go
@@ -689,37 +689,21 @@ func (p *FeaturePacket) UnmarshalPacketADC(name MsgType, data []byte) error {
 	} else {
 		data = nil
 	}
-	p.Sel = make([]FeatureSel, 0, len(data)/5)
-	for i := 0; i < len(data); i++ {
-		if data[i] == '+' {
-			if f := data[i:]; len(f) < 5 {
-				return fmt.Errorf("short feature: '%s'", string(data[i:i+5]))
-			}
-			var fea Feature
-			copy(fea[:], data[i+1:i+5])
-			p.Sel = append(p.Sel, FeatureSel{Fea: fea, Sel: true})
-			i += 4
-		} else if data[i] == '-' {
-			if f := data[i:]; len(f) < 5 {
-				return fmt.Errorf("short feature: '%s'", string(data[i:i+5]))
-			}
-			var fea Feature
-			copy(fea[:], data[i+1:i+5])
-			p.Sel = append(p.Sel, FeatureSel{Fea: fea, Sel: false})
-			i += 4
-		} else if data[i] == ' ' {
-			data = data[i:]
-			i = 0
-		} else {
-			data = data[i:]
-			break
+	p.Sel = nil
+	for len(data) > 0 && (data[0] == '+' || data[0] == '-') {
+		if len(data) < 5 || (len(data) > 5 && data[5] != ' ') {
+			return fmt.Errorf("malformed feature: '%s'", string(data))
 		}
-		if i+1 == len(data) {
-			data = nil
+		var fea Feature
+		copy(fea[:], data[1:5])
+		p.Sel = append(p.Sel, FeatureSel{Fea: fea, Sel: data[0] == '+'})
+		data = data[5:]
+		if len(data) > 0 {
+			data = data[1:]
 		}
 	}
-	if len(p.Sel) == 0 {
-		p.Sel = nil
+	if len(data) == 0 {
+		data = nil
 	}
 	p.Msg = &RawMessage{Type: name, Data: data}
 	return nil
-- 
2.43.0


From d4d89c8afb2211c39ea2ebdb703433b032acf1b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:39 +0000
Subject: [PATCH 29/52] fix: adc: refuse a packet with a truncated session
 identifier

The line delimiter was counted, and taken, as a part of the identifier.
---
 adc/packets.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/adc/packets.go b/adc/packets.go
index 2a690eb..7db65e2 100644
--- a/adc/packets.go
+++ b/adc/packets.go
@@ -313,7 +313,7 @@ func (p *BroadcastPacket) MarshalPacketADC(buf *bytes.Buffer) error {
 }
 
 func (p *BroadcastPacket) UnmarshalPacketADC(name MsgType, data []byte) error {
-	if len(data) < 4 {
+	if len(data) < 5 {
 		return errors.New("short broadcast command")
 	} else if data[len(data)-1] != lineDelim {
 		return errors.New("invalid packet delimiter")
@@ -408,7 +408,7 @@ func (p *DirectPacket) MarshalPacketADC(buf *bytes.Buffer) error {
 }
 
 func (p *DirectPacket) UnmarshalPacketADC(name MsgType, data []byte) error {
-	if len(data) < 9 {
+	if len(data) < 10 {
 		return fmt.Errorf("short direct command")
 	} else if data[len(data)-1] != lineDelim {
 		return errors.New("invalid packet delimiter")
@@ -504,7 +504,7 @@ func (p *EchoPacket) MarshalPacketADC(buf *bytes.Buffer) error {
 }
 
 func (p *EchoPacket) UnmarshalPacketADC(name MsgType, data []byte) error {
-	if len(data) < 9 {
+	if len(data) < 10 {
 		return fmt.Errorf("short echo command")
 	} else if data[len(data)-1] != lineDelim {
 		return errors.New("invalid packet delimiter")
@@ -673,7 +673,7 @@ func (p *FeaturePacket) MarshalPacketADC(buf *bytes.Buffer) error {
 }
 
 func (p *FeaturePacket) UnmarshalPacketADC(name MsgType, data []byte) error {
-	if len(data) < 4 {
+	if len(data) < 5 {
 		return fmt.Errorf("short feature command")
 	} else if data[len(data)-1] != lineDelim {
 		return errors.New("invalid packet delimiter")
-- 
2.43.0


From c6ea9e586a09a6b69acac64bfdf080e282039989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:04 +0000
Subject: [PATCH 30/52] fix: adc: do not panic on a message with missing
 positional fields

---
 adc/marshal.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/adc/marshal.go b/adc/marshal.go
index b30e546..7c1cc01 100644
--- a/adc/marshal.go
+++ b/adc/marshal.go
@@ -117,6 +117,9 @@ func Unmarshal(s []byte, o interface{}) error {
 		if tag == "" || tag == "-" {
 			continue
 		} else if tag == "#" {
+			if len(sub) == 0 {
+				return fmt.Errorf("missing field %s", fld.Name)
+			}
 			v := sub[0]
 			sub = sub[1:]
 			if err := unmarshalValue(v, rv.Field(i)); err != nil {
-- 
2.43.0


From 2254b55ac150091289da099d0a8cfe5a2227778a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:06 +0000
Subject: [PATCH 31/52] fix: adc: do not panic on an info packet without data

---
 adc/packets.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/adc/packets.go b/adc/packets.go
index 7db65e2..e2b4f83 100644
--- a/adc/packets.go
+++ b/adc/packets.go
@@ -180,7 +180,9 @@ func (p *InfoPacket) MarshalPacketADC(buf *bytes.Buffer) error {
 }
 
 func (p *InfoPacket) UnmarshalPacketADC(name MsgType, data []byte) error {
-	if len(data) != 0 && data[len(data)-1] != lineDelim {
+	if len(data) < 1 {
+		return errors.New("short info command")
+	} else if data[len(data)-1] != lineDelim {
 		return errors.New("invalid packet delimiter")
 	}
 	data = data[:len(data)-1]
-- 
2.43.0


From 243459d4d9c16523c519be59da426f01fe2c96e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:09 +0000
Subject: [PATCH 32/52] fix: adc: refuse numbers that are not integers or do
 not fit

---
 adc/marshal.go | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/adc/marshal.go b/adc/marshal.go
index 7c1cc01..b64e7c2 100644
--- a/adc/marshal.go
+++ b/adc/marshal.go
@@ -40,6 +40,9 @@ type Unmarshaler interface {
 	UnmarshalADC(data []byte) error
 }
 
+// maxExactFloat is the limit below which floats represent all the integers.
+const maxExactFloat = 1 << 53
+
 func unmarshalValue(s []byte, rv reflect.Value) error {
 	switch fv := rv.Addr().Interface().(type) {
 	case Unmarshaler:
@@ -51,22 +54,24 @@ func unmarshalValue(s []byte, rv reflect.Value) error {
 	}
 	switch rv.Kind() {
 	case reflect.Int, reflect.Int64, reflect.Int32, reflect.Int16:
-		bits := 64
-		switch rv.Kind() {
-		case reflect.Int32, reflect.Int16:
-			bits = 32
-		}
 		sv := string(s)
-		vi, err := strconv.ParseInt(sv, 10, bits)
+		vi, err := strconv.ParseInt(sv, 10, 64)
 		if err != nil {
-			vf, err2 := strconv.ParseFloat(sv, bits)
+			if ne, ok := err.(*strconv.NumError); ok && ne.Err == strconv.ErrRange {
+				return err
+			}
+			// an integer may be written as a float, if it is represented exactly
+			vf, err2 := strconv.ParseFloat(sv, 64)
 			if err2 != nil {
 				return err
-			} else if math.Round(vf) != vf {
-				return err2
+			} else if math.Round(vf) != vf || math.Abs(vf) >= maxExactFloat {
+				return fmt.Errorf("not an integer: %q", sv)
 			}
 			vi = int64(vf)
 		}
+		if rv.OverflowInt(vi) {
+			return fmt.Errorf("integer is out of range: %q", sv)
+		}
 		rv.SetInt(vi)
 		return nil
 	case reflect.String:
-- 
2.43.0


From b8f9ba11e0709b6f3950aecda9f8426138a83a5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:10 +0000
Subject: [PATCH 33/52] fix: adc: decode the flag value '0' as false

---
 adc/marshal.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/adc/marshal.go b/adc/marshal.go
index b64e7c2..5a761c3 100644
--- a/adc/marshal.go
+++ b/adc/marshal.go
@@ -94,7 +94,14 @@ func unmarshalValue(s []byte, rv reflect.Value) error {
 		} else if len(s) != 1 {
 			return errors.New("invalid bool value: " + string(s))
 		}
-		rv.SetBool(s[0] != 0)
+		switch s[0] {
+		case '0':
+			rv.SetBool(false)
+		case '1':
+			rv.SetBool(true)
+		default:
+			return errors.New("invalid bool value: " + string(s))
+		}
 		return nil
 	}
 	return fmt.Errorf("unknown type: %v", rv.Type())
-- 
2.43.0


From 4927b6d2accc261f5bba8d263dddc8effd4dbf8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:58 +0000
Subject: [PATCH 34/52] fix: tiger: refuse a base32 hash with line breaks in it

---
 tiger/tiger.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tiger/tiger.go b/tiger/tiger.go
index 603a87e..a1ee680 100644
--- a/tiger/tiger.go
+++ b/tiger/tiger.go
@@ -95,6 +95,10 @@ func (h *Hash) UnmarshalBase32(buf []byte) error {
 
 // FromBase32 parses hash from base32 encoding.
 func (h *Hash) FromBase32(s string) error {
+	// the decoder ignores line breaks, so check the length of the text as well
+	if len(s) != Base32Size {
+		return fmt.Errorf("wrong base32 size: %d vs %d", len(s), Base32Size)
+	}
 	b, err := base32Enc.DecodeString(s)
 	if err != nil {
 		return err
-- 
2.43.0


From 64750b4971430e30b267f7d620acff630691f9af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:21 +0000
Subject: [PATCH 35/52] fix: tiger: do not depend on read sizes in tree hashes

---
 tiger/tth.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/tiger/tth.go b/tiger/tth.go
index 2ce7abe..d8e6faf 100644
--- a/tiger/tth.go
+++ b/tiger/tth.go
@@ -8,13 +8,23 @@ const tthBlock = 1024
 // the single parts of a certain file.
 type Leaves []Hash
 
+// readBlock reads until the buffer is full or the reader fails. Unlike io.ReadFull, it returns the reader's error as is.
+func readBlock(r io.Reader, buf []byte) (n int, err error) {
+	for n < len(buf) && err == nil {
+		var nn int
+		nn, err = r.Read(buf[n:])
+		n += nn
+	}
+	return
+}
+
 // TreeLeaves computes the TTH leaves of a reader.
 func TreeLeaves(r io.Reader) (lvl Leaves, err error) {
 	buf := make([]byte, tthBlock+1)
 	var n int
 
 	for err != io.EOF {
-		n, err = r.Read(buf[1:])
+		n, err = readBlock(r, buf[1:])
 		if err != nil && err != io.EOF {
 			return
 		}
@@ -62,7 +72,7 @@ func TreeHash(r io.Reader) (root Hash, err error) {
 	)
 	buf := make([]byte, tthBlock+1)
 	for err != io.EOF {
-		n, err = r.Read(buf[1:])
+		n, err = readBlock(r, buf[1:])
 		if err != nil && err != io.EOF {
 			return
 		}
-- 
2.43.0


From bc8ee5ecab839a2136b659a1348a44b0b07ab75e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:33 +0000
Subject: [PATCH 36/52] fix: adc: a removed feature is not set

---
 adc/types.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/adc/types.go b/adc/types.go
index 086701b..3cd3e63 100644
--- a/adc/types.go
+++ b/adc/types.go
@@ -155,8 +155,7 @@ func (f ModFeatures) IsSet(s Feature) bool {
 	if f == nil {
 		return false
 	}
-	_, ok := f[s]
-	return ok
+	return f[s]
 }
 
 func (f ModFeatures) SetFrom(fp ModFeatures) ModFeatures {
-- 
2.43.0


From 2e8a864d56e280a601e53649acc2c135cc8457c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:41 +0000
Subject: [PATCH 37/52] fix: adc: decode an empty feature list as empty

---
 adc/types.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/adc/types.go b/adc/types.go
index 3cd3e63..59282d9 100644
--- a/adc/types.go
+++ b/adc/types.go
@@ -225,6 +225,7 @@ func (f ExtFeatures) MarshalADC(buf *bytes.Buffer) error {
 
 func (f *ExtFeatures) UnmarshalADC(s []byte) error {
 	if len(s) < 1 {
+		*f = nil
 		return nil
 	}
 	sub := bytes.Split(s, []byte(","))
-- 
2.43.0


From 87446cbe7b25b14f4468be512e0340d636f162c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:27 +0000
Subject: [PATCH 38/52] fix: choose the protocol of an address by its scheme

---
 conn.go | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/conn.go b/conn.go
index 877da6c..a329802 100644
--- a/conn.go
+++ b/conn.go
@@ -8,9 +8,22 @@ import (
 	"github.com/direct-connect/go-dc/nmdc"
 )
 
+// isADC checks if the address has one of ADC schemes.
+func isADC(addr string) bool {
+	i := strings.Index(addr, "://")
+	if i < 0 {
+		return false
+	}
+	switch strings.ToLower(addr[:i]) {
+	case adc.SchemaADC, adc.SchemaADCS:
+		return true
+	}
+	return false
+}
+
 // ParseAddr parses an DC address as a URL.
 func ParseAddr(addr string) (*url.URL, error) {
-	if strings.HasPrefix(addr, adc.SchemaADC) {
+	if isADC(addr) {
 		return adc.ParseAddr(addr)
 	}
 	return nmdc.ParseAddr(addr)
@@ -18,7 +31,7 @@ func ParseAddr(addr string) (*url.URL, error) {
 
 // NormalizeAddr parses and normalizes the address to scheme://host[:port] format.
 func NormalizeAddr(addr string) (string, error) {
-	if strings.HasPrefix(addr, adc.SchemaADC) {
+	if isADC(addr) {
 		return adc.NormalizeAddr(addr)
 	}
 	return nmdc.NormalizeAddr(addr)
-- 
2.43.0


From adfc8edfab99afcf15e88ca743170ab5cb4d9bd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:09 +0000
Subject: [PATCH 39/52] fix: nmdc: do not keep fields of an earlier message
 when decoding

---
 nmdc/msg_chat.go   | 2 ++
 nmdc/msg_ctm.go    | 1 +
 nmdc/msg_errors.go | 2 ++
 nmdc/msg_files.go  | 2 ++
 nmdc/msg_ping.go   | 1 +
 nmdc/msg_search.go | 2 ++
 nmdc/msg_user.go   | 1 +
 7 files changed, 11 insertions(+)

diff --git a/nmdc/msg_chat.go b/nmdc/msg_chat.go
index 76f2503..4520580 100644
--- a/nmdc/msg_chat.go
+++ b/nmdc/msg_chat.go
@@ -50,6 +50,7 @@ func (m *ChatMessage) MarshalNMDC(enc *TextEncoder, buf *bytes.Buffer) error {
 }
 
 func (m *ChatMessage) UnmarshalNMDC(dec *TextDecoder, data []byte) error {
+	*m = ChatMessage{}
 	// <user> message text|
 	// or
 	// message text|
@@ -301,6 +302,7 @@ func (m *UserCommand) MarshalNMDC(enc *TextEncoder, buf *bytes.Buffer) error {
 }
 
 func (m *UserCommand) UnmarshalNMDC(dec *TextDecoder, data []byte) error {
+	*m = UserCommand{}
 	// spaces at the end may belong to the command
 	arr := bytes.SplitN(bytes.TrimLeftFunc(data, unicode.IsSpace), []byte(" "), 3)
 	if n := len(arr); n == 3 && len(bytes.TrimSpace(arr[2])) == 0 {
diff --git a/nmdc/msg_ctm.go b/nmdc/msg_ctm.go
index a5711cf..601ad39 100644
--- a/nmdc/msg_ctm.go
+++ b/nmdc/msg_ctm.go
@@ -70,6 +70,7 @@ func (m *ConnectToMe) MarshalNMDC(enc *TextEncoder, buf *bytes.Buffer) error {
 }
 
 func (m *ConnectToMe) UnmarshalNMDC(dec *TextDecoder, data []byte) error {
+	*m = ConnectToMe{}
 	i := bytes.IndexByte(data, ' ')
 	if i < 0 {
 		return errors.New("invalid ConnectToMe command")
diff --git a/nmdc/msg_errors.go b/nmdc/msg_errors.go
index b4ca982..f9e3f88 100644
--- a/nmdc/msg_errors.go
+++ b/nmdc/msg_errors.go
@@ -29,6 +29,7 @@ func (m *Failed) MarshalNMDC(enc *TextEncoder, buf *bytes.Buffer) error {
 }
 
 func (m *Failed) UnmarshalNMDC(dec *TextDecoder, text []byte) error {
+	*m = Failed{}
 	var str String
 	if err := str.UnmarshalNMDC(dec, text); err != nil {
 		return err
@@ -58,6 +59,7 @@ func (m *Error) MarshalNMDC(enc *TextEncoder, buf *bytes.Buffer) error {
 }
 
 func (m *Error) UnmarshalNMDC(dec *TextDecoder, text []byte) error {
+	*m = Error{}
 	var str String
 	if err := str.UnmarshalNMDC(dec, text); err != nil {
 		return err
diff --git a/nmdc/msg_files.go b/nmdc/msg_files.go
index 3ef6dd7..e3c15da 100644
--- a/nmdc/msg_files.go
+++ b/nmdc/msg_files.go
@@ -53,6 +53,7 @@ func (m *ADCGet) MarshalNMDC(enc *TextEncoder, buf *bytes.Buffer) error {
 }
 
 func (m *ADCGet) UnmarshalNMDC(dec *TextDecoder, data []byte) error {
+	*m = ADCGet{}
 	i := bytes.IndexByte(data, ' ')
 	if i < 0 {
 		return errors.New("ADCGet: missing separator after field 'ContentType'")
@@ -158,6 +159,7 @@ func (m *ADCSnd) MarshalNMDC(enc *TextEncoder, buf *bytes.Buffer) error {
 }
 
 func (m *ADCSnd) UnmarshalNMDC(dec *TextDecoder, data []byte) error {
+	*m = ADCSnd{}
 	i := bytes.IndexByte(data, ' ')
 	if i < 0 {
 		return errors.New("ADCSnd: missing separator after field 1")
diff --git a/nmdc/msg_ping.go b/nmdc/msg_ping.go
index cb05964..33da759 100644
--- a/nmdc/msg_ping.go
+++ b/nmdc/msg_ping.go
@@ -108,6 +108,7 @@ func (m *HubINFO) MarshalNMDC(enc *TextEncoder, buf *bytes.Buffer) error {
 }
 
 func (m *HubINFO) UnmarshalNMDC(dec *TextDecoder, data []byte) error {
+	*m = HubINFO{}
 	fields := bytes.SplitN(data, []byte("$"), 13)
 	for i, field := range fields {
 		switch i {
diff --git a/nmdc/msg_search.go b/nmdc/msg_search.go
index 9d6eec0..cf16a83 100644
--- a/nmdc/msg_search.go
+++ b/nmdc/msg_search.go
@@ -106,6 +106,7 @@ func (m *Search) MarshalNMDC(enc *TextEncoder, buf *bytes.Buffer) error {
 }
 
 func (m *Search) UnmarshalNMDC(dec *TextDecoder, data []byte) error {
+	*m = Search{}
 	i := bytes.IndexByte(data, ' ')
 	if i < 0 {
 		return errors.New("invalid search command")
@@ -291,6 +292,7 @@ func (m *SR) MarshalNMDC(enc *TextEncoder, buf *bytes.Buffer) error {
 }
 
 func (m *SR) UnmarshalNMDC(dec *TextDecoder, data []byte) error {
+	*m = SR{}
 	i := bytes.IndexByte(data, ' ')
 	if i < 0 {
 		return errors.New("invalid SR command: missing name")
diff --git a/nmdc/msg_user.go b/nmdc/msg_user.go
index 02150d9..b337506 100644
--- a/nmdc/msg_user.go
+++ b/nmdc/msg_user.go
@@ -196,6 +196,7 @@ func (m *MyINFO) MarshalNMDC(enc *TextEncoder, buf *bytes.Buffer) error {
 }
 
 func (m *MyINFO) UnmarshalNMDC(dec *TextDecoder, data []byte) error {
+	*m = MyINFO{}
 	const infoPref = "$ALL "
 	if !bytes.HasPrefix(data, []byte(infoPref)) {
 		return errors.New("invalid info command: wrong prefix")
-- 
2.43.0


From c709c80a4f91c8b01b98c87631db1cb5a291cf1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:43 +0000
Subject: [PATCH 40/52] fix: lineproto: apply the write timeout to raw writes,
 closing and compression switches

---
 lineproto/writer.go | 34 +++++++++++++++++++++++++++++++---
 1 file changed, 31 insertions(+), 3 deletions(-)

diff --git a/lineproto/writer.go b/lineproto/writer.go
index 64e2e7a..f0037c7 100644
--- a/lineproto/writer.go
+++ b/lineproto/writer.go
@@ -65,17 +65,29 @@ func (w *Writer) Err() error {
 
 // Close flushes the writer and frees its resources. It won't close the underlying writer.
 func (w *Writer) Close() error {
-	last := w.bw.Flush()
+	var last error
+	if w.Timeout != nil {
+		last = w.Timeout(true)
+	}
+	armed := last == nil
+	if armed {
+		last = w.bw.Flush()
+	}
 	if w.err == nil {
 		w.err = errWriterClosed
 	}
 	if w.zlibOn {
-		if err := w.zlibW.Close(); err != nil {
-			last = err
+		if armed {
+			if err := w.zlibW.Close(); err != nil {
+				last = err
+			}
 		}
 		w.zlibOn = false
 		w.zlibW = nil
 	}
+	if armed && w.Timeout != nil {
+		_ = w.Timeout(false)
+	}
 	w.bw = nil
 	w.cur = nil
 	w.w = nil
@@ -121,6 +133,14 @@ func (w *Writer) DisableZlib() error {
 	} else if !w.zlibOn {
 		return errZlibNotActive
 	}
+	if w.Timeout != nil {
+		err := w.Timeout(true)
+		if err != nil {
+			w.setError(err)
+			return err
+		}
+		defer w.Timeout(false)
+	}
 	err := w.bw.Flush()
 	if err != nil {
 		w.setError(err)
@@ -176,6 +196,14 @@ func (w *Writer) Write(p []byte) (int, error) {
 			return 0, err
 		}
 	}
+	if w.Timeout != nil {
+		err := w.Timeout(true)
+		if err != nil {
+			w.setError(err)
+			return 0, err
+		}
+		defer w.Timeout(false)
+	}
 	n, err := w.cur.Write(p)
 	if err != nil {
 		w.setError(err)
-- 
2.43.0


From 26af875145a720a321163610408732ac5a3ebcfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:03 +0000
Subject: [PATCH 41/52] fix: nmdc: accept search results from hubs with
 parentheses in the name

---
 nmdc/msg_search.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/nmdc/msg_search.go b/nmdc/msg_search.go
index cf16a83..23b8d06 100644
--- a/nmdc/msg_search.go
+++ b/nmdc/msg_search.go
@@ -392,7 +392,12 @@ func (m *SR) UnmarshalNMDC(dec *TextDecoder, data []byte) error {
 			return err
 		}
 	} else {
-		i = bytes.Index(data, []byte(" ("))
+		// the hub name may contain parentheses as well
+		end := bytes.Index(data, []byte{')', srSep})
+		if end < 0 {
+			end = len(data)
+		}
+		i = bytes.LastIndex(data[:end], []byte(" ("))
 		if i < 0 {
 			return errors.New("invalid SR command: missing TTH or hub name")
 		}
-- 
2.43.0


From 6073e5be48694d2b2f3ac7f32f12f15b3b048338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:08 +0000
Subject: [PATCH 42/52] fix: nmdc: errors do not share the reader's line buffer

---
 nmdc/reader.go | 15 ++++++++++-----
 nmdc/types.go  |  4 ++--
 2 files changed, 12 insertions(+), 7 deletions(-)

diff --git a/nmdc/reader.go b/nmdc/reader.go
index af1303b..9ff080b 100644
--- a/nmdc/reader.go
+++ b/nmdc/reader.go
@@ -34,6 +34,11 @@ func (e *ErrUnexpectedCommand) Error() string {
 
 type ErrProtocolViolation = lineproto.ErrProtocolViolation
 
+// cloneBytes copies a part of the line, which is only valid until the next one is read.
+func cloneBytes(data []byte) []byte {
+	return append([]byte(nil), data...)
+}
+
 type errUnknownEncoding struct {
 	text []byte
 }
@@ -226,7 +231,7 @@ read:
 					return &ErrUnexpectedCommand{
 						Expected: allowed[0].Type(),
 						Received: &RawMessage{
-							Typ: typ, Data: args,
+							Typ: typ, Data: cloneBytes(args),
 						},
 					}
 				}
@@ -239,14 +244,14 @@ read:
 				return &ErrUnexpectedCommand{
 					Expected: "", // chat
 					Received: &RawMessage{
-						Typ: typ, Data: args,
+						Typ: typ, Data: cloneBytes(args),
 					},
 				}
 			} else if out.Type() != typ {
 				return &ErrUnexpectedCommand{
 					Expected: out.Type(),
 					Received: &RawMessage{
-						Typ: typ, Data: args,
+						Typ: typ, Data: cloneBytes(args),
 					},
 				}
 			}
@@ -279,7 +284,7 @@ read:
 					return &ErrUnexpectedCommand{
 						Expected: allowed[0].Type(),
 						Received: &RawMessage{
-							Data: args,
+							Data: cloneBytes(args),
 						},
 					}
 				}
@@ -292,7 +297,7 @@ read:
 					Expected: out.Type(),
 					Received: &RawMessage{
 						// chat
-						Data: args,
+						Data: cloneBytes(args),
 					},
 				}
 			}
diff --git a/nmdc/types.go b/nmdc/types.go
index 2973489..9b8d91d 100644
--- a/nmdc/types.go
+++ b/nmdc/types.go
@@ -120,7 +120,7 @@ func (s *Name) UnmarshalNMDC(dec *TextDecoder, data []byte) error {
 		}
 	}
 	if !utf8.Valid(data) {
-		return &errUnknownEncoding{text: data}
+		return &errUnknownEncoding{text: cloneBytes(data)}
 	}
 	*s = Name(data)
 	return nil
@@ -154,7 +154,7 @@ func (s *String) UnmarshalNMDC(dec *TextDecoder, data []byte) error {
 		}
 	}
 	if !utf8.Valid(data) {
-		return &errUnknownEncoding{text: data}
+		return &errUnknownEncoding{text: cloneBytes(data)}
 	}
 	*s = String(data)
 	return nil
-- 
2.43.0


From 29927e62d2377e2915733c9af2bb622c0070ad4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:44 +0000
Subject: [PATCH 43/52] fix: lineproto: closing a writer twice does not crash

---
 lineproto/writer.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lineproto/writer.go b/lineproto/writer.go
index f0037c7..50d6fb6 100644
--- a/lineproto/writer.go
+++ b/lineproto/writer.go
@@ -65,6 +65,9 @@ func (w *Writer) Err() error {
 
 // Close flushes the writer and frees its resources. It won't close the underlying writer.
 func (w *Writer) Close() error {
+	if w.bw == nil {
+		return errWriterClosed
+	}
 	var last error
 	if w.Timeout != nil {
 		last = w.Timeout(true)
-- 
2.43.0


From a112185033c53fac1d0170e6aa4bae62a8ce33b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:59 +0000
Subject: [PATCH 44/52] fix: adc: a malformed password salt is refused, not
 decoded to another one

---
 adc/hub.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/adc/hub.go b/adc/hub.go
index 68982d7..08bd636 100644
--- a/adc/hub.go
+++ b/adc/hub.go
@@ -3,6 +3,7 @@ package adc
 import (
 	"bytes"
 	"encoding/base32"
+	"errors"
 
 	"github.com/direct-connect/go-dc/tiger"
 )
@@ -84,8 +85,14 @@ func (m GetPassword) MarshalADC(buf *bytes.Buffer) error {
 func (m *GetPassword) UnmarshalADC(data []byte) error {
 	size := base32Enc.DecodedLen(len(data))
 	m.Salt = make([]byte, size)
-	_, err := base32Enc.Decode(m.Salt, data)
-	return err
+	n, err := base32Enc.Decode(m.Salt, data)
+	if err != nil {
+		return err
+	} else if base32Enc.EncodedLen(n) != len(data) {
+		// the decoder skips line breaks and drops incomplete groups
+		return errors.New("malformed password salt")
+	}
+	return nil
 }
 
 type Password struct {
-- 
2.43.0


From 4d4a02d24c3838213194c543ffe1b42ec2e01e1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:42 +0000
Subject: [PATCH 45/52] fix: adc: decoding a path replaces the old one

---
 adc/types.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/adc/types.go b/adc/types.go
index 59282d9..20ac387 100644
--- a/adc/types.go
+++ b/adc/types.go
@@ -289,12 +289,14 @@ func (p Path) MarshalADC(buf *bytes.Buffer) error {
 
 func (p *Path) UnmarshalADC(data []byte) error {
 	arr := bytes.Split(data, []byte("/"))
+	out := make(Path, 0, len(arr))
 	for _, a := range arr {
 		var path String
 		if err := path.UnmarshalADC(a); err != nil {
 			return err
 		}
-		*p = append(*p, string(path))
+		out = append(out, string(path))
 	}
+	*p = out
 	return nil
 }
-- 
2.43.0


From 88dc2f39648d3716da84580dc342cd9a1f5f8a33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:42 +0000
Subject: [PATCH 46/52] fix: adc: a request without compression resets the flag
 of an earlier one

---
 adc/files.go | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/adc/files.go b/adc/files.go
index 9959464..b98a571 100644
--- a/adc/files.go
+++ b/adc/files.go
@@ -94,12 +94,10 @@ func (m *GetRequest) UnmarshalADC(data []byte) error {
 		return errors.New("ADCGET: unable to parse field 4")
 	}
 
-	if len(data) > 0 {
-		if !bytes.Equal(data, []byte("ZL1")) {
-			return errors.New("ADCGET: invalid field 5")
-		}
-		m.Compressed = true
+	if len(data) > 0 && !bytes.Equal(data, []byte("ZL1")) {
+		return errors.New("ADCGET: invalid field 5")
 	}
+	m.Compressed = len(data) > 0
 
 	return nil
 }
-- 
2.43.0


From b3ae4b9e07a8d7cb9b165011e8021d607f051d5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:21:42 +0000
Subject: [PATCH 47/52] fix: nmdc: only fold the case of letters in MyINFO tag
 field names

---
 nmdc/msg_user.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nmdc/msg_user.go b/nmdc/msg_user.go
index b337506..ffd28af 100644
--- a/nmdc/msg_user.go
+++ b/nmdc/msg_user.go
@@ -338,7 +338,7 @@ func (m *MyINFO) unmarshalTag(tag []byte) error {
 			continue
 		}
 		ckey := bkey[0]
-		if ckey > 'Z' {
+		if ckey >= 'a' && ckey <= 'z' {
 			ckey -= 'a' - 'A'
 		}
 		switch ckey {
@@ -387,7 +387,7 @@ func (m *MyINFO) unmarshalTag(tag []byte) error {
 			if m.Extra == nil {
 				m.Extra = make(map[string]string)
 			}
-			m.Extra[string(ckey)] = string(val)
+			m.Extra[string([]byte{ckey})] = string(val)
 		}
 	}
 	m.Client.Name = string(client)
-- 
2.43.0


From 41ef2393d71701ab61f4dfbe4ba33fcbb94f6736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:24:54 +0000
Subject: [PATCH 48/52] fix: nmdc: a file with a slash before trailing digits
 in its path is no directory in $SR

---
 nmdc/msg_search.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nmdc/msg_search.go b/nmdc/msg_search.go
index 23b8d06..dc19caa 100644
--- a/nmdc/msg_search.go
+++ b/nmdc/msg_search.go
@@ -333,7 +333,7 @@ func (m *SR) UnmarshalNMDC(dec *TextDecoder, data []byte) error {
 		path  []byte
 		slots []byte
 	)
-	if hasSep && i >= 0 {
+	if hasSep && i >= 0 && maybePath[i] == ' ' {
 		// directory result - slots are in the path
 		m.IsDir = true
 		m.Size = 0
-- 
2.43.0


From 9dae9d68fe7af54450b232c0bd1886fcb66404e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:46:37 +0000
Subject: [PATCH 49/52] fix: nmdc: decode with the decoder set by a hook on a
 message that was not delivered

---
 nmdc/reader.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nmdc/reader.go b/nmdc/reader.go
index 9ff080b..310dbb7 100644
--- a/nmdc/reader.go
+++ b/nmdc/reader.go
@@ -151,7 +151,6 @@ func (r *Reader) ReadMsgToAny(arr ...Message) (Message, error) {
 }
 
 func (r *Reader) readMsgTo(ptr *Message, allowed ...Message) error {
-	dec := r.Decoder()
 	want := *ptr // nil if any message is accepted
 read:
 	for {
@@ -302,6 +301,7 @@ read:
 				}
 			}
 		}
+		dec := r.Decoder() // may be set by a hook
 		err = out.UnmarshalNMDC(dec, args)
 		if r.OnUnknownEncoding != nil {
 			if e, ok := err.(*errUnknownEncoding); ok {
-- 
2.43.0


From 6bb66a462a56f0410bafb67ac58c1aa34c0c2e03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:46:37 +0000
Subject: [PATCH 50/52] fix: nmdc: encode with the encoder set by a hook on an
 earlier message of the batch

---
 nmdc/writer.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/nmdc/writer.go b/nmdc/writer.go
index 1a7336a..4ed85cd 100644
--- a/nmdc/writer.go
+++ b/nmdc/writer.go
@@ -64,7 +64,6 @@ func (w *Writer) WriteMsg(msg ...Message) error {
 	if err := w.Writer.Err(); err != nil {
 		return err
 	}
-	enc := w.Encoder()
 next:
 	for _, m := range msg {
 		for _, fnc := range w.onMessage {
@@ -75,7 +74,7 @@ next:
 			}
 		}
 		w.mbuf.Reset()
-		err := MarshalTo(enc, &w.mbuf, m)
+		err := MarshalTo(w.Encoder(), &w.mbuf, m)
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From 4049b5f214106b6914e05758c7b265f089669ed1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:03:17 +0000
Subject: [PATCH 51/52] fix: lineproto: do not crash when a hook closes the
 reader and drops the line

---
 lineproto/reader.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lineproto/reader.go b/lineproto/reader.go
index 2ea1002..70a44ef 100644
--- a/lineproto/reader.go
+++ b/lineproto/reader.go
@@ -220,6 +220,9 @@ read:
 				return nil, err
 			} else if !ok {
 				// hook commands to drop the message
+				if r.original == nil {
+					return nil, errReaderClosed // closed by the hook
+				}
 				r.line = r.line[:0]
 				continue read
 			}
-- 
2.43.0


From a8d80657a94909c7ed3bb5a43e2541cc13b65f27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:03:17 +0000
Subject: [PATCH 52/52] fix: lineproto: do not crash when a hook closes the
 writer

---
 lineproto/writer.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lineproto/writer.go b/lineproto/writer.go
index 50d6fb6..b71f3c7 100644
--- a/lineproto/writer.go
+++ b/lineproto/writer.go
@@ -227,6 +227,9 @@ func (w *Writer) WriteLine(data []byte) error {
 			return nil
 		}
 	}
+	if w.err != nil {
+		return w.err // closed by a hook
+	}
 	if w.Timeout != nil {
 		err := w.Timeout(true)
 		if err != nil {
-- 
2.43.0

