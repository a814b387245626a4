package props

import (
	"bytes"
	"compress/zlib"
	"encoding/pem"
	"io"
	"strconv"
	"strings"

	"crypto/tls"

	"github.com/direct-connect/go-dc/adc"
	"github.com/direct-connect/go-dc/keyprint"
	"github.com/direct-connect/go-dc/lineproto"
	"github.com/direct-connect/go-dc/nmdc"
	"github.com/direct-connect/go-dc/tiger"

	"verif/harness/sym"
)

// Long histories and many items: what holds for three of them has to hold for
// any number. The histories follow a fixed pattern; one place of them, picked
// freely, has arbitrary contents.

func init() {
	sym.Register("C01", sym.Both, ManyLines, "streams of 300 and 2500 short lines (more than the buffer, more than the line limit in total), one of them (the first, second, middle or last) with arbitrary bytes, first read of any of five sizes, limit set or not: every line comes once, in order")
	sym.Register("C03", sym.Both, ManyHooks, "5, 12, 40 and 130 hooks (thorough 300) on three lines, one of them (the first, second, middle or last) dropping or refusing the second line, reader and writer: all of them see every line in the order of registration")
	sym.Register("C04", sym.Both, ManySwitches, "6, 20 and 70 (thorough 300) compressed sections one behind the other, with plain lines between them, different levels, flushes here and there; one line (in the first, second, middle or last section) with arbitrary bytes; four ways of delivery: the stream comes out unchanged")
	sym.Register("C05", sym.Both, ManySections, "6, 40 and 300 binary sections of different sizes with lines between them, one section with an arbitrary byte, any of four patterns of partial consumption")
	sym.Register("C06", sym.Both, ManyWrites, "60, 300 and 1500 lines, raw writes and flushes in a fixed pattern, one line of arbitrary contents, buffers of 4 bytes or default, hooks that drop every third line or none: order and completeness as ever")
	sym.Register("C16", sym.Both, ManyCommands, "streams of 300 and 2000 commands of ten kinds (up to 60 KB), one of them with an arbitrary byte, with keep-alives, a raw and a message hook that drop or pass: every command is delivered once, in order")
	sym.Register("C26", sym.Both, ManyPackets, "streams of 300 and 2000 packets of six kinds, one of them with an arbitrary byte, with keep-alives: every packet is delivered once, in order")
	sym.Register("C19", sym.Both, ManyMessages, "3, 20, 70 and 300 messages in one call or one by one, one of them with an arbitrary character, with 0, 1 or 12 hooks of which one drops one message: the wire is their concatenation")
	sym.Register("C27", sym.Both, ManyPacketsOut, "3, 20, 70 and 300 packets of different kinds by function or stream, one of them with an arbitrary character: the wire is their concatenation")
	sym.Register("C34", sym.Both, LongSession, "sessions of 40 and 200 (thorough 1000) operations: messages of ten kinds, one with an arbitrary character, compression on and off, announced binary data, keep-alives, flushes; NMDC with and without conversion, and ADC; four ways of delivery: both sides see the same")
	sym.Register("C37", sym.Both, LongPrompt, "lock-step histories of 40 and 200 (thorough 600) operations of line, raw data, flush, compression on and off, the reading side catching up after every flush, every third or seventh one: nothing that was flushed is held back")
	sym.Register("C38", sym.Both, LongTimeout, "histories of 40 and 200 operations out of short and long lines, raw data, flush, compression on and off: every write happens while the timeout is armed, and nothing is left armed")
	sym.Register("C17", sym.Both, LongLocks, "locks of 16, 64, 126..130, 255..257, 300 and 1000 bytes (alone or behind EXTENDEDPROTOCOL), one byte (first, second, middle, last) arbitrary: the answer of the protocol")
	sym.Register("C29", sym.Both, ManyLeaves, "63..65, 127..129, 255..257, 300, 512, 513 and 1024 (thorough 1023, 1025, 2047..2049) leaves, and as many leaves of data (quick: up to 129, 256, 512 and 1024; thorough: up to 513 and 1024), the first or last one with an arbitrary byte: root equal to the recursive definition")
	sym.Register("C31", sym.Both, ManyCerts, "chains, files and connections of 5, 9 and 33 (thorough 130) certificates; an arbitrary one matches, or none: one print per certificate in order, accepted exactly when it is presented")
	sym.Register("C25", sym.Both, ManyFeatures, "feature maps and lists of 9, 17, 40 and 130 names, one with an arbitrary byte: the set operations, the texts and NMDC extension sets as for small ones")
	sym.Register("C10", sym.Both, TagCase, "the keys of the MyINFO tag in upper and lower case, with known keys and any other letter: the same user information")
	sym.Register("C18", sym.Both, LongTranscode, "texts of 100..5000 characters with a converted character at the start, in the middle or at the end, in chat, private and topic messages: converted on the wire and back")
	sym.Register("C14", sym.Both, LongRepeat, "payloads of every command consisting of 100 and 2000 (thorough 5000) times one of 12 special characters or pairs, with an arbitrary byte at the start, middle or end: decoded or refused, without a crash")
	sym.Register("C23", sym.Both, LongRepeatAdc, "payloads of every command and selectors consisting of 100 and 2000 (thorough 5000) times one of 10 special characters or pairs, with an arbitrary byte at the start, middle or end: decoded or refused, without a crash")
}

// pick4 is one of the first, second, middle and last of n places.
func pick4(name string, n int) int {
	return [...]int{0, 1, n / 2, n - 1}[sym.Choose(name, 4)]
}

func ManyLines() {
	n := [...]int{300, 2500}[sym.Choose("lines", 2)]
	at := pick4("line", n)
	d := sym.Byte("delim")
	sym.Assume(sym.Or(d < '0', d > '9'))
	var data []byte
	var lines [][]byte
	for i := 0; i < n; i++ {
		l := []byte(strconv.Itoa(i * i * 7))
		if i == at {
			l = append(l, sym.Bytes("b", 2)...)
			sym.Assume(sym.And(l[len(l)-1] != d, l[len(l)-2] != d))
		}
		l = append(l, d)
		lines = append(lines, l)
		data = append(data, l...)
	}
	r := lineproto.NewReader(&splitAt{data: data, at: [...]int{0, 1, 3, 2047, 1500}[sym.Choose("first", 5)], end: io.EOF}, d)
	if sym.Choose("limit", 2) == 1 {
		r.SetMaxLine(16)
	}
	for _, want := range lines {
		l, err := r.ReadLine()
		sym.Assert(err == nil, "complete line not delivered")
		sym.Assert(sym.EqB(l, want), "line differs from the stream")
	}
	l, err := r.ReadLine()
	sym.Assert(err == io.EOF && len(l) == 0, "no end of stream")
	sym.Reach("end")
}

func ManyHooks() {
	n := [...]int{5, 12, 40, 130, 300}[sym.Choose("hooks", sym.Bound(4, 5))]
	at := pick4("hook", n)
	verdict := sym.Choose("verdict", 3)
	c := sym.ByteRange("c", 'a', 'z')
	lines := [3]string{"one|", string([]byte{'t', c, '|'}), "three|"}
	cur := 0
	seen := 0
	hook := func(h int) func([]byte) (bool, error) {
		return func(l []byte) (bool, error) {
			sym.Assert(h == seen, "hook order")
			sym.Assert(sym.Eq(string(l), lines[cur]), "hook saw a different line")
			seen++
			if h == at && cur == 1 {
				switch verdict {
				case 1:
					cur, seen = 2, 0
					return false, nil
				case 2:
					return true, errHook
				}
			}
			return true, nil
		}
	}
	if sym.Choose("side", 2) == 0 {
		var data []byte
		for _, l := range lines {
			data = append(data, l...)
		}
		r := lineproto.NewReader(&splitAt{data: data, at: 2, end: io.EOF}, '|')
		for h := 0; h < n; h++ {
			r.OnLine(hook(h))
		}
		for i := 0; i < 3; i++ {
			if i == 1 && verdict == 1 {
				continue
			}
			cur, seen = i, 0
			if i == 2 && verdict == 1 {
				cur = 1
			}
			l, err := r.ReadLine()
			if i == 1 && verdict == 2 {
				sym.Assert(err == errHook, "hook error not returned")
				sym.Assert(seen == at+1, "number of hook calls")
				continue
			}
			sym.Assert(err == nil && sym.Eq(string(l), lines[i]), "wrong line delivered")
			sym.Assert(seen == n, "number of hook calls")
		}
		_, err := r.ReadLine()
		sym.Assert(err == io.EOF, "no end of stream")
		sym.Reach("read")
		return
	}
	s := &sink{limit: -1}
	w := lineproto.NewWriter(s)
	for h := 0; h < n; h++ {
		w.OnLine(hook(h))
	}
	var want []byte
	for i, l := range lines {
		cur, seen = i, 0
		err := w.WriteLine([]byte(l))
		if i == 1 && verdict == 2 {
			sym.Assert(err == errHook, "hook error not returned")
			return
		}
		sym.Assert(err == nil, "line refused")
		if i == 1 && verdict == 1 {
			continue
		}
		sym.Assert(seen == n, "number of hook calls")
		want = append(want, l...)
	}
	sym.Assert(w.Flush() == nil, "flush failed")
	sym.Assert(sym.EqB(s.got, want), "delivered lines differ")
	sym.Reach("written")
}

func ManySwitches() {
	n := [...]int{6, 20, 70, 300}[sym.Choose("sections", sym.Bound(3, 4))]
	at := pick4("section", n)
	s := &sink{limit: -1}
	w := lineproto.NewWriter(s)
	var log []zop
	line := func(l string) {
		sym.Assert(w.WriteLine([]byte(l)) == nil, "line refused")
		log = append(log, zop{0, []byte(l)})
	}
	for i := 0; i < n; i++ {
		line("z" + strconv.Itoa(i) + "|")
		lvl := [...]int{zlib.BestSpeed, zlib.DefaultCompression, zlib.BestCompression, zlib.NoCompression}[i%4]
		sym.Assert(w.EnableZlibLevel(lvl) == nil, "compression not enabled")
		log = append(log, zop{kind: 2})
		if i%3 == 1 {
			line("inside " + strconv.Itoa(i) + "|")
		}
		if i == at {
			b := sym.Bytes("c", 2)
			sym.Assume(sym.And(b[0] != '|', b[1] != '|'))
			line(string(b) + "|")
		}
		if i%5 == 2 {
			sym.Assert(w.Flush() == nil, "flush failed")
		}
		if i%4 == 3 {
			line("more|")
		}
		sym.Assert(w.DisableZlib() == nil, "compression not disabled")
		if i%2 == 0 {
			line("plain " + strconv.Itoa(i) + "|")
		}
	}
	sym.Assert(w.Close() == nil, "close failed")
	r := lineproto.NewReader(sessSource(s.got, sym.Choose("transport", 4)), '|')
	for _, o := range log {
		if o.kind == 2 {
			sym.Assert(r.EnableZlib() == nil, "decompression refused")
			continue
		}
		l, err := r.ReadLine()
		sym.Assert(err == nil, "line lost")
		sym.Assert(sym.EqB(l, o.data), "line differs")
	}
	l, err := r.ReadLine()
	sym.Assert(err == io.EOF && len(l) == 0, "extra data")
	sym.Reach("end")
}

func ManySections() {
	n := [...]int{6, 40, 300}[sym.Choose("sections", 3)]
	at := pick4("section", n)
	var data []byte
	var secs [][]byte
	for i := 0; i < n; i++ {
		data = append(data, "l"+strconv.Itoa(i)+"|"...)
		b := bytes.Repeat([]byte{"a|$\n"[i%4]}, i*37%90)
		if i == at {
			b = append(b, sym.Byte("c"), 'x')
		}
		secs = append(secs, b)
		data = append(data, b...)
	}
	r := lineproto.NewReader(sessSource(data, sym.Choose("transport", 3)), '|')
	pat := sym.Choose("part", 4)
	for i, b := range secs {
		l, err := r.ReadLine()
		sym.Assert(err == nil && string(l) == "l"+strconv.Itoa(i)+"|", "line between sections")
		sec, err := r.Binary(uint64(len(b)))
		sym.Assert(err == nil, "section refused")
		part := [...]int{len(b), 0, len(b) / 2, (i * 13) % (len(b) + 1)}[pat]
		got := make([]byte, part)
		_, err = io.ReadFull(sec, got)
		sym.Assert(err == nil, "section read failed")
		sym.Assert(sym.EqB(got, b[:part]), "section bytes")
		sym.Assert(sec.Close() == nil, "section close failed")
	}
	_, err := r.ReadLine()
	sym.Assert(err == io.EOF, "extra data")
	sym.Reach("end")
}

func ManyWrites() {
	n := [...]int{60, 300, 1500}[sym.Choose("writes", 3)]
	at := pick4("write", n)
	s := &sink{limit: -1}
	w := lineproto.NewWriterSize(s, [...]int{4, 0}[sym.Choose("buffer", 2)])
	drop := sym.Choose("drop", 2) == 1
	calls := 0
	w.OnLine(func([]byte) (bool, error) {
		calls++
		return !drop || calls%3 != 0, nil
	})
	var want []byte
	lines, done := 0, 0
	for i := 0; i < n; i++ {
		b := []byte("line " + strconv.Itoa(i*i) + "|")
		if i == at {
			copy(b, sym.Bytes("b", 3))
		}
		switch {
		case i%7 == 3 && i != at:
			sym.Assert(w.Flush() == nil, "flush failed")
			sym.Assert(len(s.got) == len(want), "flush did not deliver everything")
			sym.Assert(sym.EqB(s.got[done:], want[done:]), "flush did not deliver everything")
			done = len(want)
		case i%5 == 4:
			k, err := w.Write(b)
			sym.Assert(err == nil && k == len(b), "raw write refused")
			want = append(want, b...)
			sym.Assert(len(s.got) == len(want), "raw write held back")
			sym.Assert(sym.EqB(s.got[done:], want[done:]), "raw write reordered")
			done = len(want)
		default:
			sym.Assert(w.WriteLine(b) == nil, "line refused")
			lines++
			if !drop || lines%3 != 0 {
				want = append(want, b...)
			}
		}
		sym.Assert(len(s.got) <= len(want), "extra data sent")
	}
	sym.Assert(calls == lines, "number of hook calls")
	sym.Assert(w.Close() == nil, "close failed")
	sym.Assert(sym.EqB(s.got, want), "close did not deliver everything")
	sym.Reach("end")
}

func ManyCommands() {
	n := [...]int{300, 2000}[sym.Choose("commands", 2)]
	at := pick4("command", n)
	var data []byte
	var want []nmdc.Message
	alive := 0
	for i := 0; i < n; i++ {
		t := "t" + strconv.Itoa(i)
		if i == at {
			t += string([]byte{sym.ByteRange("c", 'a', 'z')})
		}
		if i%9 == 4 {
			data = append(data, '|')
			alive++
		}
		m := sessMessage(i%10, t)
		l, err := nmdc.Marshal(nil, m)
		sym.Assert(err == nil, "legal message refused")
		data = append(data, l...)
		want = append(want, m)
	}
	r := nmdc.NewReader(&splitAt{data: data, at: [...]int{0, 1, 2047}[sym.Choose("first", 3)], end: io.EOF})
	hook := sym.Choose("hook", 3)
	raws, msgs, seen := 0, 0, 0
	r.OnKeepAlive = func() error { seen++; return nil }
	if hook == 1 {
		r.OnRawMessage(func(cmd, args []byte) (bool, error) { raws++; return raws%4 != 0, nil })
	}
	if hook == 2 {
		r.OnMessage(func(m nmdc.Message) (bool, error) { msgs++; return msgs%4 != 0, nil })
	}
	for i, ref := range want {
		if hook != 0 && i%4 == 3 {
			continue
		}
		m, err := r.ReadMsg()
		sym.Assert(err == nil, "well-formed command refused")
		sym.Assert(sameMsg(m, ref), "command differs from the stream")
	}
	m, err := r.ReadMsg()
	sym.Assert(m == nil && err == io.EOF, "end of stream")
	sym.Assert(seen == alive, "keep-alives miscounted")
	sym.Assert(hook != 1 || raws == n, "number of raw hook calls")
	sym.Assert(hook != 2 || msgs == n, "number of message hook calls")
	sym.Reach("end")
}

// somePkt is a packet of one of six kinds.
func somePkt(i int, text string) adc.Packet {
	from, to := adc.SID{'A', 'A', 'A', 'B'}, adc.SID{'C', 'C', 'C', 'D'}
	return newPacket("IBDEFC"[i%6], from, to, adc.CID{}, []adc.FeatureSel{{Fea: adc.FeaTCP4, Sel: true}}, adc.ChatMessage{Text: text})
}

func ManyPackets() {
	n := [...]int{300, 2000}[sym.Choose("packets", 2)]
	at := pick4("packet", n)
	buf := bytes.NewBuffer(nil)
	var want []adc.Packet
	alive := 0
	for i := 0; i < n; i++ {
		t := "t " + strconv.Itoa(i)
		if i == at {
			t += string([]byte{sym.Byte("c")})
		}
		if i%9 == 4 {
			buf.WriteByte('\n')
			alive++
		}
		p := somePkt(i, t)
		sym.Assert(p.MarshalPacketADC(buf) == nil, "legal packet refused")
		want = append(want, p)
	}
	data := buf.Bytes()
	sym.Assume(bytes.IndexByte(data, 0) < 0)
	r := adc.NewReader(&splitAt{data: data, at: [...]int{0, 1, 2047}[sym.Choose("first", 3)], end: io.EOF})
	seen := 0
	r.OnKeepAlive = func() error { seen++; return nil }
	for _, ref := range want {
		p, err := r.ReadPacket()
		sym.Assert(err == nil, "well-formed packet refused")
		sym.Assert(samePacket(p, ref), "packet differs from the stream")
	}
	p, err := r.ReadPacket()
	sym.Assert(p == nil && err == io.EOF, "end of stream")
	sym.Assert(seen == alive, "keep-alives miscounted")
	sym.Reach("end")
}

func ManyMessages() {
	n := [...]int{3, 20, 70, 300}[sym.Choose("messages", 4)]
	at := pick4("message", n)
	s := &sink{limit: -1}
	w := nmdc.NewWriter(s)
	if sym.Choose("small", 2) == 1 {
		w = nmdc.NewWriterSize(s, 16)
	}
	hooks := [...]int{0, 1, 12}[sym.Choose("hooks", 3)]
	var msgs []nmdc.Message
	var want []byte
	cur, calls := 0, 0
	for h := 0; h < hooks; h++ {
		h := h
		w.OnMessage(func(m nmdc.Message) (bool, error) {
			sym.Assert(calls%hooks == h, "hooks out of order")
			sym.Assert(cur < n && m == msgs[cur], "hook got another message")
			calls++
			if h == hooks-1 {
				cur++
				return cur-1 != at, nil // the last hook drops one message
			}
			return true, nil
		})
	}
	for i := 0; i < n; i++ {
		t := "t" + strconv.Itoa(i)
		if i == at || i == n-1-at {
			t += string([]byte{sym.ByteRange("c", 'a', 'z')})
		}
		m := sessMessage(i%10, t)
		msgs = append(msgs, m)
		if hooks == 0 || i != at {
			l, err := nmdc.Marshal(nil, m)
			sym.Assert(err == nil, "legal message refused")
			want = append(want, l...)
		}
	}
	if sym.Choose("one by one", 2) == 1 {
		for _, m := range msgs {
			sym.Assert(w.WriteMsg(m) == nil, "legal message refused")
		}
	} else {
		sym.Assert(w.WriteMsg(msgs...) == nil, "legal message refused")
	}
	sym.Assert(w.Flush() == nil, "flush failed")
	sym.Assert(sym.EqB(s.got, want), "wire differs from the messages written")
	sym.Reach("sent")
}

func ManyPacketsOut() {
	n := [...]int{3, 20, 70, 300}[sym.Choose("packets", 4)]
	at := pick4("packet", n)
	s := &sink{limit: -1}
	w := adc.NewWriter(s)
	if sym.Choose("small", 2) == 1 {
		w = adc.NewWriterSize(s, 16)
	}
	from, to := adc.SID{'A', 'A', 'A', 'B'}, adc.SID{'C', 'C', 'C', 'D'}
	want := bytes.NewBuffer(nil)
	how := sym.Choose("how", 2)
	st := w.BroadcastStream(from)
	for i := 0; i < n; i++ {
		t := "t " + strconv.Itoa(i)
		if i == at {
			t += string([]byte{sym.Byte("c")})
		}
		switch {
		case i%9 == 4:
			sym.Assert(w.WriteKeepAlive() == nil, "keep-alive refused")
			want.WriteByte('\n')
		case i%3 == 1 && how == 1:
			m := adc.ChatMessage{Text: t}
			sym.Assert(st.WriteMessage(m) == nil, "legal message refused")
			sym.Assert(newPacket('B', from, to, adc.CID{}, nil, m).MarshalPacketADC(want) == nil, "legal packet refused")
		case i%5 == 2 && how == 1:
			m := adc.ChatMessage{Text: t}
			sym.Assert(w.WriteInfo(m) == nil, "legal message refused")
			sym.Assert(newPacket('I', from, to, adc.CID{}, nil, m).MarshalPacketADC(want) == nil, "legal packet refused")
		default:
			p := somePkt(i, t)
			sym.Assert(w.WritePacket(p) == nil, "legal packet refused")
			sym.Assert(p.MarshalPacketADC(want) == nil, "legal packet refused")
		}
	}
	sym.Assert(w.Flush() == nil, "flush failed")
	sym.Assert(sym.EqB(s.got, want.Bytes()), "wire differs from the packets written")
	sym.Reach("sent")
}

func LongSession() {
	n := [...]int{40, 200, 1000}[sym.Choose("operations", sym.Bound(2, 3))]
	at := pick4("operation", n)
	mode := sym.Choose("mode", 3) // plain NMDC, converted NMDC, ADC
	how := sym.Choose("transport", 4)
	s := &sink{limit: -1}
	var (
		nw  *nmdc.Writer
		aw  *adc.Writer
		lw  *lineproto.Writer
		log []sessItem
		zon bool
	)
	if mode == 2 {
		aw = adc.NewWriter(s)
		lw = aw.Writer
	} else {
		nw = nmdc.NewWriter(s)
		lw = nw.Writer
		if mode == 1 {
			nw.SetEncoder(charsetEncoder())
		}
	}
	message := func(i int, t string) {
		if aw != nil {
			p := somePkt(i, t)
			sym.Assert(aw.WritePacket(p) == nil, "legal packet refused")
			log = append(log, sessItem{pkt: p})
			return
		}
		m := sessMessage(i%10, t)
		sym.Assert(nw.WriteMsg(m) == nil, "legal message refused")
		log = append(log, sessItem{msg: m})
	}
	for i := 0; i < n; i++ {
		switch {
		case i == at:
			message(i, "c"+string([]byte{sym.ByteRange("c", 'a', 'z')}))
		case i%11 == 5:
			sym.Assert(lw.Flush() == nil, "flush failed")
		case i%13 == 6:
			if zon {
				sym.Assert(lw.DisableZlib() == nil, "compression not disabled")
				zon = false
				break
			}
			if aw != nil {
				sym.Assert(aw.WriteInfo(adc.ZOn{}) == nil, "message refused")
				sym.Assert(aw.EnableZlib() == nil, "compression not enabled")
			} else {
				sym.Assert(nw.ZOnLevel(zlib.BestSpeed) == nil, "compression not enabled")
			}
			log = append(log, sessItem{kind: 2})
			zon = true
		case i%17 == 8:
			message(0, "data") // announces it
			data := bytes.Repeat([]byte{"|\n$x"[i%4]}, i*29%70)
			k, err := lw.Write(data)
			sym.Assert(err == nil && k == len(data), "data refused")
			log = append(log, sessItem{kind: 1, data: data})
		case i%19 == 9:
			if aw != nil {
				sym.Assert(aw.WriteKeepAlive() == nil, "keep-alive refused")
			} else {
				sym.Assert(nw.WriteKeepAlive() == nil, "keep-alive refused")
			}
		default:
			message(i, "t"+strconv.Itoa(i))
		}
	}
	message(0, "end")
	sym.Assert(lw.Close() == nil, "close failed")
	var (
		nr *nmdc.Reader
		ar *adc.Reader
		lr *lineproto.Reader
	)
	if mode == 2 {
		ar = adc.NewReader(sessSource(s.got, how))
		lr = ar.Reader
	} else {
		nr = nmdc.NewReader(sessSource(s.got, how))
		lr = nr.Reader
		if mode == 1 {
			nr.SetDecoder(charsetDecoder())
		}
	}
	for _, it := range log {
		switch it.kind {
		case 0:
			if ar != nil {
				p, err := ar.ReadPacket()
				sym.Assert(err == nil, "packet lost")
				sym.Assert(samePacket(p, it.pkt), "packet differs")
				break
			}
			m, err := nr.ReadMsg()
			sym.Assert(err == nil, "message lost")
			sym.Assert(sameMsg(m, it.msg), "message differs")
		case 1:
			b, err := lr.Binary(uint64(len(it.data)))
			sym.Assert(err == nil, "section refused")
			got := make([]byte, len(it.data))
			_, err = io.ReadFull(b, got)
			sym.Assert(err == nil && sym.EqB(got, it.data), "data differs")
			sym.Assert(b.Close() == nil, "section close failed")
		case 2:
			if ar != nil {
				_, err := ar.ReadInfo()
				sym.Assert(err == nil, "compression command lost")
			} else {
				var z nmdc.ZOn
				sym.Assert(nr.ReadMsgTo(&z) == nil, "compression command lost")
			}
			sym.Assert(lr.EnableZlib() == nil, "decompression refused")
		}
	}
	if ar != nil {
		p, err := ar.ReadPacket()
		sym.Assert(p == nil && err == io.EOF, "extra data")
	} else {
		m, err := nr.ReadMsg()
		sym.Assert(m == nil && err == io.EOF, "extra data")
	}
	sym.Reach("end")
}

func LongPrompt() {
	n := [...]int{40, 200, 600}[sym.Choose("operations", sym.Bound(2, 3))]
	at := pick4("operation", n)
	every := [...]int{1, 3, 7}[sym.Choose("every", 3)]
	p := &pipe{one: sym.Choose("one", 2) == 1}
	w := lineproto.NewWriterSize(p, [...]int{4, 0}[sym.Choose("buffer", 2)])
	r := lineproto.NewReader(p, '|')
	l := &lockstep{p: p}
	catchUp := func() {
		for {
			it, ok := l.next(r)
			if !ok {
				break
			}
			switch it.kind {
			case 0:
				b, err := r.ReadLine()
				sym.Assert(err == nil, "line not available")
				sym.Assert(sym.EqB(b, it.data), "line differs")
			case 1:
				b, err := r.Binary(uint64(len(it.data)))
				sym.Assert(err == nil, "section refused")
				got := make([]byte, len(it.data))
				_, err = io.ReadFull(b, got)
				sym.Assert(err == nil && sym.EqB(got, it.data), "data not available")
				sym.Assert(b.Close() == nil, "section close failed")
			case 2:
				l.zon = true
			}
			sym.Assert(p.starved == 0, "waiting for data that is not needed")
		}
	}
	on := false
	flushes := 0
	for i := 0; i < n; i++ {
		flushed := false
		switch {
		case i == at:
			b := payload(true, 3)
			sym.Assert(w.WriteLine(b) == nil, "line refused")
			l.add(sessItem{data: b})
		case i%5 == 3:
			sym.Assert(w.Flush() == nil, "flush failed")
			flushed = true
		case i%7 == 4:
			b := bytes.Repeat([]byte{"|x"[i%2]}, 1+i*3%20)
			k, err := w.Write(b)
			sym.Assert(err == nil && k == len(b), "raw write refused")
			l.add(sessItem{kind: 1, data: b})
			flushed = !on
		case i%11 == 6:
			if on {
				sym.Assert(w.DisableZlib() == nil, "compression not disabled")
				on, flushed = false, true
				break
			}
			sym.Assert(w.WriteLine([]byte("z|")) == nil, "line refused")
			l.add(sessItem{data: []byte("z|")})
			sym.Assert(w.EnableZlib() == nil, "compression not enabled")
			l.add(sessItem{kind: 2})
			on, flushed = true, true
		default:
			b := []byte("line " + strconv.Itoa(i) + "|")
			sym.Assert(w.WriteLine(b) == nil, "line refused")
			l.add(sessItem{data: b})
		}
		if flushed {
			l.flushed()
			flushes++
			if flushes%every == 0 {
				catchUp()
			}
		}
	}
	sym.Assert(w.Close() == nil, "close failed")
	l.flushed()
	catchUp()
	sym.Assert(p.starved == 0, "waiting for data that is not needed")
	sym.Reach("end")
}

// armedOnly checks that it is used while the timeout is armed.
type armedOnly struct {
	armed int
	got   []byte
}

func (a *armedOnly) Write(p []byte) (int, error) {
	sym.Assert(a.armed == 1, "sent without the timeout")
	a.got = append(a.got, p...)
	return len(p), nil
}

func LongTimeout() {
	n := [...]int{40, 200}[sym.Choose("operations", 2)]
	at := pick4("operation", n)
	s := &armedOnly{}
	w := lineproto.NewWriterSize(s, [...]int{4, 0}[sym.Choose("buffer", 2)])
	w.Timeout = func(on bool) error {
		if on {
			s.armed++
		} else {
			s.armed--
		}
		return nil
	}
	var want []byte // without compression
	on := false
	for i := 0; i < n; i++ {
		b := bytes.Repeat([]byte{'a' + byte(i%20)}, i*31%90)
		if i == at {
			b = append(b, sym.Byte("c"))
		}
		b = append(b, '|')
		switch {
		case i%6 == 3:
			sym.Assert(w.Flush() == nil, "flush failed")
		case i%13 == 5:
			var err error
			if on {
				err = w.DisableZlib()
			} else {
				err = w.EnableZlibLevel(zlib.BestSpeed)
			}
			sym.Assert(err == nil, "compression not switched")
			on = !on
		case i%7 == 4:
			k, err := w.Write(b)
			sym.Assert(err == nil && k == len(b), "raw write refused")
		default:
			sym.Assert(w.WriteLine(b) == nil, "line refused")
		}
		sym.Assert(s.armed == 0, "timeout left armed")
	}
	sym.Assert(w.Close() == nil, "close failed")
	sym.Assert(s.armed == 0, "timeout left armed")
	sym.Assert(len(s.got) > len(want), "nothing sent")
	sym.Reach("end")
}

func LongLocks() {
	n := [...]int{16, 64, 126, 127, 128, 129, 130, 255, 256, 257, 300, 1000}[sym.Choose("size", 12)]
	b := make([]byte, n)
	for i := range b {
		b[i] = 'A' + byte(i*7%50)
	}
	b[pick4("at", n)] = sym.Byte("c")
	l := &nmdc.Lock{Lock: string(b), NoExt: sym.Choose("noext", 2) == 1, PK: "pk"}
	full := l.Lock
	if !l.NoExt {
		full = "EXTENDEDPROTOCOL" + full
	}
	switch sym.Choose("api", 2) {
	case 0:
		checkKey(l.Key().Key, refKey(full, 5))
	case 1:
		k := l.CustomKey(17, true)
		checkKey(k.Key, refKey(full+" Pk=pk", 17))
	}
	sym.Reach("done")
}

func ManyLeaves() {
	sizes := [...]int{63, 64, 65, 127, 128, 129, 255, 256, 257, 300, 513, 1024, 512, 1023, 1025, 2047, 2048, 2049}
	n := sizes[sym.Choose("leaves", sym.Bound(13, len(sizes)))]
	last := sym.Choose("last", 2) * (n - 1)
	if sym.Choose("api", 2) == 0 {
		var lv tiger.Leaves
		for i := 0; i < n; i++ {
			h := sampleHash(byte(i))
			h[5] = byte(i >> 8)
			if i == last {
				h[0], h[23] = sym.Byte("leaf"), sym.Byte("leaf")
			}
			lv = append(lv, h)
		}
		keep := append([]tiger.Hash(nil), lv...)
		root := refTree(keep)
		got := lv.TreeHash()
		sym.Assert(sym.EqB(got[:], root[:]), "root differs")
		for i := range lv {
			sym.Assert(sym.EqB(lv[i][:], keep[i][:]), "leaf changed")
		}
		sym.Reach("leaves")
		return
	}
	exact := n%2 == 0 && last == 0
	if n > sym.Bound(130, 520) && !(exact && n <= 1024) {
		return
	}
	data := make([]byte, n*1024-7)
	if exact {
		data = make([]byte, n*1024)
	}
	for i := range data {
		data[i] = byte(i/1024) ^ byte(i)
	}
	data[last*1024+3] = sym.Byte("data")
	checkTree(data, func() io.Reader { return bytes.NewReader(data) })
}

func ManyCerts() {
	n := [...]int{5, 9, 33, 130}[sym.Choose("certificates", sym.Bound(3, 4))]
	at := pick4("certificate", n)
	var certs [][]byte
	for i := 0; i < n; i++ {
		certs = append(certs, []byte{0x30, byte(i), byte(i * i)})
	}
	switch sym.Choose("api", 3) {
	case 0:
		certs[at][2] = sym.Byte("c")
		kps := keyprint.FromCertificate(tls.Certificate{Certificate: certs})
		sym.Assert(len(kps) == n, "number of prints")
		for i := range kps {
			sym.Assert(sym.Eq(kps[i], refPrint(certs[i])), "print of the chain")
		}
		sym.Reach("chain")
	case 1:
		var file bytes.Buffer
		var want []string
		keys := sym.Choose("keys", 2) == 1
		for i, c := range certs {
			if keys && i%2 == 1 {
				file.Write(pem.EncodeToMemory(&pem.Block{Type: "PRIVATE KEY", Bytes: c}))
				continue
			}
			file.Write(pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: c}))
			want = append(want, refPrint(c))
		}
		got, err := keyprint.FromFile(&pieces{data: file.Bytes(), size: [...]int{1 << 20, 100}[sym.Choose("reads", 2)]})
		sym.Assert(err == nil, "file refused")
		sym.Assert(len(got) == len(want), "number of prints")
		for i := range got {
			sym.Assert(got[i] == want[i], "print in the file")
		}
		sym.Reach("file")
	case 2:
		kp := []byte(refPrint(certs[at]))
		if sym.Choose("forged", 2) == 1 {
			kp[30] = sym.Byte("c")
		}
		checkVerify(certs, string(kp))
	}
}

func ManyFeatures() {
	n := [...]int{9, 17, 40, 130}[sym.Choose("features", 4)]
	at := pick4("feature", n)
	c := sym.ByteRange("c", 'a', 'z')
	var fs []adc.Feature
	var names []string
	for i := 0; i < n; i++ {
		f := adc.Feature{'F', byte('0' + i%10), byte('A' + i/10), 'X'}
		if i == at {
			f[0] = c
		}
		fs = append(fs, f)
		names = append(names, string(f[:]))
	}
	op := sym.Choose("op", 7)
	m := adc.ModFeatures{}
	var es []modEntry
	for i, f := range fs {
		m[f] = i%3 != 0
		es = append(es, modEntry{f, i%3 != 0})
	}
	same := func(m adc.ModFeatures, es []modEntry, msg string) {
		sym.Assert(len(m) == len(es), msg)
		for _, e := range es {
			v, ok := m[e.f]
			sym.Assert(ok && v == e.add, msg)
		}
	}
	switch op {
	case 0: // the list: text and back
		l := adc.ExtFeatures(fs)
		buf := bytes.NewBuffer(nil)
		sym.Assert(l.MarshalADC(buf) == nil, "list refused")
		sym.Assert(sym.EqB(buf.Bytes(), []byte(strings.Join(names, ","))), "comma separated form")
		var out adc.ExtFeatures
		sym.Assert(out.UnmarshalADC(buf.Bytes()) == nil, "encoded list refused")
		sym.Assert(sameFeatures(l, out), "list altered")
		sym.Assert(l.Has(fs[at]), "member not found")
		sym.Assert(!l.Has(adc.Feature{'N', 'O', 'N', 'E'}), "not a member")
		sym.Reach("list")
	case 1: // the map: text and back
		buf := bytes.NewBuffer(nil)
		sym.Assert(m.MarshalADC(buf) == nil, "set refused")
		sym.Assert(buf.Len() == 7*n-1, "length of the wire form")
		out := adc.ModFeatures{}
		sym.Assert(out.UnmarshalADC(buf.Bytes()) == nil, "encoded set refused")
		same(out, es, "set altered")
		sym.Reach("map")
	case 2:
		k := m.Clone()
		same(k, es, "clone differs")
		delete(k, fs[0])
		k[fs[at]] = !m[fs[at]]
		same(m, es, "clone shares the map")
		sym.Reach("clone")
	case 3: // every second one is also in the other set
		o := adc.ModFeatures{}
		var want []modEntry
		for i, f := range fs {
			if i%2 == 0 {
				o[f] = i%5 != 0
				if i%5 != 0 && i%3 != 0 {
					want = append(want, modEntry{f, true})
				}
			}
		}
		same(m.Intersect(o), want, "intersection")
		same(o.Intersect(m), want, "intersection")
		same(m, es, "input changed")
		sym.Reach("intersect")
	case 4:
		o := adc.ModFeatures{{'O', 'T', 'H', 'R'}: true}
		var oe []modEntry
		want := append([]modEntry{{adc.Feature{'O', 'T', 'H', 'R'}, true}}, es...)
		for i, f := range fs {
			if i%2 == 0 {
				o[f] = false
				oe = append(oe, modEntry{f, false})
				want[1+i].add = false
			}
		}
		same(m.SetFrom(o), want, "merge")
		same(m, es, "input changed")
		sym.Reach("merge")
	case 5:
		j := m.Join()
		k := 0
		for _, e := range es {
			if e.add {
				k++
				sym.Assert(strings.Contains(","+j+",", ","+string(e.f[:])+","), "member missing in the text")
			}
		}
		sym.Assert(len(j) == 5*k-1, "names joined")
		sym.Reach("join")
	case 6:
		a, b := make(nmdc.Extensions), make(nmdc.Extensions)
		var half []string
		for i, s := range names {
			a.Set(s)
			if i%2 == 0 {
				b.Set(s)
				half = append(half, s)
			}
		}
		b.Set("other")
		sameExt(a, names, "Set")
		sameExt(a.Intersect(b), half, "intersection")
		sameExt(b.Intersect(a), half, "intersection")
		sameExt(a.IntersectList(append(append([]string(nil), half...), "other", half[0])), half, "intersection with a list")
		sameExt(a.Clone(), names, "clone")
		l := a.List()
		sym.Assert(len(l) == n, "list")
		for i := range l {
			sym.Assert(i == 0 || l[i-1] < l[i], "list is not sorted")
			sym.Assert(a.Has(l[i]), "list")
		}
		got := (&nmdc.Supports{Ext: names}).Intersect(&nmdc.Supports{Ext: append([]string{"other"}, half...)})
		sym.Assert(len(got.Ext) == len(half), "intersection of lists")
		for _, s := range half {
			sym.Assert(has(got.Ext, s), "intersection of lists")
		}
		sym.Reach("sets")
	}
}

func TagCase() {
	key := sym.ByteRange("key", 'A', 'Z')
	var mask [5]byte
	for i := range mask {
		mask[i] = sym.Byte("case") & 0x20
	}
	digit := sym.ByteRange("digit", '0', '9')
	tag := func(m [5]byte) []byte {
		b := []byte("$ALL n d<C ")
		b = append(b, 'V'|m[0], ':', '1', ',', 'M'|m[1], ':', 'A', ',', 'H'|m[2])
		b = append(b, ":1/2/3,"...)
		b = append(b, 'S'|m[3], ':', digit, ',', key|m[4], ':', digit)
		return append(b, ">$ $c\x01$e$7$"...)
	}
	var up, low nmdc.MyINFO
	e1 := up.UnmarshalNMDC(nil, tag([5]byte{}))
	e2 := low.UnmarshalNMDC(nil, tag(mask))
	sym.Assert((e1 == nil) == (e2 == nil), "key of another case refused")
	if e1 != nil {
		return
	}
	sym.Assert(sym.Same(&up, &low), "key of another case means something else")
	sym.Reach("same")
}

func LongTranscode() {
	n := [...]int{100, 255, 256, 1000, 4096, 5000}[sym.Choose("size", 6)]
	at := [...]int{0, n / 2, n - 1}[sym.Choose("at", 3)]
	f := charsetText(1)
	sym.Assume(sym.Not(sym.OneOf(f.enc[len(f.enc)-1], "&|$"))) // these are escaped behind the conversion
	text := rep('x', at) + f.utf + rep('y', n-1-at)
	wire := rep('x', at) + f.enc + rep('y', n-1-at)
	var m nmdc.Message
	var want string
	switch sym.Choose("message", 3) {
	case 0:
		m, want = &nmdc.ChatMessage{Name: "a", Text: text}, "<a> "+wire+"|"
	case 1:
		m, want = &nmdc.PrivateMessage{To: "a", From: "b", Name: "b", Text: text}, "$To: a From: b $<b> "+wire+"|"
	case 2:
		m, want = &nmdc.HubTopic{Text: text}, "$HubTopic "+wire+"|"
	}
	s := &sink{limit: -1}
	w := nmdc.NewWriter(s)
	w.SetEncoder(charsetEncoder())
	sym.Assert(w.WriteMsg(m, m) == nil && w.Flush() == nil, "legal text refused")
	sym.Assert(sym.Eq(string(s.got), want+want), "text is not in the hub's encoding")
	r := nmdc.NewReader(bytes.NewReader(s.got))
	r.SetDecoder(charsetDecoder())
	for i := 0; i < 2; i++ {
		got, err := r.ReadMsg()
		sym.Assert(err == nil, "encoded message refused")
		sym.Assert(sameMsg(got, m), "text altered")
	}
	sym.Reach("trip")
}

// noisy is a special text repeated, with an arbitrary byte in it.
func noisy(parts []string) []byte {
	n := [...]int{100, 2000, 5000}[sym.Choose("size", sym.Bound(2, 3))]
	b := []byte(strings.Repeat(parts[sym.Choose("part", len(parts))], n))
	b[[...]int{0, len(b) / 2, len(b) - 1}[sym.Choose("at", 3)]] = sym.Byte("c")
	return b
}

func LongRepeat() {
	k := sym.Choose("command", len(protoNames)+1)
	name := ""
	if k > 0 {
		name = protoNames[k-1]
	}
	data := noisy([]string{"$", " ", "$$", "a$", ":", "<", "> ", "&#", "/%DCN", ",a:", "\x05", "9"})
	decodeAny(name, data)
}

func LongRepeatAdc() {
	k := sym.Choose("command", len(adcSamples)+2)
	data := noisy([]string{" ", "\\", "a ", "\\s", ",", "/", "AD", "+AAAA", "9", "ID "})
	if k >= len(adcSamples) {
		line := append([]byte([]string{"FMSG AAAA ", "BINF AAAA "}[k-len(adcSamples)]), data...)
		kind := line[0]
		p, err := adc.DecodePacketRaw(append(line, '\n'))
		if err == nil {
			sym.Assert(p.Kind() == kind, "kind altered")
			_ = p.DecodeMessage()
			sym.Reach("decoded")
		}
		return
	}
	m, err := adc.UnmarshalMessage(msgType(adcSamples[k].name), data)
	if err != nil {
		sym.Reach("refused")
		return
	}
	cmd := m.Cmd()
	sym.Assert(cmd == msgType(adcSamples[k].name), "another command's message")
	_ = adc.Marshal(bytes.NewBuffer(nil), m)
	sym.Reach("decoded")
}
