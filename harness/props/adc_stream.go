package props

import (
	"bytes"
	"errors"
	"io"

	"github.com/direct-connect/go-dc/adc"

	"verif/harness/sym"
)

func init() {
	sym.Register("C26", sym.Both, AdcStreamAny, "streams of 0..7 (thorough 8) arbitrary bytes, decoded and raw reads: one result per line that is not empty, equal to decoding the line alone; keep-alives counted; then the end of the stream")
	sym.Register("C26", sym.Both, AdcStreamItems, "up to 3 (thorough 4) lines out of 9: packets of every kind with an arbitrary byte, keep-alives and malformed lines; reads decoded, raw or typed; a keep-alive hook absent, counting or failing at an arbitrary call; the last line with or without its end")
	sym.Register("C26", sym.Both, AdcStreamChunks, "two packets and a keep-alive of 16 bytes in total, delivered in all ways of up to 3 (thorough 4) reads with at most one empty read, with or before any error")
	sym.Register("C26", sym.Both, AdcStreamTyped, "one line of each of the 8 kinds, 5 commands (known, unknown, malformed): ReadInfo and ReadClient return the message of exactly their kind, decoded; any other line is consumed and reported")
	sym.Register("C26", sym.Both, AdcStreamLong, "packets of 2040..2060 and 4090..4100 bytes followed by another packet")
	sym.Register("C27", sym.Both, AdcWriteKinds, "every writer function and stream of each of the 7 kinds, arbitrary addresses and conditions, messages: chat with an arbitrary text of 0..2 (thorough 3) bytes, a raw command, an empty one: exactly the line of the packet, decoded back to it")
	sym.Register("C27", sym.Both, AdcWriteSequence, "up to 3 (thorough 4) operations out of: packets by function or stream, keep-alive, a message refused halfway by its encoder, flush; buffer of default size or 16 bytes: the wire is the concatenation of the lines of the accepted ones")
	sym.Register("C27", sym.Both, AdcWriteBroken, "a transport that fails after 0..25 bytes: a prefix of the lines is on the wire, the failure is reported by the flush and by every later write")
	sym.Register("C27", sym.Both, AdcWriteRead, "up to 2 chat packets of any kind with texts of 0..2 arbitrary bytes (thorough: also 3 with 0..1) written and read back by the stream reader: the same packets in the same order")
}

var badKeep = errors.New("bad keep-alive")

// samePacket compares two packets by their wire form.
func samePacket(a, b adc.Packet) bool {
	if a == nil || b == nil || a.Kind() != b.Kind() {
		return false
	}
	_, raw1 := a.Message().(*adc.RawMessage)
	_, raw2 := b.Message().(*adc.RawMessage)
	if raw1 != raw2 {
		return false
	}
	x, y := bytes.NewBuffer(nil), bytes.NewBuffer(nil)
	if a.MarshalPacketADC(x) != nil || b.MarshalPacketADC(y) != nil {
		return false
	}
	return sym.EqB(x.Bytes(), y.Bytes())
}

func AdcStreamAny() {
	data := []byte(sym.Str("stream", sym.Bound(7, 8)))
	orig := append([]byte(nil), data...)
	r := adc.NewReader(bytes.NewReader(data))
	alive, want := 0, 0
	r.OnKeepAlive = func() error { alive++; return nil }
	raw := sym.Choose("raw", 2) == 1
	start := 0
	for i := 0; i < len(orig); i++ {
		if orig[i] != '\n' {
			continue
		}
		line := append([]byte(nil), orig[start:i+1]...)
		start = i + 1
		if len(line) == 1 {
			want++
			continue
		}
		var p, ref adc.Packet
		var err, rerr error
		if raw {
			ref, rerr = adc.DecodePacketRaw(line)
			p, err = r.ReadPacketRaw()
		} else {
			ref, rerr = adc.DecodePacket(line)
			p, err = r.ReadPacket()
		}
		sym.Assert(alive == want, "keep-alives miscounted")
		sym.Assert((err == nil) == (rerr == nil), "line decoded differently in the stream")
		if err == nil {
			sym.Assert(samePacket(p, ref), "packet differs from the line")
			sym.Reach("packet")
		} else {
			sym.Assert(p == nil, "a packet and an error")
			sym.Reach("malformed")
		}
	}
	p, err := r.ReadPacket()
	sym.Assert(p == nil && err != nil, "a packet without its end")
	if start == len(orig) {
		sym.Assert(err == io.EOF, "end of stream")
	}
	sym.Assert(alive == want, "keep-alives miscounted")
}

var streamLines = []struct {
	pre, post string
	bad       bool
}{
	{"\n", "", false},
	{"IMSG a", "b\n", false},
	{"BMSG ABCD x", "\n", false},
	{"HFOO \x01", "\n", false},
	{"CSUP ADBAS", "\n", false},
	{"X", "MSG a\n", true},
	{"DMSG AB", "D\n", true},
	{"FMSG ABCD +TCP4 y", "\n", false},
	{"ESCH AAAA BBBB AN", "\n", false},
}

func AdcStreamItems() {
	n := sym.Choose("lines", sym.Bound(4, 5))
	pool := len(streamLines)
	if n >= 3 {
		pool = 6
	}
	var stream []byte
	var lines [][]byte
	for i := 0; i < n; i++ {
		k := sym.Choose("line", pool)
		l := streamLines[k]
		line := []byte(l.pre)
		if k > 0 {
			// no text is changed by this byte
			c := sym.Byte("byte")
			sym.Assume(sym.OneOf(c, "abcdefghijklmnopqrstuvwxyz0123456789"))
			line = append(line, c)
		}
		line = append(line, l.post...)
		lines = append(lines, line)
		stream = append(stream, line...)
	}
	cut := n > 0 && sym.Choose("cut", 2) == 1
	if cut {
		stream = stream[:len(stream)-1]
	}
	r := adc.NewReader(bytes.NewReader(stream))
	calls, failAt, hook := 0, -1, sym.Choose("hook", 3)
	if hook > 0 {
		if hook == 2 {
			failAt = sym.Choose("fail", 2)
		}
		r.OnKeepAlive = func() error {
			calls++
			if calls-1 == failAt {
				return badKeep
			}
			return nil
		}
	}
	api := sym.Choose("api", 3)
	read := func() (adc.Packet, error) {
		switch api {
		case 0:
			return r.ReadPacket()
		case 1:
			return r.ReadPacketRaw()
		}
		if sym.Choose("raw", 2) == 1 {
			return r.ReadPacketRaw()
		}
		return r.ReadPacket()
	}
	var kept []adc.Packet
	var refs []adc.Packet
	alive := 0
	for i, line := range lines {
		if cut && i == n-1 {
			break
		}
		if len(line) == 1 {
			alive++
			if hook == 2 && alive-1 == failAt {
				p, err := read()
				sym.Assert(p == nil && err == badKeep, "failure of the keep-alive hook lost")
				sym.Reach("hook failed")
			}
			continue
		}
		p, err := read()
		if hook > 0 {
			sym.Assert(calls == alive, "keep-alives miscounted")
		}
		ref, rerr := adc.DecodePacketRaw(line)
		if err == nil && rerr == nil {
			if _, ok := p.Message().(*adc.RawMessage); !ok || api == 0 {
				rerr = ref.DecodeMessage()
			}
		}
		sym.Assert((err == nil) == (rerr == nil), "line decoded differently in the stream")
		if err != nil {
			sym.Assert(p == nil, "a packet and an error")
			sym.Reach("malformed")
			continue
		}
		sym.Assert(samePacket(p, ref), "packet differs from the line")
		if api == 0 {
			kept, refs = append(kept, p), append(refs, ref)
		}
		sym.Reach("packet")
	}
	p, err := read()
	sym.Assert(p == nil && err != nil, "a packet after the last one")
	if !cut {
		sym.Assert(err == io.EOF, "end of stream")
	}
	if hook > 0 {
		sym.Assert(calls == alive, "keep-alives miscounted")
	}
	for i := range kept {
		sym.Assert(samePacket(kept[i], refs[i]), "a decoded packet changes when the next one is read")
	}
}

func AdcStreamChunks() {
	a, b := wordByte("a"), wordByte("b")
	sym.Assume(sym.And(a != '\\', b != '\\'))
	l1 := []byte{'I', 'M', 'S', 'G', ' ', a, '\n'}
	l2 := []byte{'H', 'F', 'O', 'O', ' ', b, b, '\n'}
	stream := append(append(append([]byte(nil), l1...), '\n'), l2...)
	end := io.EOF
	if sym.Choose("end", 2) == 1 {
		end = errors.New("reset")
	}
	r := adc.NewReader(&fewReads{data: stream, reads: sym.Bound(3, 4), empty: 1, end: end})
	alive := 0
	r.OnKeepAlive = func() error { alive++; return nil }
	for i, l := range [][]byte{l1, l2} {
		ref, rerr := adc.DecodePacket(append([]byte(nil), l...))
		p, err := r.ReadPacket()
		sym.Assert(err == nil && rerr == nil, "packet refused")
		sym.Assert(samePacket(p, ref), "packet differs from the line")
		sym.Assert(alive == i, "keep-alives miscounted")
	}
	p, err := r.ReadPacket()
	sym.Assert(p == nil && err == end, "end of stream")
	sym.Reach("read")
}

// fewReads splits the data arbitrarily in the first few reads.
type fewReads struct {
	data  []byte
	reads int
	empty int
	end   error
}

func (c *fewReads) Read(p []byte) (int, error) {
	if len(c.data) == 0 {
		return 0, c.end
	}
	n := len(c.data)
	if n > len(p) {
		n = len(p)
	}
	if c.reads > 0 {
		c.reads--
		lo := 1 - c.empty
		n = lo + sym.Choose("read", n+1-lo)
		if n == 0 {
			c.empty = 0
		}
	}
	copy(p, c.data[:n])
	c.data = c.data[n:]
	if len(c.data) == 0 && n > 0 && sym.Choose("with", 2) == 1 {
		return n, c.end
	}
	return n, nil
}

func AdcStreamTyped() {
	kind := kinds[sym.Choose("kind", len(kinds))]
	from, to, cid := adc.SID{'A', 'B', 'C', 'D'}, adc.SID{'E', 'F', 'G', 'H'}, adc.CID(sampleHash(9))
	c := sym.Byte("byte")
	sym.Assume(sym.And(sym.And(c != ' ', c != '\n'), sym.And(c != 0, c != '\\')))
	var name, payload []byte
	bad := false
	switch sym.Choose("command", 5) {
	case 0:
		name, payload = []byte("MSG"), []byte{'a', c}
	case 1:
		name, payload = []byte("SUP"), []byte{'A', 'D', 'B', 'A', 'S', c}
	case 2:
		name, payload = []byte("xOO"), []byte{'a', c, ' ', 'b'}
	case 3:
		name, payload = []byte("SID"), []byte{'A', 'B', c}
		bad = true
	case 4:
		name = []byte("zzz")
	}
	line := refLine(kind, name, from, to, cid, nil, payload)
	stream := append([]byte("\n"), line...)
	stream = append(stream, "HMSG next\n"...)
	r := adc.NewReader(bytes.NewReader(stream))
	var m adc.Message
	var err error
	want := byte('I')
	if sym.Choose("client", 2) == 1 {
		want = 'C'
		m, err = r.ReadClient()
	} else {
		m, err = r.ReadInfo()
	}
	if kind != want || bad {
		sym.Assert(m == nil && err != nil, "typed read accepts another kind")
		sym.Reach("refused")
	} else {
		ref, rerr := adc.UnmarshalMessage(msgType(string(name)), payload)
		sym.Assert(err == nil && rerr == nil, "typed read refuses its kind")
		sym.Assert(samePacket(&adc.InfoPacket{Msg: m}, &adc.InfoPacket{Msg: ref}), "message differs from the line")
		sym.Reach("accepted")
	}
	p, err := r.ReadPacket()
	sym.Assert(err == nil, "next packet lost")
	msg, ok := p.Message().(adc.ChatMessage)
	sym.Assert(ok && p.Kind() == 'H' && msg.Text == "next", "next packet differs")
	_, err = r.ReadPacket()
	sym.Assert(err == io.EOF, "end of stream")
}

func AdcStreamLong() {
	n := 2040 + sym.Choose("size", 31)
	if n > 2060 {
		n += 4090 - 2061
	}
	l1 := []byte("IMSG ")
	for len(l1) < n-1 {
		l1 = append(l1, 'a'+byte(len(l1)%26))
	}
	l1[5] = wordByte("first")
	l1[n-2] = wordByte("last")
	sym.Assume(sym.And(l1[5] != '\\', l1[n-2] != '\\'))
	l1 = append(l1, '\n')
	l2 := []byte("\nHFOO x\n")
	r := adc.NewReader(bytes.NewReader(append(append([]byte(nil), l1...), l2...)))
	p, err := r.ReadPacket()
	sym.Assert(err == nil, "long packet refused")
	m, ok := p.Message().(adc.ChatMessage)
	sym.Assert(ok && sym.Eq(m.Text, string(l1[5:n-1])), "long packet altered")
	p, err = r.ReadPacket()
	sym.Assert(err == nil && p.Kind() == 'H', "packet after a long one lost")
	_, err = r.ReadPacket()
	sym.Assert(err == io.EOF, "end of stream")
	sym.Reach("read")
}

// ---- writer ----

// send writes a message of the given kind by its function or stream.
func send(w *adc.Writer, kind byte, how int, from, to adc.SID, sel []adc.FeatureSel, m adc.Message) error {
	if how == 0 {
		switch kind {
		case 'I':
			return w.WriteInfo(m)
		case 'H':
			return w.WriteHub(m)
		case 'C':
			return w.WriteClient(m)
		case 'B':
			return w.WriteBroadcast(from, m)
		case 'D':
			return w.WriteDirect(from, to, m)
		case 'E':
			return w.WriteEcho(from, to, m)
		case 'F':
			return w.WriteFeature(from, sel, m)
		}
	}
	var s adc.WriteStream
	switch kind {
	case 'I':
		s = w.InfoStream()
	case 'H':
		s = w.HubStream()
	case 'C':
		s = w.ClientStream()
	case 'B':
		s = w.BroadcastStream(from)
	case 'D':
		s = w.DirectStream(from, to)
	case 'E':
		s = w.EchoStream(from, to)
	case 'F':
		s = w.FeatureStream(from, sel)
	}
	if how == 1 {
		return s.WriteMessage(m)
	}
	if err := s.WriteMessage(m); err != nil {
		return err
	}
	return s.Flush()
}

const sendKinds = "IHCBDEF"

func AdcWriteKinds() {
	kind := sendKinds[sym.Choose("kind", len(sendKinds))]
	how := sym.Choose("how", 4)
	from, to := someSID("from"), someSID("to")
	sel := someSel(kind, 2)
	var m adc.Message
	var name, payload []byte
	switch sym.Choose("message", 3) {
	case 0:
		s := sym.StrN("text", 1, sym.Bound(2, 3))
		sym.None(s, "\x00")
		if kind == 'F' {
			sym.None(s[:1], "+-")
		}
		m, name, payload = adc.ChatMessage{Text: s}, []byte("MSG"), refEscape(s)
	case 1:
		n := someSID("name")
		payload = somePayload(kind, 2)
		name = []byte{'x', n[1], n[2]}
		m = &adc.RawMessage{Type: adc.MsgType{'x', n[1], n[2]}, Data: payload}
	case 2:
		m, name = adc.ZOn{}, []byte("ZON")
	}
	out := bytes.NewBuffer(nil)
	w := adc.NewWriter(out)
	if how == 3 {
		sym.Assert(w.WritePacket(newPacket(kind, from, to, adc.CID{}, sel, m)) == nil, "packet refused by the writer")
	} else {
		sym.Assert(send(w, kind, how, from, to, sel, m) == nil, "message refused by the writer")
	}
	if how != 2 {
		sym.Assert(w.Flush() == nil, "flush failed")
	}
	line := refLine(kind, name, from, to, adc.CID{}, sel, payload)
	sym.Observe("wire", out.Bytes())
	sym.Assert(sym.EqB(out.Bytes(), line), "not the line of the packet")
	p, err := adc.DecodePacket(append([]byte(nil), line...))
	sym.Assert(err == nil, "written packet refused")
	checkPacket(p, kind, from, to, adc.CID{}, sel)
	sym.Assert(samePacket(p, newPacket(kind, from, to, adc.CID{}, sel, m)), "written packet decoded to another one")
	sym.Reach("sent")
}

// halfMessage is refused by its encoder after half of it was written.
type halfMessage struct{ n int }

var errHalf = errors.New("half")

func (halfMessage) Cmd() adc.MsgType { return adc.MsgType{'H', 'L', 'F'} }
func (h halfMessage) MarshalADC(buf *bytes.Buffer) error {
	for i := 0; i < h.n; i++ {
		buf.WriteString("half\n")
	}
	return errHalf
}

func AdcWriteSequence() {
	out := bytes.NewBuffer(nil)
	w := adc.NewWriter(out)
	if sym.Choose("small", 2) == 1 {
		w = adc.NewWriterSize(out, 16)
	}
	a, b := adc.SID{'A', 'A', 'A', 'A'}, adc.SID{'B', 'B', 'B', 'B'}
	// streams are kept for the whole sequence
	streams := []adc.WriteStream{w.BroadcastStream(a), w.DirectStream(b, a), w.FeatureStream(b, []adc.FeatureSel{{Fea: adc.FeaTCP4, Sel: true}})}
	heads := []string{"BMSG AAAA ", "DMSG BBBB AAAA ", "FMSG BBBB +TCP4 "}
	var want []byte
	n := 1 + sym.Choose("operations", sym.Bound(3, 4))
	for i := 0; i < n; i++ {
		c := sym.Byte("text")
		sym.Assume(sym.And(sym.And(c != ' ', c != '\n'), sym.And(c != '\\', c != 0)))
		msg := adc.ChatMessage{Text: string([]byte{'x', c})}
		switch op := sym.Choose("operation", 8); op {
		case 0, 1, 2:
			sym.Assert(streams[op].WriteMessage(msg) == nil, "message refused by the writer")
			want = append(append(want, heads[op]...), 'x', c, '\n')
		case 3:
			sym.Assert(w.WriteInfo(msg) == nil, "message refused by the writer")
			want = append(append(want, "IMSG "...), 'x', c, '\n')
		case 4:
			sym.Assert(w.WriteKeepAlive() == nil, "keep-alive refused by the writer")
			want = append(want, '\n')
		case 5:
			err := w.WriteEcho(a, b, halfMessage{sym.Choose("half", 3)})
			sym.Assert(err == errHalf, "failure of the encoder lost")
			sym.Reach("refused")
		case 6:
			sym.Assert(w.Flush() == nil, "flush failed")
			sym.Assert(sym.EqB(out.Bytes(), want), "wire differs after a flush")
		case 7:
			sym.Assert(w.WriteHub(adc.ZOff{}) == nil, "message refused by the writer")
			want = append(want, "HZOF\n"...)
		}
	}
	sym.Assert(w.Flush() == nil, "flush failed")
	sym.Assert(sym.EqB(out.Bytes(), want), "wire differs from the messages written")
	sym.Reach("sent")
}

func AdcWriteBroken() {
	bw := &brokenWriter{left: sym.Choose("left", 26), err: errors.New("broken")}
	w := adc.NewWriter(bw)
	if sym.Choose("small", 2) == 1 {
		w = adc.NewWriterSize(bw, 16)
	}
	var want []byte
	var failed error
	for i := 0; i < 3; i++ {
		c := sym.Byte("text")
		sym.Assume(sym.And(sym.And(c != ' ', c != '\n'), sym.And(c != '\\', c != 0)))
		err := w.WriteInfo(adc.ChatMessage{Text: string([]byte{'a', 'b', c})})
		want = append(append(want, "IMSG ab"...), c, '\n')
		if failed != nil {
			sym.Assert(err != nil, "write after a failure succeeded")
			continue
		}
		if err == nil && sym.Choose("flush", 2) == 1 {
			err = w.Flush()
			sym.Assert(err != nil || sym.EqB(bw.got, want), "flush left something behind")
		}
		failed = err
	}
	if failed == nil {
		failed = w.Flush()
		sym.Assert(failed != nil || sym.EqB(bw.got, want), "flush left something behind")
	}
	sym.Assert(failed == nil || failed == bw.err, "another failure reported")
	sym.Assert((failed == nil) == (len(bw.got) == len(want)), "failure of the transport not reported")
	sym.Assert(len(bw.got) <= len(want) && sym.EqB(bw.got, want[:len(bw.got)]), "wire is not a prefix of the messages written")
	sym.Reach("compared")
}

func AdcWriteRead() {
	wire := bytes.NewBuffer(nil)
	w := adc.NewWriter(wire)
	n := 1 + sym.Choose("packets", sym.Bound(2, 3))
	var ps []adc.Packet
	var texts []string
	long := 2
	if n == 3 {
		long = 1
	}
	for i := 0; i < n; i++ {
		kind := kinds[sym.Choose("kind", len(kinds))]
		s := sym.StrN("text", 0, long)
		sym.None(s, "\x00")
		if kind == 'F' && len(s) > 0 {
			sym.None(s[:1], "+-")
		}
		p := newPacket(kind, adc.SID{'A', 'B', 'C', 'D'}, adc.SID{'E', 'F', 'G', 'H'}, adc.CID(sampleHash(byte(i))), nil, adc.ChatMessage{Text: s})
		sym.Assert(w.WritePacket(p) == nil, "packet refused by the writer")
		ps, texts = append(ps, p), append(texts, s)
	}
	sym.Assert(w.Flush() == nil, "flush failed")
	r := adc.NewReader(wire)
	r.OnKeepAlive = func() error { return badKeep }
	for i := range ps {
		p, err := r.ReadPacket()
		sym.Assert(err == nil, "written packet refused by the reader")
		sym.Assert(samePacket(p, ps[i]), "packet altered")
		m, ok := p.Message().(adc.ChatMessage)
		sym.Assert(ok && sym.Eq(m.Text, texts[i]), "text altered")
	}
	_, err := r.ReadPacket()
	sym.Assert(err == io.EOF, "end of stream")
	sym.Reach("read")
}
